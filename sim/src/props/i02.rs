use super::util::*;
use crate::core::{chance, draw, fault, known, nontrivial, pick, probe, range, sh, F};
use crate::generate::{Gen, SMALL};
use crate::orch::Prop;
use crate::{canon, check, ev};
use koopa::ir::builder_traits::*;
use koopa::ir::layout::{BasicBlockNode, InstList, Layout};
use koopa::ir::{BasicBlock, Function, FunctionData, Program, Type, Value};
use koopa::opt::{FunctionPass, Pass, PassManager};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "I02",
    run,
    quick: 80000,
    thorough: 1_200_000,
    rule: "an execution counts when an instruction or block was moved, removed or refused; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the client that edits layouts (also from passes), hash seeds, the heap",
};

/// The reference model of one layout.
#[derive(Clone, Default)]
struct Model {
    bbs: Vec<(BasicBlock, Vec<Value>)>,
}
impl Model {
    fn at(&self, b: BasicBlock) -> Option<usize> {
        self.bbs.iter().position(|x| x.0 == b)
    }
    fn parent(&self, v: Value) -> Option<BasicBlock> {
        self.bbs.iter().find(|x| x.1.contains(&v)).map(|x| x.0)
    }
}
struct Fun {
    prog: usize,
    f: Function,
    m: Model,
    bbs: Vec<BasicBlock>,
    vals: Vec<Value>,
    /// handles of other functions, which may be listed here as well
    guests: Vec<Value>,
}

fn keys_of(l: &InstList) -> Vec<Value> {
    l.keys().copied().take(1000).collect()
}
/// Compares a layout with its model.
fn verify(l: &Layout, x: &Fun, what: &str) {
    let m = &x.m;
    let have: Vec<BasicBlock> = l.bbs().keys().copied().take(1000).collect();
    let want: Vec<BasicBlock> = m.bbs.iter().map(|b| b.0).collect();
    check!(have == want, "blocks", "after {what} the blocks are {have:?}, not {want:?}");
    let mut back = Vec::new();
    let mut c = l.bbs().cursor_back();
    while let Some(k) = c.key() {
        back.push(*k);
        check!(back.len() <= want.len(), "blocks", "after {what} walking the blocks backwards does not end");
        c.move_prev();
    }
    back.reverse();
    check!(back == want, "blocks", "after {what} the blocks are {back:?} backwards, not {want:?}");
    check!(l.bbs().len() == want.len() && l.bbs().is_empty() == want.is_empty(), "blocks", "after {what} the block count is {}", l.bbs().len());
    check!(l.entry_bb() == want.first().copied(), "entry", "after {what} the entry is {:?}, not {:?}", l.entry_bb(), want.first());
    check!(l.bbs().back_key() == want.last(), "blocks", "after {what} the last block is {:?}", l.bbs().back_key());
    for b in &x.bbs {
        check!(l.bbs().contains_key(b) == want.contains(b) && l.bbs().node(b).is_some() == want.contains(b), "blocks", "after {what} the layout is wrong about holding {b:?}");
    }
    for (b, vs) in &m.bbs {
        let il = l.bbs().node(b).unwrap().insts();
        let have = keys_of(il);
        check!(have == *vs, "insts", "after {what} {b:?} holds {have:?}, not {vs:?}");
        let mut back = Vec::new();
        let mut c = il.cursor_back();
        while let Some(k) = c.key() {
            back.push(*k);
            check!(back.len() <= vs.len(), "insts", "after {what} walking {b:?} backwards does not end");
            c.move_prev();
        }
        back.reverse();
        check!(back == *vs, "insts", "after {what} {b:?} holds {back:?} backwards, not {vs:?}");
        check!(il.len() == vs.len() && il.front_key() == vs.first() && il.back_key() == vs.last(), "insts", "after {what} length or ends of {b:?} are wrong");
    }
    for v in x.vals.iter().chain(&x.guests) {
        let (have, want) = (l.parent_bb(*v), m.parent(*v));
        check!(have == want, "parent", "after {what} the block of {v:?} is {have:?}, but {want:?} holds it");
        for (b, vs) in &m.bbs {
            check!(l.bbs().node(b).unwrap().insts().contains_key(v) == vs.contains(v), "insts", "after {what} {b:?} is wrong about holding {v:?}");
        }
    }
}

/// After popping, the links of the list may be broken (see known-findings.txt).
fn links_fine<K: Copy + Eq + std::fmt::Debug>(want: &[K], fwd: Vec<K>, back: Vec<K>, ends: (Option<K>, Option<K>)) -> bool {
    let mut b = back;
    b.reverse();
    fwd == want && b == want && ends == (want.first().copied(), want.last().copied())
}
fn inst_links(l: &InstList, want: &[Value]) -> bool {
    let mut back = Vec::new();
    let mut c = l.cursor_back();
    while let Some(k) = c.key() {
        back.push(*k);
        if back.len() > want.len() + 1 {
            break;
        }
        c.move_prev();
    }
    l.cursor_back().next_key().is_none_or(|_| want.is_empty()) && l.cursor_front().prev_key().is_none_or(|_| want.is_empty()) && links_fine(want, keys_of(l), back, (l.front_key().copied(), l.back_key().copied()))
}
fn bb_links(l: &Layout, want: &[BasicBlock]) -> bool {
    let mut back = Vec::new();
    let mut c = l.bbs().cursor_back();
    while let Some(k) = c.key() {
        back.push(*k);
        if back.len() > want.len() + 1 {
            break;
        }
        c.move_prev();
    }
    l.bbs().cursor_back().next_key().is_none_or(|_| want.is_empty()) && l.bbs().cursor_front().prev_key().is_none_or(|_| want.is_empty()) && links_fine(want, l.bbs().keys().copied().collect(), back, (l.bbs().front_key().copied(), l.bbs().back_key().copied()))
}

fn some<T: Copy>(l: &[T]) -> Option<T> {
    if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) }
}

/// Inserting `k` into the list `l` at a place; `Err` when it is there already.
fn put<K: Copy + Eq>(l: &mut Vec<K>, at: usize, k: K) -> Result<(), K> {
    if l.contains(&k) {
        return Err(k);
    }
    l.insert(at, k);
    Ok(())
}

/// One edit of the instructions of a block.
fn edit_insts(l: &mut Layout, x: &mut Fun, bi: usize) -> String {
    let b = x.m.bbs[bi].0;
    // an instruction that is in no list, in this one, or moves here from another
    let v = if chance(1, 8) && !x.guests.is_empty() { x.guests[draw(x.guests.len() as u32) as usize] } else { match some(&x.vals) { Some(v) => v, None => return String::new() } };
    let from = x.m.parent(v);
    let late = chance(1, 2);
    let moves = from.is_some() && from != Some(b);
    let take = |l: &mut Layout, m: &mut Model| {
        if moves {
            let i = m.at(from.unwrap()).unwrap();
            let r = l.bb_mut(from.unwrap()).insts_mut().remove(&v);
            check!(r.map(|r| r.0) == Some(v), "result", "removing {v:?} from the list that holds it returns something else");
            m.bbs[i].1.retain(|y| *y != v);
            probe("moved_inst");
            nontrivial();
        }
    };
    let kind = draw(12);
    let inserts = kind <= 5;
    if inserts && !late {
        take(l, &mut x.m);
    }
    let what;
    {
        let node: &mut BasicBlockNode = match draw(3) {
            0 => l.bbs_mut().node_mut(&b).unwrap(),
            _ => l.bb_mut(b),
        };
        let il = node.insts_mut();
        let ml = &mut x.m.bbs[bi].1;
        let expect = |r: Result<(), Value>, w: Result<(), Value>| {
            check!(r == w, "result", "inserting {v:?} returns {r:?}, not {w:?}");
            if w.is_err() {
                fault(F::RejectedEdit);
                probe("rejected_edit");
                nontrivial();
            }
        };
        match kind {
            0 => {
                what = format!("pushing {v:?} to the back of {b:?}");
                let n = ml.len();
                expect(il.push_key_back(v), put(ml, n, v));
            }
            1 => {
                what = format!("pushing {v:?} to the front of {b:?}");
                expect(il.push_key_front(v), put(ml, 0, v));
            }
            2..=4 => {
                // through a cursor, which may stand past the ends
                let pos = draw(ml.len() as u32 + 1) as usize;
                let mut c = match draw(3) {
                    0 => il.cursor_front_mut(),
                    1 => il.cursor_back_mut(),
                    _ => match ml.get(pos) { Some(k) => il.cursor_mut(*k), None => { let mut c = il.cursor_back_mut(); c.move_next(); c } },
                };
                let mut steps = 0;
                while c.key() != ml.get(pos) {
                    if chance(1, 2) || steps > 40 { c.move_next() } else { c.move_prev() }
                    steps += 1;
                    check!(steps < 2000, "cursor", "a cursor never gets to {:?} of {b:?}", ml.get(pos));
                }
                if kind == 2 {
                    what = format!("inserting {v:?} before {:?} of {b:?}", ml.get(pos));
                    let r = c.insert_key_before(v);
                    check!(c.key() == ml.get(pos), "cursor", "the cursor moved by inserting before it");
                    expect(r, put(ml, pos, v));
                } else {
                    what = format!("inserting {v:?} after {:?} of {b:?}", ml.get(pos));
                    let at = if pos == ml.len() { 0 } else { pos + 1 };
                    let r = c.insert_key_after(v);
                    check!(c.key() == ml.get(pos), "cursor", "the cursor moved by inserting after it");
                    expect(r, put(ml, at, v));
                }
            }
            5 => {
                what = format!("extending {b:?}");
                let mut more = vec![v];
                let all: Vec<Value> = x.vals.iter().copied().filter(|y| x.m.bbs.iter().all(|(c, l)| *c == b || !l.contains(y))).collect();
                for _ in 0..draw(3) {
                    more.extend(some(&all));
                }
                let ml = &mut x.m.bbs[bi].1;
                for k in &more {
                    let n = ml.len();
                    let _ = put(ml, n, *k);
                }
                Extend::<Value>::extend(il, more);
            }
            6 | 7 => {
                what = format!("removing {v:?} from {b:?}");
                let there = ml.contains(&v);
                let r = il.remove(&v).map(|r| r.0);
                check!(r == if there { Some(v) } else { None }, "result", "{what} returns {r:?}");
                ml.retain(|y| *y != v);
                if there {
                    nontrivial();
                }
            }
            8 | 9 => {
                // a filter over the list
                what = format!("filtering {b:?}");
                let keep = draw(4);
                let mut i = 0;
                let mut c = il.cursor_front_mut();
                while !c.is_null() {
                    check!(c.key() == ml.get(i), "cursor", "the cursor is at {:?}, not {:?}", c.key(), ml.get(i));
                    if draw(4) >= keep {
                        let r = c.remove_current().map(|r| r.0);
                        check!(r == ml.get(i).copied(), "cursor", "removing {:?} at a cursor returns {r:?}", ml[i]);
                        ml.remove(i);
                        nontrivial();
                    } else {
                        c.move_next();
                        i += 1;
                    }
                }
                check!(i == ml.len(), "cursor", "the cursor ends too early");
            }
            10 => {
                what = format!("clearing {b:?}");
                il.clear();
                ml.clear();
                nontrivial();
            }
            _ => {
                what = format!("popping from {b:?}");
                let n = range(1, 2);
                for _ in 0..n {
                    let front = chance(1, 2);
                    let r = if front { il.pop_front() } else { il.pop_back() }.map(|r| r.0);
                    let w = if ml.is_empty() { None } else if front { Some(ml.remove(0)) } else { ml.pop() };
                    check!(r == w, "pop", "popping returns {r:?}, not {w:?}");
                    nontrivial();
                    if !inst_links(il, ml) {
                        let after = if front { "pop_front" } else { "pop_back" };
                        known("pop-links", &format!("after {after} an instruction list of {} is linked wrongly", ml.len()));
                        // what is left is unusable, but it can be emptied
                        il.clear();
                        ml.clear();
                        break;
                    }
                }
            }
        }
    }
    if inserts && late {
        take(l, &mut x.m);
    }
    what
}

/// One edit of the block list.
fn edit_bbs(l: &mut Layout, x: &mut Fun) -> String {
    let Some(b) = some(&x.bbs) else { return String::new() };
    let m = &mut x.m.bbs;
    let at = m.iter().position(|y| y.0 == b);
    let expect = |r: Result<(), BasicBlock>| {
        let w = if at.is_some() { Err(b) } else { Ok(()) };
        check!(r == w, "result", "inserting {b:?} returns {r:?}, not {w:?}");
        if w.is_err() {
            fault(F::RejectedEdit);
            probe("rejected_edit");
            nontrivial();
        }
    };
    match draw(14) {
        0 | 1 => {
            expect(l.bbs_mut().push_key_back(b));
            if at.is_none() {
                m.push((b, vec![]));
            }
            format!("pushing {b:?} to the back")
        }
        2 => {
            expect(l.bbs_mut().push_key_front(b));
            if at.is_none() {
                m.insert(0, (b, vec![]));
            }
            format!("pushing {b:?} to the front")
        }
        3 | 4 => {
            let pos = draw(m.len() as u32 + 1) as usize;
            let mut c = match m.get(pos) { Some(k) => l.bbs_mut().cursor_mut(k.0), None => l.bbs_mut().cursor_mut(b) };
            while c.key() != m.get(pos).map(|k| &k.0) {
                c.move_next();
            }
            if chance(1, 2) {
                expect(c.insert_key_before(b));
                if at.is_none() {
                    m.insert(pos, (b, vec![]));
                }
            } else {
                expect(c.insert_key_after(b));
                if at.is_none() {
                    let p = if pos == m.len() { 0 } else { pos + 1 };
                    m.insert(p, (b, vec![]));
                }
            }
            format!("inserting {b:?} at {pos}")
        }
        5 | 6 => {
            let r = l.bbs_mut().remove(&b).map(|r| r.0);
            check!(r == at.map(|_| b), "result", "removing {b:?} returns {r:?}");
            if let Some(i) = at {
                m.remove(i);
                nontrivial();
            }
            format!("removing {b:?}")
        }
        7..=10 => {
            // a block is taken out and put in elsewhere with what it holds
            let Some(i) = at else { return String::new() };
            let (k, node) = if chance(1, 2) {
                l.bbs_mut().remove(&b).unwrap()
            } else {
                l.bbs_mut().cursor_mut(b).remove_current().unwrap()
            };
            check!(k == b, "result", "removing {b:?} returns {k:?}");
            let e = m.remove(i);
            check!(keys_of(node.insts()) == e.1, "insts", "a removed block no longer holds its instructions");
            for v in &e.1 {
                check!(l.parent_bb(*v).is_none(), "parent", "{v:?} still has a block although the block was removed");
            }
            probe("moved_block");
            nontrivial();
            match draw(4) {
                0 => {
                    check!(l.bbs_mut().push_back(k, node).is_ok(), "result", "a removed block cannot be put back");
                    m.push(e);
                }
                1 => {
                    check!(l.bbs_mut().push_front(k, node).is_ok(), "result", "a removed block cannot be put back");
                    m.insert(0, e);
                }
                2 => {
                    let pos = draw(m.len() as u32 + 1) as usize;
                    let mut c = l.bbs_mut().cursor_front_mut();
                    for _ in 0..pos {
                        c.move_next();
                    }
                    if chance(1, 2) {
                        check!(c.insert_before(k, node).is_ok(), "result", "a removed block cannot be put back");
                        m.insert(pos, e);
                    } else {
                        check!(c.insert_after(k, node).is_ok(), "result", "a removed block cannot be put back");
                        m.insert(if pos == m.len() { 0 } else { pos + 1 }, e);
                    }
                }
                _ => {
                    // under another name
                    let free: Vec<BasicBlock> = x.bbs.iter().copied().filter(|c| m.iter().all(|y| y.0 != *c)).collect();
                    let c = some(&free).unwrap_or(b);
                    check!(l.bbs_mut().push_back(c, node).is_ok(), "result", "a removed block cannot be put back");
                    m.push((c, e.1));
                }
            }
            format!("moving {b:?}")
        }
        11 => {
            l.bbs_mut().clear();
            m.clear();
            nontrivial();
            "clearing the blocks".into()
        }
        12 => {
            let more: Vec<BasicBlock> = (0..range(1, 3)).map(|_| some(&x.bbs).unwrap()).collect();
            for b in &more {
                if m.iter().all(|y| y.0 != *b) {
                    m.push((*b, vec![]));
                }
            }
            Extend::<BasicBlock>::extend(l.bbs_mut(), more);
            "extending the blocks".into()
        }
        _ => {
            let front = chance(1, 2);
            let r = if front { l.bbs_mut().pop_front() } else { l.bbs_mut().pop_back() };
            let w = if m.is_empty() { None } else if front { Some(m.remove(0)) } else { m.pop() };
            check!(r.as_ref().map(|r| r.0) == w.as_ref().map(|w| w.0), "pop", "popping a block returns another one");
            if let Some(w) = w {
                for v in &w.1 {
                    check!(l.parent_bb(*v).is_none(), "parent", "{v:?} still has a block although the block was popped");
                }
                nontrivial();
            }
            let want: Vec<BasicBlock> = m.iter().map(|y| y.0).collect();
            if !bb_links(l, &want) {
                known("pop-links", &format!("after {} a block list of {} is linked wrongly", if front { "pop_front" } else { "pop_back" }, want.len()));
                l.bbs_mut().clear();
                m.clear();
            }
            "popping a block".into()
        }
    }
}

fn edit(d: &mut FunctionData, x: &mut Fun) -> String {
    if chance(1, 12) {
        // a block or value is added to the function only
        if chance(1, 3) {
            x.bbs.push(d.dfg_mut().new_bb().basic_block(None));
        } else {
            x.vals.push(d.dfg_mut().new_value().alloc(Type::get_i32()));
        }
        return "creating a part".into();
    }
    if x.m.bbs.is_empty() || chance(1, 4) {
        return edit_bbs(d.layout_mut(), x);
    }
    if chance(1, 20) {
        let gone: Vec<BasicBlock> = x.bbs.iter().copied().filter(|b| x.m.at(*b).is_none()).collect();
        if let Some(b) = some(&gone) {
            let r = catch_unwind(AssertUnwindSafe(|| { d.layout_mut().bb_mut(b); }));
            check!(r.is_err(), "missing", "the layout returns a node for a block it does not hold");
            sh().panic.len = 0;
            fault(F::RejectedEdit);
            return "asking for a missing block".into();
        }
    }
    let bi = draw(x.m.bbs.len() as u32) as usize;
    edit_insts(d.layout_mut(), x, bi)
}

struct InPass {
    f: Function,
    x: *mut Fun,
    what: *mut String,
}
impl FunctionPass for InPass {
    fn run_on(&mut self, f: Function, d: &mut FunctionData) {
        if f == self.f {
            unsafe { *self.what = edit(d, &mut *self.x) };
        }
    }
}

fn adopt(p: &Program, pi: usize, f: Function) -> Fun {
    let d = p.func(f);
    let mut vals: Vec<Value> = d.dfg().values().iter().filter(|(_, x)| x.kind().is_local_inst()).map(|(v, _)| *v).collect();
    vals.sort_by_cached_key(|v| format!("{v:?}"));
    let mut bbs: Vec<BasicBlock> = d.dfg().bbs().keys().copied().collect();
    bbs.sort_by_cached_key(|v| format!("{v:?}"));
    let m = Model { bbs: d.layout().bbs().iter().map(|(b, n)| (*b, keys_of(n.insts()))).collect() };
    Fun { prog: pi, f, m, bbs, vals, guests: vec![] }
}

fn run() {
    any_heap();
    let mut progs = Vec::new();
    let mut funs: Vec<Fun> = Vec::new();
    for pi in 0..range(1, 2) as usize {
        let mut p = if chance(1, 3) {
            let mut c = SMALL;
            c.funcs = pick(&[1, 2]);
            canon::build(&Gen::prog(c))
        } else {
            Program::new()
        };
        for _ in 0..draw(3) + (pi == 0) as u32 {
            let f = p.new_func_def("@f".into(), vec![], Type::get_unit());
            let d = p.func_mut(f);
            for _ in 0..range(1, 5) {
                d.dfg_mut().new_bb().basic_block(None);
            }
            for _ in 0..range(1, 8) {
                d.dfg_mut().new_value().alloc(Type::get_i32());
            }
        }
        if chance(1, 40) {
            // one block lists many instructions
            let f = p.new_func_def("@g".into(), vec![], Type::get_unit());
            let d = p.func_mut(f);
            let bs: Vec<BasicBlock> = (0..range(2, 3)).map(|_| d.dfg_mut().new_bb().basic_block(None)).collect();
            for b in &bs {
                d.layout_mut().bbs_mut().push_key_back(*b).unwrap();
            }
            for _ in 0..range(30, 300) {
                let v = d.dfg_mut().new_value().alloc(Type::get_i32());
                d.layout_mut().bb_mut(bs[0]).insts_mut().push_key_back(v).unwrap();
            }
            probe("crowd");
        }
        for f in p.func_layout() {
            funs.push(adopt(&p, pi, *f));
        }
        progs.push(p);
    }
    // some functions list values of others
    if chance(1, 4) && funs.len() > 1 {
        let g: Vec<Value> = funs[0].vals.iter().copied().take(2).collect();
        funs.last_mut().unwrap().guests = g;
    }
    for x in &funs {
        verify(progs[x.prog].func(x.f).layout(), x, "building");
    }
    for _ in 0..range(5, 60) {
        let fi = draw(funs.len() as u32) as usize;
        let x = &mut funs[fi];
        let p = &mut progs[x.prog];
        let what = match draw(30) {
            0 => {
                // the function leaves the program and comes back
                let has_calls = p.funcs().values().any(|d| d.dfg().values().values().any(|v| matches!(v.kind(), koopa::ir::ValueKind::Call(c) if c.callee() == x.f)));
                if has_calls {
                    continue;
                }
                let mut d = p.remove_func(x.f).unwrap();
                edit(&mut d, x);
                #[allow(deprecated)]
                let f = p.new_func(d);
                x.f = f;
                "moving the function".to_string()
            }
            1 => {
                // the program is moved
                let q = std::mem::take(p);
                let q = Box::new(q);
                *p = *q;
                "moving the program".into()
            }
            2..=4 => {
                let mut what = String::new();
                let mut m = PassManager::new();
                m.register(Pass::Function(Box::new(InPass { f: x.f, x, what: &mut what })));
                m.run_passes(p);
                what
            }
            _ => edit(p.func_mut(x.f), x),
        };
        if what.is_empty() {
            continue;
        }
        ev!("{fi}: {what}");
        for y in &funs {
            verify(progs[y.prog].func(y.f).layout(), y, &what);
        }
    }
}
