use crate::generate::kind_ops;
use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, probe, sh, F};
use crate::generate::{self, Gen};
use crate::model::*;
use crate::orch::Prop;
use crate::os::{os, Plan, CALM};
use crate::simio::SimWriter;
use crate::{canon, check, ev, llvmread, sys};
use koopa::ir::builder_traits::*;
use koopa::ir::{BasicBlock, Program, Value};
use std::collections::BTreeMap;
use std::io::{BufWriter, Write};

pub static PROP: Prop = Prop {
    id: "G05",
    run,
    quick: 40000,
    thorough: 1_500_000,
    rule: "an execution counts when a sink accepted a write only partly or interrupted one, or the program was edited between two generations; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "writers passed to the generator, open(2) and write(2) on files",
};

fn fired() -> u32 {
    let f = &sh().faults;
    [F::ShortWrite, F::IntrWrite, F::SysShortWrite, F::SysIntrWrite].iter().map(|k| f[*k as usize]).sum()
}

/// Compares what a text says with the program.
fn described(m: &Prog, text: Vec<u8>) -> (Prog, String) {
    let text = match String::from_utf8(text) {
        Ok(t) => t,
        Err(_) => crate::fail!("utf8", "the text is not UTF-8"),
    };
    let back = match llvmread::read(&text) {
        Ok(b) => b,
        Err(e) => crate::fail!("unreadable", "the LLVM text does not describe a program: {e}\n{text}"),
    };
    let (want, got) = (anonymous(m).canon(), anonymous(&back).canon());
    check!(want == got, "program", "the LLVM text describes another program: {}\n{text}", crate::core::diff(&want, &got));
    (back, text)
}

fn run() {
    any_heap();
    let mut c = generate::any_cfg();
    c.numeric_funcs &= chance(1, 2);
    let mut m = Gen::prog(c);
    let mut p;
    if chance(1, 500) {
        let (m, t) = long_text();
        described(&m, Form::Llvm.text(&must_parse(&m, &t)));
        nontrivial();
        return;
    } else if chance(1, 2) {
        if chance(1, 2) {
            aggregates(&mut m);
        }
        if chance(1, 3) {
            share_names(&mut m);
        }
        if chance(1, 3) {
            move_funcs(&mut m);
        }
        if chance(1, 3) {
            move_blocks(&mut m);
        }
        if chance(1, 10) {
            long_names(&mut m);
        }
        p = canon::build(&m);
    } else {
        let t = generate::emit(&m, &generate::any_style());
        p = must_parse(&m, &t);
    }
    for round in 0..1 + draw(4) {
        if round > 0 {
            for _ in 0..1 + draw(3) {
                edit(&mut m, &mut p);
            }
            let (want, got) = (m.canon(), canon::canon(&p));
            check!(want == got, "program", "the edited program differs from its model: {}", crate::core::diff(&want, &got));
        }
        let f0 = fired();
        let text = generate_somewhere(&p);
        if fired() > f0 || round > 0 {
            nontrivial();
        }
        ev!("{}", crate::core::show(&text));
        let (back, text) = described(&m, text);
        names(&m, &back, &text);
    }
}

/// Generates onto a sink or file that accepts the text in pieces.
fn generate_somewhere(p: &Program) -> Vec<u8> {
    let form = Form::Llvm;
    let r;
    let got = match draw(4) {
        0 => {
            unlink(&["out.ll"]);
            os().plan = Plan { short_w: pick(&[0, 1, 2, 10]), intr_w: pick(&[0, 2, 10]), ..CALM };
            r = form.to_path("out.ll", p);
            os().plan = CALM;
            sys::fs_read("out.ll").unwrap_or_default()
        }
        1 => {
            let (w, log) = SimWriter::new(wplan());
            let mut b = BufWriter::with_capacity(pick(&[1, 5, 64, 8192]), w);
            r = form.onto(&mut b, p).and_then(|_| b.flush());
            drop(b);
            let l = log.borrow();
            l.got.clone()
        }
        _ => {
            let (w, log) = SimWriter::new(wplan());
            r = form.onto(w, p);
            let l = log.borrow();
            l.got.clone()
        }
    };
    if let Err(e) = r {
        crate::fail!("error", "generation fails although no write failed: {e}");
    }
    got
}

/// LLVM names have a greatest length, at which names are cut.
fn long_names(m: &mut Prog) {
    probe("long_token");
    let unit = pick(&["a", "ab_", "\u{e9}", "a\u{e9}"]);
    let len = pick(&[500usize, 508, 509, 510, 511, 512, 513, 514, 515, 600, 1100]);
    let body: String = unit.chars().cycle().take(len).collect();
    let rate = draw(3) + 1;
    let mut n = 0;
    let mut long = |x: &mut String| {
        if draw(rate) == 0 {
            n += 1;
            *x = format!("{}{body}{}", pick(&["@", "%"]), if chance(1, 2) { n.to_string() } else { String::new() });
        }
    };
    m.globals.iter_mut().for_each(|g| g.name.iter_mut().for_each(&mut long));
    for f in &mut m.funcs {
        long(&mut f.name);
        if f.is_decl() {
            continue;
        }
        f.params.iter_mut().for_each(|p| p.0.iter_mut().for_each(&mut long));
        for b in &mut f.blocks {
            b.name.iter_mut().for_each(&mut long);
            b.params.iter_mut().for_each(|p| p.0.iter_mut().for_each(&mut long));
            b.insts.iter_mut().for_each(|i| i.name.iter_mut().for_each(&mut long));
        }
    }
}

fn bbs_of(p: &Program, fi: usize) -> Vec<BasicBlock> {
    p.func(p.func_layout()[fi]).layout().bbs().keys().copied().collect()
}

/// One edit of the program and its model.
fn edit(m: &mut Prog, p: &mut Program) {
    let defs: Vec<usize> = (0..m.funcs.len()).filter(|f| !m.funcs[*f].is_decl()).collect();
    if defs.is_empty() {
        return;
    }
    let fi = pick(&defs);
    let fun = p.func_layout()[fi];
    let bbs = bbs_of(p, fi);
    let n = m.funcs[fi].blocks.len();
    let bi = draw(n as u32) as usize;
    let mut g = Gen::free(generate::SMALL);
    match draw(5) {
        0 if n > 2 => {
            // a block moves to another place
            let from = 1 + draw(n as u32 - 1) as usize;
            let to = 1 + draw(n as u32 - 1) as usize;
            ev!("block {from} of function {fi} moves to {to}");
            let l = p.func_mut(fun).layout_mut();
            let (k, node) = l.bbs_mut().remove(&bbs[from]).unwrap();
            let mut rest = bbs.clone();
            rest.remove(from);
            let mut c = l.bbs_mut().cursor_mut(rest[to - 1]);
            if c.insert_after(k, node).is_err() {
                crate::fail!("program", "the block cannot be inserted");
            }
            let f = &mut m.funcs[fi];
            let b = f.blocks.remove(from);
            f.blocks.insert(to, b);
            let mut order: Vec<usize> = (0..n).collect();
            let x = order.remove(from);
            order.insert(to, x);
            let map: Vec<usize> = (0..n).map(|old| order.iter().position(|o| *o == old).unwrap()).collect();
            renumber(f, &map);
        }
        1 | 2 => {
            // another end for a block
            let f = &m.funcs[fi];
            let args = |g: &mut Gen, t: usize| -> Vec<Const> { f.blocks[t].params.iter().map(|q| g.init(&q.1)).collect() };
            let kind = if n == 1 || chance(1, 5) {
                Kind::Ret(if f.ret == Ty::Unit { None } else { Some(Op::Const(g.init(&f.ret.clone()))) })
            } else {
                let to = || 1 + draw(n as u32 - 1) as usize;
                let (a, b) = (to(), to());
                let ops = |v: Vec<Const>| v.into_iter().map(Op::Const).collect::<Vec<_>>();
                // branches with one target cannot pass arguments
                if chance(1, 2) || a == b && !f.blocks[a].params.is_empty() {
                    Kind::Jump(a, ops(args(&mut g, a)))
                } else {
                    if a == b {
                        probe("same_target_branch");
                    }
                    Kind::Br(Op::Const(Const::Int(g.int())), a, ops(args(&mut g, a)), b, ops(args(&mut g, b)))
                }
            };
            ev!("block {bi} of function {fi} ends with {kind:?}");
            let d = p.func_mut(fun);
            let last = *d.layout().bbs().node(&bbs[bi]).unwrap().insts().back_key().unwrap();
            let val = |d: &mut koopa::ir::FunctionData, o: &Op| -> Value {
                match o {
                    Op::Const(c) => canon::lconst(d, c),
                    _ => unreachable!(),
                }
            };
            match &kind {
                Kind::Jump(t, a) => {
                    let a = a.iter().map(|o| val(d, o)).collect();
                    d.dfg_mut().replace_value_with(last).jump_with_args(bbs[*t], a);
                }
                Kind::Br(c, t, a, e, b) => {
                    let c = val(d, c);
                    let a = a.iter().map(|o| val(d, o)).collect();
                    let b = b.iter().map(|o| val(d, o)).collect();
                    d.dfg_mut().replace_value_with(last).branch_with_args(c, bbs[*t], bbs[*e], a, b);
                }
                Kind::Ret(v) => {
                    let v = v.as_ref().map(|o| val(d, o));
                    d.dfg_mut().replace_value_with(last).ret(v);
                }
                _ => unreachable!(),
            }
            m.funcs[fi].blocks[bi].insts.last_mut().unwrap().kind = kind;
        }
        3 => {
            // another name for an instruction
            let b = &m.funcs[fi].blocks[bi];
            let named: Vec<usize> = (0..b.insts.len()).filter(|i| b.insts[*i].ty != Ty::Unit).collect();
            if named.is_empty() {
                return;
            }
            let ii = pick(&named);
            let name = [None, Some("@x"), Some("%x"), Some("%y_0"), Some("@entry")][draw(5) as usize].map(String::from);
            ev!("instruction {bi}/{ii} of function {fi} is named {name:?}");
            let d = p.func_mut(fun);
            let v = *d.layout().bbs().node(&bbs[bi]).unwrap().insts().keys().nth(ii).unwrap();
            d.dfg_mut().set_value_name(v, name.clone());
            m.funcs[fi].blocks[bi].insts[ii].name = name;
        }
        _ => {
            // a store or an unused value disappears
            let f = &m.funcs[fi];
            let uses = |t: &Op| f.blocks.iter().flat_map(|b| &b.insts).any(|i| mentions(&i.kind, t));
            let b = &f.blocks[bi];
            let free: Vec<usize> = (0..b.insts.len() - 1).filter(|i| !uses(&Op::Inst(bi, *i))).collect();
            if free.is_empty() {
                return;
            }
            let ii = pick(&free);
            ev!("instruction {bi}/{ii} of function {fi} is removed");
            let d = p.func_mut(fun);
            let v = *d.layout().bbs().node(&bbs[bi]).unwrap().insts().keys().nth(ii).unwrap();
            d.layout_mut().bb_mut(bbs[bi]).insts_mut().remove(&v).unwrap();
            d.dfg_mut().remove_value(v);
            let f = &mut m.funcs[fi];
            f.blocks[bi].insts.remove(ii);
            for o in ops_of(f) {
                if let Op::Inst(b, i) = o {
                    if *b == bi && *i > ii {
                        *i -= 1;
                    }
                }
            }
        }
    }
}
fn mentions(k: &Kind, t: &Op) -> bool {
    let mut k = k.clone();
    kind_ops(&mut k).into_iter().any(|o| o == t)
}
fn ops_of(f: &mut Func) -> Vec<&mut Op> {
    f.blocks.iter_mut().flat_map(|b| &mut b.insts).flat_map(|i| kind_ops(&mut i.kind)).collect()
}
fn renumber(f: &mut Func, map: &[usize]) {
    for o in ops_of(f) {
        if let Op::Inst(b, _) | Op::BParam(b, _) = o {
            *b = map[*b];
        }
    }
    for i in f.blocks.iter_mut().flat_map(|b| &mut b.insts) {
        match &mut i.kind {
            Kind::Br(_, a, _, b, _) => {
                *a = map[*a];
                *b = map[*b];
            }
            Kind::Jump(a, _) => *a = map[*a],
            _ => {}
        }
    }
}

/// The program without names. Blocks that no edge reaches get no arguments,
/// so only their parameters count.
fn anonymous(m: &Prog) -> Prog {
    let mut m = m.clone();
    for g in &mut m.globals {
        g.name = None;
    }
    for f in &mut m.funcs {
        f.name = "f".into();
        f.params.iter_mut().for_each(|p| p.0 = None);
        for b in &mut f.blocks {
            b.name = None;
            b.params.iter_mut().for_each(|p| p.0 = None);
            b.insts.iter_mut().for_each(|i| i.name = None);
        }
    }
    m
}

/// Named parts keep their names unless two parts would get the same one.
fn names(m: &Prog, back: &Prog, text: &str) {
    let mut global: Vec<(Option<&str>, &str)> = Vec::new();
    for (a, b) in m.globals.iter().zip(&back.globals) {
        global.push((a.name.as_deref(), b.name.as_deref().unwrap_or("")));
    }
    for (a, b) in m.funcs.iter().zip(&back.funcs) {
        global.push((Some(&a.name), &b.name));
    }
    scope('@', &global, text);
    for (a, b) in m.funcs.iter().zip(&back.funcs) {
        let mut values: Vec<(Option<&str>, &str)> = Vec::new();
        let mut blocks: Vec<(Option<&str>, &str)> = Vec::new();
        if !a.is_decl() {
            pairs(&a.params, &b.params, &mut values);
        }
        for (x, y) in a.blocks.iter().zip(&b.blocks) {
            blocks.push((x.name.as_deref(), y.name.as_deref().unwrap_or("")));
            pairs(&x.params, &y.params, &mut values);
            for (i, j) in x.insts.iter().zip(&y.insts) {
                if i.ty != Ty::Unit {
                    values.push((i.name.as_deref(), j.name.as_deref().unwrap_or("")));
                }
            }
        }
        scope('%', &values, text);
        scope('%', &blocks, text);
    }
}
fn pairs<'a>(a: &'a [Param], b: &'a [Param], out: &mut Vec<(Option<&'a str>, &'a str)>) {
    for (x, y) in a.iter().zip(b) {
        out.push((x.0.as_deref(), y.0.as_deref().unwrap_or("")));
    }
}
fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())
}
fn scope(sign: char, parts: &[(Option<&str>, &str)], text: &str) {
    let base = |n: &str| match n.strip_prefix('@') {
        Some(r) => format!("{sign}{r}"),
        None => format!("{sign}${}", &n[1..]),
    };
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    for (n, _) in parts {
        if let Some(n) = n {
            *count.entry(base(n)).or_default() += 1;
        }
    }
    for (n, got) in parts {
        let Some(n) = n else {
            // names of unnamed parts never look like given names
            check!(got.strip_prefix(sign).and_then(|r| r.strip_prefix('$')).is_some_and(digits), "name",
                "an unnamed part is called {got}\n{text}");
            continue;
        };
        if digits(&n[1..]) || n.len() > 500 {
            continue;
        }
        let b = base(n);
        let clash = count[&b] > 1 || b.rsplit_once('_').is_some_and(|(x, d)| digits(d) && count.get(x).is_some_and(|c| *c > 1));
        let ok = *got == b || clash && got.strip_prefix(b.as_str()).and_then(|r| r.strip_prefix('_')).is_some_and(digits);
        check!(ok, "name", "{n} is called {got} instead of {b}\n{text}");
    }
}
