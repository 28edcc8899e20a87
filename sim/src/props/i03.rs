use super::i01::{clear_args, kind_text, retarget, subst};
use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, sh, F};
use crate::generate::{Gen, SMALL};
use crate::model::Ty;
use crate::orch::Prop;
use crate::{canon, check, ev};
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::{BasicBlock, BinaryOp, Function, FunctionData, Program, Type, TypeKind, Value, ValueKind};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "I03",
    run,
    quick: 30000,
    thorough: 1_500_000,
    rule: "an execution counts when two different values were alike, and values were changed or an edit was rejected in between; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the client that edits and compares (including its panicking closures), hash seeds, the heap",
};

/// The answer of the reference. Allocations of one type, and parameters of
/// different blocks, may count as alike or not.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Alike {
    Yes,
    No,
    Either,
}
use Alike::*;
fn both(a: Alike, b: impl FnOnce() -> Alike) -> Alike {
    match a {
        No => No,
        Yes => b(),
        Either => if b() == No { No } else { Either },
    }
}
fn is(b: bool) -> Alike {
    if b { Yes } else { No }
}

struct View<'a>(&'a Program, &'a FunctionData);
impl View<'_> {
    fn with<R>(&self, v: Value, f: impl FnOnce(&ValueData) -> R) -> R {
        if v.is_global() { f(&self.0.borrow_value(v)) } else { f(self.1.dfg().value(v)) }
    }
    fn list(&self, l: &[Value], r: &[Value]) -> Alike {
        if l.len() != r.len() {
            return No;
        }
        l.iter().zip(r).fold(Yes, |a, (l, r)| both(a, || self.alike(*l, *r)))
    }
    fn alike(&self, l: Value, r: Value) -> Alike {
        if l == r {
            return Yes;
        }
        self.with(l, |l| self.with(r, |r| self.data(l, r)))
    }
    fn data(&self, l: &ValueData, r: &ValueData) -> Alike {
        if canon::ty_of(l.ty()) != canon::ty_of(r.ty()) {
            return No;
        }
        use ValueKind::*;
        match (l.kind(), r.kind()) {
            (Integer(l), Integer(r)) => is(l.value() == r.value()),
            (ZeroInit(_), ZeroInit(_)) | (Undef(_), Undef(_)) => Yes,
            (Aggregate(l), Aggregate(r)) => self.list(l.elems(), r.elems()),
            (FuncArgRef(l), FuncArgRef(r)) => is(l.index() == r.index()),
            (BlockArgRef(l), BlockArgRef(r)) if l.index() != r.index() => No,
            (BlockArgRef(_), BlockArgRef(_)) | (Alloc(_), Alloc(_)) => Either,
            (GlobalAlloc(l), GlobalAlloc(r)) => both(Either, || self.alike(l.init(), r.init())),
            (Load(l), Load(r)) => self.alike(l.src(), r.src()),
            (Store(l), Store(r)) => both(self.alike(l.value(), r.value()), || self.alike(l.dest(), r.dest())),
            (GetPtr(l), GetPtr(r)) => both(self.alike(l.src(), r.src()), || self.alike(l.index(), r.index())),
            (GetElemPtr(l), GetElemPtr(r)) => both(self.alike(l.src(), r.src()), || self.alike(l.index(), r.index())),
            (Binary(l), Binary(r)) => both(is(l.op() == r.op()), || both(self.alike(l.lhs(), r.lhs()), || self.alike(l.rhs(), r.rhs()))),
            (Branch(l), Branch(r)) => both(is(l.true_bb() == r.true_bb() && l.false_bb() == r.false_bb()), || {
                both(self.alike(l.cond(), r.cond()), || {
                    both(self.list(l.true_args(), r.true_args()), || self.list(l.false_args(), r.false_args()))
                })
            }),
            (Jump(l), Jump(r)) => both(is(l.target() == r.target()), || self.list(l.args(), r.args())),
            (Call(l), Call(r)) => both(is(l.callee() == r.callee()), || self.list(l.args(), r.args())),
            (Return(l), Return(r)) => match (l.value(), r.value()) {
                (Some(l), Some(r)) => self.alike(l, r),
                (None, None) => Yes,
                _ => No,
            },
            _ => No,
        }
    }
    /// How many values a comparison can visit, up to a limit.
    fn cost(&self, v: Value, n: &mut u32) -> bool {
        *n += 1;
        *n < 600 && self.with(v, |d| canon::operands(d.kind())).into_iter().all(|o| self.cost(o, n))
    }
    fn reaches(&self, from: Value, to: Value, seen: &mut HashSet<Value>) -> bool {
        from == to || seen.insert(from) && self.with(from, |d| canon::operands(d.kind())).into_iter().any(|o| self.reaches(o, to, seen))
    }
}
fn locals(d: &FunctionData) -> Vec<Value> {
    let mut v: Vec<Value> = d.dfg().values().keys().copied().collect();
    v.sort_by_cached_key(|v| format!("{v:?}"));
    v
}
fn one<T: Copy>(v: &[T]) -> Option<T> {
    if v.is_empty() { None } else { Some(v[draw(v.len() as u32) as usize]) }
}

#[derive(Default)]
struct Seen {
    /// different values that are alike were compared
    alike: bool,
    edited: bool,
}
fn compare(p: &Program, f: Function, a: Value, b: Value, what: &str, seen: &mut Seen) {
    let view = View(p, p.func(f));
    let d = p.func(f).dfg();
    if ![a, b].iter().all(|v| view.cost(*v, &mut 0)) {
        probe("oracle_skipped");
        return;
    }
    let want = view.alike(a, b);
    let got = d.value_eq(a, b);
    let text = |v: Value| view.with(v, |d| format!("{} of type {}", kind_text(d.kind()), d.ty()));
    check!(want == Either || got == (want == Yes), "value-eq", "{what}: value_eq is {got} for {a:?} ({}) and {b:?} ({})", text(a), text(b));
    check!(d.value_eq(b, a) == got, "symmetry", "{what}: value_eq({a:?}, {b:?}) is {got}, but not the other way round");
    if chance(1, 3) {
        let x = view.with(a, |x| x.clone());
        let y = view.with(b, |x| x.clone());
        check!(d.data_eq(&x, &y) == got, "data-eq", "{what}: value_eq is {got} for {a:?} ({}) and {b:?} ({}), data_eq is not", text(a), text(b));
    }
    if want == Yes && a != b {
        seen.alike = true;
        probe("alike_values");
    }
}

/// Changes something about a value that is in no loop of operands.
fn tweak(k: &mut ValueKind, act: u32, from: Option<Value>, to: Option<Value>, bb: Option<BasicBlock>, callee: Option<Function>) {
    match act {
        0..=2 => if let (Some(a), Some(b)) = (from, to) { subst(k, a, b) },
        3 => if let Some(b) = bb { retarget(k, b) },
        4 => clear_args(k),
        5 => if let Some(to) = to {
            match k {
                ValueKind::Call(x) => x.args_mut().push(to),
                ValueKind::Jump(x) => x.args_mut().push(to),
                ValueKind::Branch(x) => if chance(1, 2) { x.true_args_mut().push(to) } else { x.false_args_mut().push(to) },
                ValueKind::Return(x) => *x.value_mut() = Some(to),
                ValueKind::Aggregate(x) => x.elems_mut().push(to),
                _ => {}
            }
        },
        6 => match k {
            ValueKind::Binary(b) => *b.op_mut() = canon::OPS[draw(17) as usize],
            ValueKind::Call(c) => if let Some(f) = callee { *c.callee_mut() = f },
            ValueKind::Branch(x) => {
                let t = std::mem::take(x.true_args_mut());
                let f = std::mem::replace(x.false_args_mut(), t);
                *x.true_args_mut() = f;
            }
            _ => {}
        },
        // other order
        _ => match k {
            ValueKind::Binary(b) => {
                let l = b.lhs();
                *b.lhs_mut() = b.rhs();
                *b.rhs_mut() = l;
            }
            ValueKind::Call(x) => x.args_mut().reverse(),
            ValueKind::Jump(x) => x.args_mut().reverse(),
            ValueKind::Aggregate(x) => x.elems_mut().reverse(),
            ValueKind::Branch(x) => {
                let t = x.true_bb();
                *x.true_bb_mut() = x.false_bb();
                *x.false_bb_mut() = t;
            }
            _ => {}
        },
    }
}

/// Known types and what they should be.
struct Types(Vec<(Ty, Type)>);
impl Types {
    fn some(&self) -> (Ty, Type) {
        // new ones are used more often
        let n = self.0.len() as u32;
        let i = draw(n).max(if chance(1, 2) { draw(n) } else { 0 });
        self.0[i as usize].clone()
    }
    fn more(&mut self) {
        let (m, t) = self.some();
        let new = match draw(10) {
            9 => {
                // a tall one
                let (mut m, mut t) = (m, t);
                for _ in 0..if chance(1, 4) { range(2, 60) } else { 2 } {
                    let n = pick(&[1usize, 1, 2, 3]);
                    (m, t) = match draw(5) {
                        0 => (m.ptr(), Type::get_pointer(t)),
                        1 => (Ty::Func(vec![], m.into()), Type::get_function(vec![], t)),
                        _ => (m.arr(n), Type::get_array(t, n)),
                    };
                }
                (m, t)
            }
            3 if chance(1, 8) => {
                // a wide one
                let l: Vec<_> = (0..draw(60)).map(|_| self.some()).collect();
                let (a, b): (Vec<_>, Vec<_>) = l.into_iter().unzip();
                (Ty::Func(a, m.into()), Type::get_function(b, t))
            }
            0 => (m.ptr(), Type::get_pointer(t)),
            1 => {
                let n = pick(&[1usize, 2, 3, 4, 10, 1 << 16, 1 << 32, (1 << 32) + 1, (1 << 32) + 3, usize::MAX >> 8]);
                (m.arr(n), Type::get_array(t, n))
            }
            2 | 3 => {
                let l: Vec<_> = (0..draw(4)).map(|_| self.some()).collect();
                let (a, b): (Vec<_>, Vec<_>) = l.into_iter().unzip();
                (Ty::Func(a, m.into()), Type::get_function(b, t))
            }
            4 => {
                let k = match &m {
                    Ty::I32 => TypeKind::Int32,
                    Ty::Unit => TypeKind::Unit,
                    Ty::Ptr(b) => TypeKind::Pointer(canon::to_type(b)),
                    Ty::Arr(b, n) => TypeKind::Array(canon::to_type(b), *n),
                    Ty::Func(a, r) => TypeKind::Function(a.iter().map(canon::to_type).collect(), canon::to_type(r)),
                };
                check!(k == *t.kind(), "kind", "the kind of {t} is not its kind");
                (m, Type::get(k))
            }
            5 => (m, Type::get(t.kind().clone())),
            6 => (m.clone(), canon::to_type(&m)),
            7 => {
                let m = Gen::free(SMALL).ty(3);
                let t = canon::to_type(&m);
                (m, t)
            }
            _ => {
                // as a parser makes it
                let m = Gen::free(SMALL).ty(3);
                let (_, p) = parse_buf(format!("decl @f({})\n", m.to_text()).as_bytes());
                let Some(p) = p else { crate::fail!("parse", "a declaration with the type {} is rejected", m.to_text()) };
                let t = p.func(p.func_layout()[0]).ty().clone();
                (Ty::Func(vec![m], Ty::Unit.into()), t)
            }
        };
        self.0.push(new);
        if self.0.len() > 40 {
            // types that nobody holds may come back later
            let i = 2 + draw(38) as usize;
            self.0.swap_remove(i);
        }
    }
    fn check(&self, ptr: usize) {
        let h = |t: &Type| {
            let mut h = DefaultHasher::new();
            t.hash(&mut h);
            h.finish()
        };
        for (i, (m, t)) in self.0.iter().enumerate() {
            check!(format!("{t}") == m.to_text() && format!("{t:?}") == m.to_text(), "type-text", "the type {} is printed as {t}", m.to_text());
            check!(t.is_i32() == (*m == Ty::I32) && t.is_unit() == (*m == Ty::Unit), "type-kind", "wrong answer about the kind of {t}");
            if size_fits(m, ptr) {
                check!(t.size() == m.size(ptr), "type-size", "the size of {t} is {}, not {}", t.size(), m.size(ptr));
            }
            for (n, u) in &self.0[..i] {
                check!((t == u) == (m == n), "type-eq", "{t} == {u} is {}", t == u);
                check!((t.kind() == u.kind()) == (m == n), "kind-eq", "the kinds of {t} and {u} compare {}", t.kind() == u.kind());
                check!(m != n || h(t) == h(u), "type-hash", "{t} has two hash values");
            }
        }
    }
}
fn size_fits(m: &Ty, p: usize) -> bool {
    fn f(m: &Ty, p: usize) -> Option<usize> {
        match m {
            Ty::Arr(b, n) => f(b, p)?.checked_mul(*n),
            _ => Some(m.size(p)),
        }
    }
    f(m, p).is_some()
}

/// What the harness did on purpose may panic, and leaves no trace.
fn rejected(f: impl FnOnce()) {
    let r = catch_unwind(AssertUnwindSafe(f));
    check!(r.is_err(), "accepted", "an impossible type or value is accepted");
    sh().panic.len = 0;
    fault(F::RejectedEdit);
    probe("rejected_edit");
}

fn run() {
    any_heap();
    let (_, mut p) = any_program_free(Form::Koopa, true);
    let defs: Vec<Function> = p.func_layout().iter().copied().filter(|f| p.func(*f).layout().entry_bb().is_some()).collect();
    let callees: Vec<Function> = p.func_layout().to_vec();
    let mut types = Types(vec![(Ty::I32, Type::get_i32()), (Ty::Unit, Type::get_unit())]);
    let mut seen = Seen::default();
    let mut ptr = std::mem::size_of::<usize>();
    let mut cur = one(&defs);
    for _ in 0..range(4, 60) {
        if chance(1, 10) {
            cur = one(&defs);
        }
        let Some(f) = cur else {
            types.more();
            continue;
        };
        let all = locals(p.func(f));
        let Some(v) = one(&all) else {
            types.more();
            cur = one(&defs);
            continue;
        };
        let ty = p.func(f).dfg().value(v).ty().clone();
        let like: Vec<Value> = all.iter().copied().filter(|x| *p.func(f).dfg().value(*x).ty() == ty).collect();
        let what;
        let mut made = v;
        match draw(14) {
            0..=2 => {
                what = "a new type";
                types.more();
                types.0.push((canon::ty_of(&ty), ty));
            }
            3..=5 => {
                what = "a copy";
                let data = p.func(f).dfg().value(v).clone();
                if matches!(data.kind(), ValueKind::FuncArgRef(_) | ValueKind::BlockArgRef(_)) {
                    continue;
                }
                made = p.func_mut(f).dfg_mut().new_value().raw(data);
                ev!("{made:?} is a copy of {v:?}");
            }
            6..=9 => {
                what = "an update";
                let (act, boom) = (draw(8), chance(1, 5));
                let view = View(&p, p.func(f));
                let ops = view.with(v, |d| canon::operands(d.kind()));
                let from = one(&ops);
                let to_ty = from.map(|x| view.with(x, |d| d.ty().clone()));
                let mut free: Vec<Value> = all.iter().copied().filter(|x| act == 5 || to_ty.as_ref().is_none_or(|t| view.with(*x, |d| d.ty() == t))).collect();
                free.retain(|x| !view.reaches(*x, v, &mut HashSet::new()) && view.cost(*x, &mut 0));
                let to = one(&free);
                let mut bbs: Vec<BasicBlock> = p.func(f).layout().bbs().keys().copied().collect();
                bbs.sort_by_cached_key(|b| format!("{b:?}"));
                let (bb, callee) = (one(&bbs), one(&callees));
                ev!("update {v:?} act {act} {from:?} {to:?} panic {boom}");
                let r = catch_unwind(AssertUnwindSafe(|| p.func_mut(f).dfg_mut().update_value(v, |x| {
                    tweak(x.kind_mut(), act, from, to, bb, callee);
                    if boom {
                        std::panic::panic_any("the closure gives up".to_string());
                    }
                })));
                check!(r.is_err() == boom, "update", "an update panicked: {}", sh().panic.get());
                if boom {
                    sh().panic.len = 0;
                    fault(F::PanicEdit);
                    probe("panicked_edit");
                }
                seen.edited = true;
            }
            10 => {
                what = "a replacement";
                let users = !p.func(f).dfg().value(v).kind().is_const();
                if users && chance(1, 2) || matches!(p.func(f).dfg().value(v).kind(), ValueKind::BlockArgRef(_) | ValueKind::FuncArgRef(_)) {
                    continue;
                }
                let b = p.func_mut(f).dfg_mut().replace_value_with(v);
                match draw(3) {
                    _ if ty.is_unit() => drop(b.ret(None)),
                    0 if ty.is_i32() => drop(b.integer(pick(&[0, 1, -1, 7]))),
                    1 => drop(b.undef(ty)),
                    _ => drop(b.zero_init(ty)),
                }
                ev!("{v:?} is a constant now");
                seen.edited = true;
            }
            11 => {
                what = "a rejected edit";
                seen.edited = true;
                let t = types.some().1;
                match draw(4) {
                    0 => rejected(|| drop(Type::get_array(t, 0))),
                    1 => rejected(|| drop(p.func_mut(f).dfg_mut().new_value().zero_init(Type::get_unit()))),
                    2 => rejected(|| drop(p.func_mut(f).dfg_mut().new_value().aggregate(vec![]))),
                    _ => {
                        if p.func(f).dfg().value(v).used_by().is_empty() {
                            continue;
                        }
                        rejected(|| drop(p.func_mut(f).dfg_mut().remove_value(v)))
                    }
                }
            }
            12 => {
                what = "data outside the program";
                let view = View(&p, p.func(f));
                if !view.cost(v, &mut 0) {
                    continue;
                }
                let w = one(&like).unwrap();
                let mut data = view.with(w, |d| d.clone());
                let to = one(&all).filter(|x| view.cost(*x, &mut 0) && !view.reaches(*x, w, &mut HashSet::new()));
                let from = one(&canon::operands(data.kind()));
                tweak(data.kind_mut(), draw(8), from, to, None, one(&callees));
                if canon::operands(data.kind()).iter().all(|o| view.cost(*o, &mut 0)) {
                    let d = p.func(f).dfg();
                    let want = view.data(&data, d.value(v));
                    let (a, b) = (d.data_eq(&data, d.value(v)), d.data_eq(d.value(v), &data));
                    ev!("data like {w:?} against {v:?}: {want:?}");
                    check!(a == b && (want == Either || a == (want == Yes)), "data-eq", "data_eq is {a} and {b} for `{}` and {v:?} (`{}`)", kind_text(data.kind()), kind_text(d.value(v).kind()));
                }
            }
            13 if chance(1, 4) => {
                what = "long chains of operands";
                let d = p.func_mut(f).dfg_mut();
                let n = range(1, if chance(1, 6) { 100 } else { 20 });
                let way = draw(3);
                let mut tops = vec![];
                let (mut at, mut leaf) = (n, 5);
                for k in 0..3 {
                    let mut v = d.new_value().integer(leaf);
                    for i in 0..n {
                        let c = d.new_value().integer(if i == at { 9 } else { 1 });
                        v = match way {
                            0 => d.new_value().binary(BinaryOp::Add, v, c),
                            1 => d.new_value().binary(BinaryOp::Add, c, v),
                            _ => d.new_value().aggregate(vec![v]),
                        };
                    }
                    tops.push(v);
                    if k == 1 {
                        // the third differs somewhere
                        if chance(1, 2) { at = draw(n) } else { leaf = 6 }
                    }
                }
                ev!("chains of {n}, way {way}, {at} {leaf}");
                probe("long_operands");
                compare(&p, f, tops[0], tops[1], what, &mut seen);
                compare(&p, f, tops[1], tops[2], what, &mut seen);
                made = tops[2];
            }
            _ => {
                what = "a constant";
                let i = if chance(1, 2) { pick(&[0, 1, -1, 7, i32::MIN]) } else { draw(20) as i32 };
                let d = p.func_mut(f).dfg_mut();
                made = match draw(4) {
                    0 => d.new_value().integer(i),
                    1 => {
                        let e = (0..range(1, 3)).map(|_| d.new_value().integer(draw(2) as i32)).collect();
                        d.new_value().aggregate(e)
                    }
                    2 if !ty.is_unit() => d.new_value().zero_init(ty),
                    _ if !ty.is_unit() => d.new_value().undef(ty),
                    _ => d.new_value().integer(i),
                };
                ev!("{made:?} is {}", kind_text(d.value(made).kind()));
            }
        }
        if chance(1, 12) {
            ptr = pick(&[4, 8, 16]);
            Type::set_ptr_size(ptr);
        }
        // compare: what changed with others, and any two
        compare(&p, f, made, v, what, &mut seen);
        for w in like {
            if chance(1, 3) && p.func(f).dfg().values().contains_key(&made) {
                compare(&p, f, made, w, what, &mut seen);
            }
        }
        for _ in 0..3 {
            let mut pool = all.clone();
            if chance(1, 4) {
                // global variables and the constants they start with
                let mut g: Vec<Value> = p.borrow_values().keys().copied().collect();
                g.sort_by_cached_key(|v| format!("{v:?}"));
                pool.extend(g);
            }
            let (mut a, b) = (one(&pool).unwrap(), one(&pool).unwrap());
            if b.is_global() {
                let t = p.borrow_value(b).ty().clone();
                let like: Vec<Value> = all.iter().copied().filter(|x| *p.func(f).dfg().value(*x).ty() == t).collect();
                a = one(&like).unwrap_or(a);
            }
            compare(&p, f, a, b, what, &mut seen);
        }
    }
    types.check(ptr);
    ev!("{} types, {}", types.0.len(), types.0.last().unwrap().1);
    if seen.alike && seen.edited {
        nontrivial();
    }
}
