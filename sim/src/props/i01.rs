use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, sh, F};
use crate::generate::{Gen, SMALL};
use crate::orch::Prop;
use crate::{canon, check, ev};
use koopa::ir::builder_traits::*;
use koopa::ir::entities::ValueData;
use koopa::ir::{BasicBlock, BinaryOp, Function, FunctionData, Program, Type, TypeKind, Value, ValueKind};
use koopa::opt::{FunctionPass, Pass, PassManager};
use std::collections::BTreeMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "I01",
    run,
    quick: 22000,
    thorough: 600_000,
    rule: "an execution counts when at least one edit was rejected, unwound, or removed something; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the client that edits (including its panicking closures and passes), hash seeds, the heap",
};

type Snap = BTreeMap<String, String>;

fn vs(s: &mut String, v: &[Value]) {
    for x in v {
        let _ = write!(s, " {x:?}");
    }
}
pub fn kind_text(k: &ValueKind) -> String {
    let mut s = String::new();
    let _ = match k {
        ValueKind::Integer(x) => write!(s, "int {}", x.value()),
        ValueKind::ZeroInit(_) => write!(s, "zero"),
        ValueKind::Undef(_) => write!(s, "undef"),
        ValueKind::Aggregate(x) => { vs(&mut s, x.elems()); write!(s, " agg") }
        ValueKind::FuncArgRef(x) => write!(s, "arg {}", x.index()),
        ValueKind::BlockArgRef(x) => write!(s, "barg {}", x.index()),
        ValueKind::Alloc(_) => write!(s, "alloc"),
        ValueKind::GlobalAlloc(x) => write!(s, "galloc {:?}", x.init()),
        ValueKind::Load(x) => write!(s, "load {:?}", x.src()),
        ValueKind::Store(x) => write!(s, "store {:?} {:?}", x.value(), x.dest()),
        ValueKind::GetPtr(x) => write!(s, "getptr {:?} {:?}", x.src(), x.index()),
        ValueKind::GetElemPtr(x) => write!(s, "getelemptr {:?} {:?}", x.src(), x.index()),
        ValueKind::Binary(x) => write!(s, "{} {:?} {:?}", x.op(), x.lhs(), x.rhs()),
        ValueKind::Branch(x) => {
            let _ = write!(s, "br {:?} {:?} {:?} (", x.cond(), x.true_bb(), x.false_bb());
            vs(&mut s, x.true_args());
            s += ") (";
            vs(&mut s, x.false_args());
            write!(s, ")")
        }
        ValueKind::Jump(x) => { let _ = write!(s, "jump {:?}", x.target()); vs(&mut s, x.args()); Ok(()) }
        ValueKind::Call(x) => { let _ = write!(s, "call {:?}", x.callee()); vs(&mut s, x.args()); Ok(()) }
        ValueKind::Return(x) => write!(s, "ret {:?}", x.value()),
    };
    s
}
fn data_text(d: &ValueData) -> String {
    format!("{:?} {} {}", d.name(), d.ty(), kind_text(d.kind()))
}
/// Every part of the program, users excepted, by handle.
fn snap(p: &Program) -> Snap {
    let mut m = Snap::new();
    m.insert("layout".into(), format!("{:?} {:?}", p.inst_layout(), p.func_layout()));
    for (v, d) in p.borrow_values().iter() {
        m.insert(format!("{v:?}"), data_text(d));
    }
    for (f, d) in p.funcs() {
        let mut s = format!("{} {} {:?}", d.name(), d.ty(), d.params());
        for (b, n) in d.layout().bbs() {
            let _ = write!(s, " {b:?}:");
            for v in n.insts().keys() {
                let _ = write!(s, "{v:?} ");
            }
        }
        m.insert(format!("{f:?}"), s);
        for (v, x) in d.dfg().values() {
            m.insert(format!("{f:?}.{v:?}"), data_text(x));
        }
        for (b, x) in d.dfg().bbs() {
            m.insert(format!("{f:?}.{b:?}"), format!("{:?} {:?}", x.name(), x.params()));
        }
    }
    m
}
/// Everything but the named parts is as before.
fn unchanged(a: &Snap, b: &Snap, allowed: &[String], what: &str) {
    for (k, v) in a {
        if !allowed.contains(k) {
            match b.get(k) {
                Some(w) if w == v => {}
                Some(w) => crate::fail!("frame", "{what} changed {k} from `{v}` to `{w}`"),
                None => crate::fail!("frame", "{what} removed {k} (`{v}`)"),
            }
        }
    }
    for k in b.keys() {
        check!(allowed.contains(k) || a.contains_key(k), "frame", "{what} added {k}");
    }
}

/// What can be an operand.
pub struct Pool {
    pub vals: Vec<(Value, Type, bool)>,
    pub bbs: Vec<(BasicBlock, Vec<Type>)>,
    pub funcs: Vec<(Function, Type)>,
    /// handles that do not belong here
    pub alien: Vec<Value>,
    pub alien_bbs: Vec<BasicBlock>,
    pub alien_funcs: Vec<Function>,
}
pub fn is_const(k: &ValueKind) -> bool {
    matches!(k, ValueKind::Integer(_) | ValueKind::ZeroInit(_) | ValueKind::Undef(_) | ValueKind::Aggregate(_))
}
pub fn sorted<T: std::fmt::Debug>(mut v: Vec<T>, key: impl Fn(&T) -> String) -> Vec<T> {
    v.sort_by_cached_key(|x| key(x));
    v
}
pub fn locals(d: &FunctionData) -> Vec<Value> {
    sorted(d.dfg().values().keys().copied().collect(), |v| format!("{v:?}"))
}
pub fn blocks(d: &FunctionData) -> Vec<BasicBlock> {
    sorted(d.dfg().bbs().keys().copied().collect(), |v| format!("{v:?}"))
}
pub fn globals(p: &Program) -> Vec<Value> {
    sorted(p.borrow_values().keys().copied().collect(), |v| format!("{v:?}"))
}
impl Pool {
    fn val(&self, ok: impl Fn(&Type) -> bool, wild: bool, not: Option<Value>) -> Option<Value> {
        if wild {
            if chance(1, 2) && !self.alien.is_empty() {
                return Some(self.alien[draw(self.alien.len() as u32) as usize]);
            }
            let l: Vec<Value> = self.vals.iter().map(|v| v.0).filter(|v| Some(*v) != not).collect();
            return if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) };
        }
        let l: Vec<Value> = self.vals.iter().filter(|v| ok(&v.1) && Some(v.0) != not).map(|v| v.0).collect();
        if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) }
    }
    fn bb(&self, wild: bool) -> Option<(BasicBlock, Vec<Type>)> {
        if wild && chance(1, 3) && !self.alien_bbs.is_empty() {
            return Some((self.alien_bbs[draw(self.alien_bbs.len() as u32) as usize], vec![]));
        }
        if self.bbs.is_empty() { None } else { Some(self.bbs[draw(self.bbs.len() as u32) as usize].clone()) }
    }
    pub fn args(&self, tys: &[Type], wild: bool, not: Option<Value>) -> Option<Vec<Value>> {
        let mut v = Vec::new();
        for t in tys {
            v.push(self.val(|x| x == t, wild && chance(1, 2), not)?);
        }
        if wild && chance(1, 3) {
            if chance(1, 2) { v.pop(); } else { v.push(self.val(|_| true, true, not)?); }
        }
        Some(v)
    }
}

/// A value to be built: kind and operands.
#[derive(Clone)]
pub enum Plan {
    Int(i32), Zero(Type), Undef(Type), Agg(Vec<Value>), Alloc(Type), Load(Value), Store(Value, Value), GetPtr(Value, Value),
    GetElem(Value, Value), Bin(usize, Value, Value), Br(Value, BasicBlock, BasicBlock), BrArgs(Value, BasicBlock, BasicBlock, Vec<Value>, Vec<Value>),
    Jump(BasicBlock), JumpArgs(BasicBlock, Vec<Value>), Call(Function, Vec<Value>), Ret(Option<Value>), Raw(ValueData),
}
fn is_ptr(t: &Type) -> bool {
    matches!(t.kind(), TypeKind::Pointer(_))
}
fn is_arr_ptr(t: &Type) -> bool {
    matches!(t.kind(), TypeKind::Pointer(b) if matches!(b.kind(), TypeKind::Array(..)))
}
fn some_type() -> Type {
    match draw(5) {
        0 => Type::get_array(Type::get_i32(), 1 + draw(4) as usize),
        1 => Type::get_pointer(Type::get_i32()),
        2 => Type::get_pointer(Type::get_array(Type::get_i32(), 2)),
        _ => Type::get_i32(),
    }
}
fn any_type(wild: bool) -> Type {
    if wild && chance(1, 2) { Type::get_unit() } else { some_type() }
}
pub fn plan(q: &Pool, wild: bool, not: Option<Value>) -> Option<Plan> {
    let w = || wild && chance(1, 2);
    Some(match draw(18) {
        0 => Plan::Int(draw(100) as i32 - 50),
        1 => if chance(1, 2) { Plan::Zero(any_type(wild)) } else { Plan::Undef(any_type(wild)) },
        2 => {
            let c: Vec<_> = q.vals.iter().filter(|v| v.2 && !v.0.is_global() && Some(v.0) != not).collect();
            if c.is_empty() {
                return None;
            }
            let t = c[draw(c.len() as u32) as usize].1.clone();
            let same: Vec<Value> = c.iter().filter(|v| v.1 == t).map(|v| v.0).collect();
            let mut e: Vec<Value> = (0..if chance(1, 40) { range(10, 300) } else if chance(1, 3) { range(5, 9) } else { range(1, 4) }).map(|_| same[draw(same.len() as u32) as usize]).collect();
            if w() {
                e.push(q.val(|_| true, true, not)?);
            }
            if w() && chance(1, 3) {
                e.clear();
            }
            Plan::Agg(e)
        }
        3 => Plan::Alloc(any_type(wild)),
        4 => Plan::Load(q.val(is_ptr, w(), not)?),
        5 | 6 => {
            let d = q.val(is_ptr, w(), not)?;
            let t = q.vals.iter().find(|v| v.0 == d).map(|v| v.1.clone());
            let v = q.val(|x| t.as_ref().is_some_and(|t| matches!(t.kind(), TypeKind::Pointer(b) if b == x)), w(), not)?;
            Plan::Store(v, d)
        }
        7 => Plan::GetPtr(q.val(is_ptr, w(), not)?, q.val(|t| t.is_i32(), w(), not)?),
        8 => Plan::GetElem(q.val(is_arr_ptr, w(), not)?, q.val(|t| t.is_i32(), w(), not)?),
        9 | 10 => {
            let a = q.val(|t| t.is_i32(), w(), not)?;
            let b = if chance(1, 4) { a } else { q.val(|t| t.is_i32(), w(), not)? };
            Plan::Bin(draw(17) as usize, a, b)
        }
        11 | 12 => {
            let c = q.val(|t| t.is_i32(), w(), not)?;
            let (t, tt) = q.bb(wild)?;
            let (f, ft) = if chance(1, 4) { (t, tt.clone()) } else { q.bb(wild)? };
            if t == f && !tt.is_empty() && !wild {
                return None;
            }
            if tt.is_empty() && ft.is_empty() && chance(1, 2) {
                Plan::Br(c, t, f)
            } else {
                Plan::BrArgs(c, t, f, q.args(&tt, wild, not)?, q.args(&ft, wild, not)?)
            }
        }
        13 | 14 => {
            let (t, tt) = q.bb(wild)?;
            if tt.is_empty() && chance(1, 2) { Plan::Jump(t) } else { Plan::JumpArgs(t, q.args(&tt, wild, not)?) }
        }
        15 => {
            if w() && !q.alien_funcs.is_empty() {
                return Some(Plan::Call(q.alien_funcs[draw(q.alien_funcs.len() as u32) as usize], vec![]));
            }
            if q.funcs.is_empty() {
                return None;
            }
            let (f, t) = &q.funcs[draw(q.funcs.len() as u32) as usize];
            let TypeKind::Function(ps, _) = t.kind() else { return None };
            Plan::Call(*f, q.args(ps, wild, not)?)
        }
        16 => Plan::Ret(if chance(1, 2) { None } else { Some(q.val(|t| !t.is_unit(), w(), not)?) }),
        // data of another value of this function, which is valid here
        _ => return None,
    })
}
pub fn place(b: impl LocalInstBuilder, x: Plan) -> Value {
    match x {
        Plan::Int(i) => b.integer(i),
        Plan::Zero(t) => b.zero_init(t),
        Plan::Undef(t) => b.undef(t),
        Plan::Agg(e) => b.aggregate(e),
        Plan::Alloc(t) => b.alloc(t),
        Plan::Load(a) => b.load(a),
        Plan::Store(a, d) => b.store(a, d),
        Plan::GetPtr(a, i) => b.get_ptr(a, i),
        Plan::GetElem(a, i) => b.get_elem_ptr(a, i),
        Plan::Bin(o, l, r) => b.binary(canon::OPS[o], l, r),
        Plan::Br(c, t, f) => b.branch(c, t, f),
        Plan::BrArgs(c, t, f, x, y) => b.branch_with_args(c, t, f, x, y),
        Plan::Jump(t) => b.jump(t),
        Plan::JumpArgs(t, a) => b.jump_with_args(t, a),
        Plan::Call(f, a) => b.call(f, a),
        Plan::Ret(v) => b.ret(v),
        Plan::Raw(d) => b.raw(d),
    }
}
/// How the built value has to look.
pub fn plan_text(x: &Plan) -> String {
    let mut s = String::new();
    let _ = match x {
        Plan::Int(i) => write!(s, "int {i}"),
        Plan::Zero(_) => write!(s, "zero"),
        Plan::Undef(_) => write!(s, "undef"),
        Plan::Agg(e) => { vs(&mut s, e); write!(s, " agg") }
        Plan::Alloc(_) => write!(s, "alloc"),
        Plan::Load(a) => write!(s, "load {a:?}"),
        Plan::Store(a, d) => write!(s, "store {a:?} {d:?}"),
        Plan::GetPtr(a, i) => write!(s, "getptr {a:?} {i:?}"),
        Plan::GetElem(a, i) => write!(s, "getelemptr {a:?} {i:?}"),
        Plan::Bin(o, l, r) => write!(s, "{} {l:?} {r:?}", canon::OPS[*o]),
        Plan::Br(c, t, f) => write!(s, "br {c:?} {t:?} {f:?} () ()"),
        Plan::BrArgs(c, t, f, x, y) => {
            let _ = write!(s, "br {c:?} {t:?} {f:?} (");
            vs(&mut s, x);
            s += ") (";
            vs(&mut s, y);
            write!(s, ")")
        }
        Plan::Jump(t) => write!(s, "jump {t:?}"),
        Plan::JumpArgs(t, a) => { let _ = write!(s, "jump {t:?}"); vs(&mut s, a); Ok(()) }
        Plan::Call(f, a) => { let _ = write!(s, "call {f:?}"); vs(&mut s, a); Ok(()) }
        Plan::Ret(v) => write!(s, "ret {v:?}"),
        Plan::Raw(d) => { s += &kind_text(d.kind()); Ok(()) }
    };
    s
}

/// Replaces operands of a value: every `from` becomes `to`.
pub fn subst(k: &mut ValueKind, from: Value, to: Value) {
    let f = |v: &mut Value| if *v == from { *v = to };
    match k {
        ValueKind::Aggregate(x) => x.elems_mut().iter_mut().for_each(f),
        ValueKind::GlobalAlloc(x) => f(x.init_mut()),
        ValueKind::Load(x) => f(x.src_mut()),
        ValueKind::Store(x) => { f(x.value_mut()); f(x.dest_mut()) }
        ValueKind::GetPtr(x) => { f(x.src_mut()); f(x.index_mut()) }
        ValueKind::GetElemPtr(x) => { f(x.src_mut()); f(x.index_mut()) }
        ValueKind::Binary(x) => { f(x.lhs_mut()); f(x.rhs_mut()) }
        ValueKind::Branch(x) => { f(x.cond_mut()); x.true_args_mut().iter_mut().for_each(f); x.false_args_mut().iter_mut().for_each(f) }
        ValueKind::Jump(x) => x.args_mut().iter_mut().for_each(f),
        ValueKind::Call(x) => x.args_mut().iter_mut().for_each(f),
        ValueKind::Return(x) => if let Some(v) = x.value_mut() { f(v) },
        _ => {}
    }
}
pub fn retarget(k: &mut ValueKind, to: BasicBlock) {
    match k {
        ValueKind::Branch(x) => match draw(3) { 0 => *x.true_bb_mut() = to, 1 => *x.false_bb_mut() = to, _ => { *x.true_bb_mut() = to; *x.false_bb_mut() = to } },
        ValueKind::Jump(x) => *x.target_mut() = to,
        _ => {}
    }
}
pub fn clear_args(k: &mut ValueKind) {
    match k {
        ValueKind::Branch(x) => { if chance(1, 2) { x.true_args_mut().clear() } else { x.false_args_mut().clear() } }
        ValueKind::Jump(x) => x.args_mut().clear(),
        ValueKind::Call(x) => x.args_mut().clear(),
        ValueKind::Aggregate(x) => { x.elems_mut().pop(); }
        ValueKind::Return(x) => *x.value_mut() = None,
        _ => {}
    }
}
fn unlink(d: &mut FunctionData, v: Value) {
    if let Some(b) = d.layout().parent_bb(v) {
        d.layout_mut().bb_mut(b).insts_mut().remove(&v);
        probe("moved_inst");
    }
}
pub fn linked(d: &FunctionData) -> Vec<BasicBlock> {
    d.layout().bbs().keys().copied().collect()
}

/// What an edit did.
enum Done {
    /// Nothing could be done.
    Nothing,
    /// These parts may differ; the edit had to be accepted.
    Made(Vec<String>, String),
    /// These parts may differ, if it was accepted.
    Maybe(Vec<String>, String),
}

pub struct One<'a> {
    pub f: Function,
    pub op: &'a mut dyn FnMut(&mut FunctionData),
}
pub struct InPass(pub *mut One<'static>);
impl FunctionPass for InPass {
    fn run_on(&mut self, f: Function, d: &mut FunctionData) {
        let o = unsafe { &mut *self.0 };
        if f == o.f {
            (o.op)(d);
        }
    }
}

#[derive(Default)]
pub struct World {
    pub progs: Vec<Program>,
    pub dead: Vec<Value>,
    pub dead_bbs: Vec<BasicBlock>,
    pub dead_funcs: Vec<Function>,
    /// the edit under way has to be accepted
    strict: bool,
}
impl World {
    pub fn pool(&self, pi: usize, f: Function) -> Pool {
        let p = &self.progs[pi];
        let d = p.func(f);
        let mut q = Pool { vals: vec![], bbs: vec![], funcs: vec![], alien: self.dead.clone(), alien_bbs: self.dead_bbs.clone(), alien_funcs: self.dead_funcs.clone() };
        for v in locals(d) {
            let x = d.dfg().value(v);
            q.vals.push((v, x.ty().clone(), is_const(x.kind())));
        }
        let g = p.borrow_values();
        for v in globals(p) {
            q.vals.push((v, g[&v].ty().clone(), is_const(g[&v].kind())));
        }
        for b in blocks(d) {
            let ok = d.dfg().bb(b).params().iter().map(|v| d.dfg().value(*v).ty().clone()).collect();
            q.bbs.push((b, ok));
        }
        for (i, o) in self.progs.iter().enumerate() {
            for of in o.func_layout() {
                if i == pi {
                    q.funcs.push((*of, o.func(*of).ty().clone()));
                } else {
                    q.alien_funcs.push(*of);
                }
                if *of != f {
                    q.alien.extend(locals(o.func(*of)));
                    q.alien_bbs.extend(blocks(o.func(*of)));
                }
            }
            if i != pi {
                q.alien.extend(globals(o));
            }
        }
        q
    }
    pub fn some_fn(&self, pi: usize) -> Option<Function> {
        let l = self.progs[pi].func_layout();
        if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) }
    }
    fn local(&mut self, q: &Pool, f: Function, d: &mut FunctionData) -> Done {
        let wild = chance(1, 4);
        let all = locals(d);
        let params: Vec<Value> = {
            let mut v = d.params().to_vec();
            for b in blocks(d) {
                v.extend(d.dfg().bb(b).params());
            }
            v
        };
        let own: Vec<Value> = all.iter().copied().filter(|v| !params.contains(v)).collect();
        let some = |l: &[Value]| if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) };
        let target = if wild && chance(1, 2) { some(&q.alien) } else { some(&own) };
        let kv = |v: Value| format!("{f:?}.{v:?}");
        let kb = |b: BasicBlock| format!("{f:?}.{b:?}");
        let kf = format!("{f:?}");
        match draw(22) {
            0..=6 => {
                let x = match plan(q, wild, None) {
                    Some(x) => x,
                    None => match some(&own) {
                        Some(v) => Plan::Raw(d.dfg().value(v).clone()),
                        None => return Done::Nothing,
                    },
                };
                let t = plan_text(&x);
                ev!("new {t}");
                self.strict = !wild;
                let v = place(d.dfg_mut().new_value(), x);
                check!(!all.contains(&v), "handle", "a new value got a handle in use");
                let got = kind_text(d.dfg().value(v).kind());
                check!(got == t, "built", "asked for `{t}`, got `{got}`");
                if chance(1, 2) && d.dfg().value(v).kind().is_local_inst() {
                    let l = linked(d);
                    if !l.is_empty() {
                        let b = l[draw(l.len() as u32) as usize];
                        d.layout_mut().bb_mut(b).insts_mut().push_key_back(v).unwrap();
                    }
                }
                let what = format!("creating {t}");
                if wild { Done::Maybe(vec![kv(v), kf], what) } else { Done::Made(vec![kv(v), kf], what) }
            }
            7..=9 => {
                let Some(v) = target else { return Done::Nothing };
                let Some(x) = plan(q, wild, Some(v)) else { return Done::Nothing };
                let t = plan_text(&x);
                ev!("replace {v:?} by {t}");
                self.strict = !wild;
                let r = place(d.dfg_mut().replace_value_with(v), x);
                check!(r == v, "handle", "replacing gives another handle");
                let got = kind_text(d.dfg().value(v).kind());
                check!(got == t, "built", "asked for `{t}`, got `{got}`");
                Done::Maybe(vec![kv(v)], format!("replacing {v:?} by {t}"))
            }
            10..=12 => {
                let Some(v) = target else { return Done::Nothing };
                let uses: Vec<Value> = match d.dfg().values().get(&v) { Some(x) => canon::operands(x.kind()), None => vec![] };
                let from = some(&uses);
                let to = q.val(|_| true, false, Some(v));
                let bb = q.bb(false).map(|b| b.0);
                let (act, boom) = (draw(5), if chance(1, 4) { draw(2) + 1 } else { 0 });
                ev!("update {v:?} act {act} panic {boom}");
                let mut want = String::new();
                self.strict = !wild && boom == 0;
                if boom != 0 {
                    fault(F::PanicEdit);
                    probe("panicked_edit");
                }
                let r = catch_unwind(AssertUnwindSafe(|| d.dfg_mut().update_value(v, |x| {
                    if boom == 1 {
                        want = kind_text(x.kind());
                        std::panic::panic_any("the closure gives up".to_string());
                    }
                    match act {
                        0 | 1 => if let (Some(a), Some(b)) = (from, to) { subst(x.kind_mut(), a, b) },
                        2 => if let Some(b) = bb { retarget(x.kind_mut(), b) },
                        3 => clear_args(x.kind_mut()),
                        _ => match x.kind_mut() {
                            ValueKind::Binary(b) => *b.op_mut() = canon::OPS[draw(17) as usize],
                            ValueKind::Call(c) if !q.funcs.is_empty() => *c.callee_mut() = q.funcs[draw(q.funcs.len() as u32) as usize].0,
                            _ => {}
                        },
                    }
                    want = kind_text(x.kind());
                    if boom == 2 {
                        std::panic::panic_any("the closure gives up".to_string());
                    }
                })));
                if let Err(e) = r {
                    if boom == 0 || want.is_empty() {
                        std::panic::resume_unwind(e);
                    }
                    sh().panic.len = 0;
                    nontrivial();
                } else {
                    check!(boom == 0, "swallowed", "the panic of an update closure got lost");
                }
                match d.dfg().values().get(&v) {
                    Some(x) => check!(kind_text(x.kind()) == want, "update", "after the update {v:?} is `{}`, not `{want}`", kind_text(x.kind())),
                    None => crate::fail!("lost", "{v:?} is gone after an update (which panicked: {})", boom != 0),
                }
                Done::Maybe(vec![kv(v)], format!("updating {v:?}"))
            }
            13 | 14 => {
                let Some(v) = target else { return Done::Nothing };
                let free = d.dfg().values().get(&v).is_some_and(|x| x.used_by().is_empty());
                let before = d.dfg().values().get(&v).map(data_text);
                ev!("remove {v:?} unused {free}");
                self.strict = free;
                let x = d.dfg_mut().remove_value(v);
                check!(free, "removed-used", "{v:?} could be removed although it is used or missing");
                check!(Some(data_text(&x)) == before, "removed", "removing {v:?} returns `{}`, it was {before:?}", data_text(&x));
                check!(!d.dfg().values().contains_key(&v), "removed", "{v:?} is still there after its removal");
                unlink(d, v);
                self.dead.push(v);
                nontrivial();
                Done::Made(vec![kv(v), kf], format!("removing {v:?}"))
            }
            15 | 16 => {
                // what optimisers do: send all users elsewhere, then remove
                let most = own.iter().copied().max_by_key(|v| d.dfg().value(*v).used_by().len());
                let v = if chance(1, 4) { most } else { some(&own) };
                let Some(v) = v else { return Done::Nothing };
                let t = d.dfg().value(v).ty().clone();
                let to = q.val(|x| *x == t, false, Some(v));
                let Some(to) = to else { return Done::Nothing };
                let users = sorted(d.dfg().value(v).used_by().iter().copied().collect(), |u| format!("{u:?}"));
                if users.contains(&to) {
                    return Done::Nothing;
                }
                ev!("replace all uses of {v:?} by {to:?}");
                self.strict = true;
                let mut keys = vec![kv(v), kf.clone()];
                for u in &users {
                    d.dfg_mut().update_value(*u, |x| subst(x.kind_mut(), v, to));
                    keys.push(kv(*u));
                }
                check!(d.dfg().value(v).used_by().is_empty(), "uses", "{v:?} has users left after all of them were sent elsewhere");
                d.dfg_mut().remove_value(v);
                unlink(d, v);
                self.dead.push(v);
                nontrivial();
                Done::Made(keys, format!("replacing all uses of {v:?}"))
            }
            17 => {
                let name = match draw(6) { 0 => Some("bad".to_string()), 1 => Some(String::new()), 2 => None, n => Some(format!("%b{n}")) };
                let good = !matches!(name.as_deref(), Some("bad") | Some(""));
                let tys: Vec<Type> = (0..if chance(1, 6) { range(3, 8) } else { draw(3) }).map(|_| any_type(wild)).collect();
                ev!("new block {name:?} with {} parameters", tys.len());
                self.strict = good && !wild;
                let b = match draw(3) {
                    0 if tys.is_empty() => d.dfg_mut().new_bb().basic_block(name.clone()),
                    1 => d.dfg_mut().new_bb().basic_block_with_params(name.clone(), tys.clone()),
                    _ => d.dfg_mut().new_bb().basic_block_with_param_names(name.clone(), tys.iter().map(|t| (if chance(1, 2) { Some("%q".into()) } else { None }, t.clone())).collect()),
                };
                check!(good, "name", "a block named {name:?} was accepted");
                let x = d.dfg().bb(b);
                check!(*x.name() == name && x.params().len() == tys.len() && x.used_by().is_empty(), "built", "the new block has another name, other parameters or users");
                let mut keys = vec![kb(b), kf];
                for (i, v) in x.params().iter().enumerate() {
                    let y = d.dfg().value(*v);
                    check!(*y.ty() == tys[i] && matches!(y.kind(), ValueKind::BlockArgRef(r) if r.index() == i), "built", "parameter {i} of the new block is wrong");
                    keys.push(kv(*v));
                }
                if chance(3, 4) {
                    d.layout_mut().bbs_mut().push_key_back(b).unwrap();
                }
                Done::Made(keys, "creating a block".into())
            }
            18 => {
                let bs = blocks(d);
                let b = if wild { q.bb(true).map(|x| x.0) } else if bs.is_empty() { None } else { Some(bs[draw(bs.len() as u32) as usize]) };
                let Some(b) = b else { return Done::Nothing };
                let mut keys = vec![kb(b), kf];
                let free = match d.dfg().bbs().get(&b) {
                    Some(x) => {
                        keys.extend(x.params().iter().map(|v| kv(*v)));
                        x.used_by().is_empty() && x.params().iter().all(|v| d.dfg().value(*v).used_by().is_empty())
                    }
                    None => false,
                };
                ev!("remove block {b:?} unused {free}");
                self.strict = free;
                let x = d.dfg_mut().remove_bb(b);
                check!(free, "removed-used", "{b:?} could be removed although it or a parameter is used or missing");
                for v in x.params() {
                    check!(!d.dfg().values().contains_key(v), "removed", "a parameter outlives its block");
                    self.dead.push(*v);
                }
                d.layout_mut().bbs_mut().remove(&b);
                self.dead_bbs.push(b);
                nontrivial();
                Done::Made(keys, format!("removing {b:?}"))
            }
            19 => {
                let name = pick(&[None, Some("%v"), Some("@v"), Some("v"), Some(""), Some("%7")]).map(String::from);
                if chance(1, 2) {
                    let Some(v) = target else { return Done::Nothing };
                    d.dfg_mut().set_value_name(v, name.clone());
                    check!(*d.dfg().value(v).name() == name && !matches!(name.as_deref(), Some("v") | Some("")), "name", "the name {name:?} was set wrongly");
                    Done::Maybe(vec![kv(v)], "naming a value".into())
                } else {
                    let Some((b, _)) = q.bb(wild) else { return Done::Nothing };
                    d.dfg_mut().bb_mut(b).set_name(name.clone());
                    check!(*d.dfg().bb(b).name() == name, "name", "the name {name:?} was set wrongly");
                    Done::Maybe(vec![kb(b)], "naming a block".into())
                }
            }
            20 => {
                // the last parameter of a block goes
                let bs: Vec<BasicBlock> = blocks(d).into_iter().filter(|b| d.dfg().bb(*b).params().last().is_some_and(|v| d.dfg().value(*v).used_by().is_empty())).collect();
                if bs.is_empty() {
                    return Done::Nothing;
                }
                let b = bs[draw(bs.len() as u32) as usize];
                let v = d.dfg_mut().bb_mut(b).params_mut().pop().unwrap();
                d.dfg_mut().remove_value(v);
                self.dead.push(v);
                Done::Made(vec![kb(b), kv(v)], "removing a block parameter".into())
            }
            _ => {
                // in and out of the layout, which does not concern the graph
                let l = linked(d);
                let Some(v) = some(&own) else { return Done::Nothing };
                if l.is_empty() || !d.dfg().value(v).kind().is_local_inst() {
                    return Done::Nothing;
                }
                unlink(d, v);
                let b = l[draw(l.len() as u32) as usize];
                if chance(2, 3) {
                    d.layout_mut().bb_mut(b).insts_mut().push_key_front(v).unwrap();
                }
                Done::Made(vec![kf], "moving an instruction".into())
            }
        }
    }
    fn global(&mut self, pi: usize) -> Done {
        let wild = chance(1, 4);
        let mut alien = self.dead.clone();
        for (i, p) in self.progs.iter().enumerate() {
            if i != pi {
                alien.extend(globals(p));
            }
            for f in p.func_layout() {
                alien.extend(locals(p.func(*f)));
            }
        }
        let dead_funcs = self.dead_funcs.clone();
        let other_funcs: Vec<Function> = self.progs.iter().enumerate().filter(|x| x.0 != pi).flat_map(|x| x.1.func_layout().to_vec()).collect();
        let p = &mut self.progs[pi];
        let all = globals(p);
        let some = |l: &[Value]| if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) };
        let target = if wild { some(&alien) } else { some(&all) };
        let k = |v: Value| format!("{v:?}");
        let lay = "layout".to_string();
        match draw(12) {
            0..=3 => {
                let consts: Vec<Value> = all.iter().copied().filter(|v| is_const(p.borrow_value(*v).kind())).collect();
                let mut t = String::new();
                let v = match draw(5) {
                    0 => { let i = draw(9) as i32; t = format!("int {i}"); p.new_value().integer(i) }
                    1 => { t += "zero"; p.new_value().zero_init(any_type(wild)) }
                    2 => {
                        let Some(c) = some(&consts) else { return Done::Nothing };
                        let ty = p.borrow_value(c).ty().clone();
                        let same: Vec<Value> = consts.iter().copied().filter(|v| *p.borrow_value(*v).ty() == ty).collect();
                        let mut e: Vec<Value> = (0..if chance(1, 40) { range(10, 300) } else if chance(1, 3) { range(5, 9) } else { range(1, 3) }).map(|_| same[draw(same.len() as u32) as usize]).collect();
                        if wild {
                            e.extend(target);
                        }
                        vs(&mut t, &e);
                        t += " agg";
                        p.new_value().aggregate(e)
                    }
                    _ => {
                        let c = if wild { target } else { some(&consts) };
                        let Some(c) = c else { return Done::Nothing };
                        t = format!("galloc {c:?}");
                        p.new_value().global_alloc(c)
                    }
                };
                let got = kind_text(p.borrow_value(v).kind());
                check!(got == t, "built", "asked for `{t}`, got `{got}`");
                ev!("new global {t}");
                check!(v.is_global() && !all.contains(&v), "handle", "a new global got a wrong handle");
                let is_alloc = p.borrow_value(v).kind().is_global_alloc();
                check!(p.inst_layout().contains(&v) == is_alloc, "layout", "the global list holds the wrong values");
                if wild { Done::Maybe(vec![k(v), lay], "creating a global".into()) } else { Done::Made(vec![k(v), lay], "creating a global".into()) }
            }
            4 | 5 => {
                let Some(v) = target else { return Done::Nothing };
                let free = p.borrow_values().get(&v).is_some_and(|x| x.used_by().is_empty());
                let l: Vec<Value> = p.inst_layout().iter().copied().filter(|x| *x != v).collect();
                ev!("remove global {v:?} unused {free}");
                self.strict = free;
                p.remove_value(v);
                check!(free, "removed-used", "global {v:?} could be removed although it is used or missing");
                check!(p.inst_layout() == &l[..], "layout", "the global list is wrong after a removal");
                self.dead.push(v);
                nontrivial();
                Done::Made(vec![k(v), lay], "removing a global".into())
            }
            6 => {
                let Some(v) = target else { return Done::Nothing };
                let name = pick(&[None, Some("%v"), Some("@v"), Some("v"), Some("")]).map(String::from);
                p.set_value_name(v, name.clone());
                check!(*p.borrow_value(v).name() == name, "name", "the name {name:?} was set wrongly");
                Done::Maybe(vec![k(v)], "naming a global".into())
            }
            7 => {
                let n = pick(&["@f", "%f", "f", "@"]).to_string();
                let tys: Vec<Type> = (0..if chance(1, 6) { range(3, 8) } else { draw(3) }).map(|_| any_type(wild)).collect();
                let f = match draw(3) {
                    0 => p.new_func_decl(n, tys, Type::get_i32()),
                    1 => p.new_func_def(n, tys, Type::get_unit()),
                    _ => p.new_func_def_with_param_names(n, tys.into_iter().map(|t| (Some("%n".into()), t)).collect(), Type::get_i32()),
                };
                let mut keys = vec![format!("{f:?}"), lay];
                keys.extend(p.func(f).dfg().values().keys().map(|v| format!("{f:?}.{v:?}")));
                check!(p.func_layout().last() == Some(&f), "layout", "a new function is not the last one");
                Done::Maybe(keys, "creating a function".into())
            }
            _ => {
                let free: Vec<Function> = p.func_layout().iter().copied().filter(|f| {
                    !p.funcs().iter().any(|(g, d)| g != f && d.dfg().values().values().any(|v| matches!(v.kind(), ValueKind::Call(c) if c.callee() == *f)))
                }).collect();
                let mut cand = if wild { dead_funcs } else { free };
                if wild {
                    cand.extend(other_funcs);
                }
                if cand.is_empty() {
                    return Done::Nothing;
                }
                let f = cand[draw(cand.len() as u32) as usize];
                let mine = p.funcs().contains_key(&f);
                let mut keys = vec![lay.clone()];
                let prefix = format!("{f:?}");
                keys.extend(snap(p).into_keys().filter(|k| k.starts_with(&prefix)));
                let l: Vec<Function> = p.func_layout().iter().copied().filter(|x| *x != f).collect();
                if let Some(d) = p.funcs().get(&f) {
                    if d.dfg().values().values().any(|v| canon::operands(v.kind()).iter().any(|u| u.is_global())) {
                        probe("remove_func_with_uses");
                    }
                }
                self.strict = true;
                ev!("remove function {f:?}, which is here {mine}");
                let r = p.remove_func(f);
                check!(r.is_some() == mine, "function", "removing a function returns {} although it was {}", if r.is_some() { "it" } else { "nothing" }, if mine { "there" } else { "not there" });
                check!(p.func_layout() == &l[..], "layout", "the function list is wrong after a removal");
                let Some(d) = r else { return Done::Made(vec![], "removing a function of another program".into()) };
                nontrivial();
                self.dead_funcs.push(f);
                let again = chance(1, 2);
                let recursive = d.dfg().values().values().any(|v| matches!(v.kind(), ValueKind::Call(c) if c.callee() == f));
                if again && !recursive {
                    canon::check_audit(p, "removing a function");
                    #[allow(deprecated)]
                    let g = p.new_func(d);
                    let prefix = format!("{g:?}");
                    keys.extend(snap(p).into_keys().filter(|k| k.starts_with(&prefix)));
                    check!(p.func_layout().last() == Some(&g), "layout", "a function that was put back is not the last one");
                } else {
                    self.dead.extend(locals(&d));
                    self.dead_bbs.extend(blocks(&d));
                }
                Done::Made(keys, "removing a function".into())
            }
        }
    }
}

fn run() {
    any_heap();
    let mut w = World { progs: vec![], dead: vec![], dead_bbs: vec![], dead_funcs: vec![], strict: false };
    for _ in 0..range(1, 2) {
        let mut c = SMALL;
        c.funcs = pick(&[1, 2, 3]);
        c.blocks = pick(&[1, 3, 4]);
        let m = Gen::prog(c);
        w.progs.push(if chance(1, 3) { must_parse(&m, &crate::generate::emit(&m, &crate::generate::any_style())) } else { canon::build(&m) });
    }
    // enough different operands for values with many of them
    for p in &mut w.progs {
        if chance(1, 3) {
            continue;
        }
        for i in 0..range(4, 9) {
            p.new_value().integer(i as i32);
        }
        let fs = p.func_layout().to_vec();
        for f in fs {
            let d = p.func_mut(f).dfg_mut();
            for i in 0..draw(9) {
                d.new_value().integer(i as i32);
            }
            if chance(1, 2) {
                let n = range(3, 7) as usize;
                let bs: Vec<BasicBlock> = (0..2).map(|_| d.new_bb().basic_block_with_params(None, vec![Type::get_i32(); n])).collect();
                let mut args = |k: u32| -> Vec<Value> { (0..n).map(|i| d.new_value().integer((k * 10) as i32 + i as i32)).collect() };
                let (x, y, c) = (args(1), args(2), args(3)[0]);
                d.new_value().branch_with_args(c, bs[0], bs[1], x, y);
                let z: Vec<Value> = d.bb(bs[0]).params().to_vec();
                d.new_value().jump_with_args(bs[1], z);
            }
        }
    }
    let crowd = chance(1, 60);
    if crowd {
        // a value and a block with many users
        if let Some(f) = w.some_fn(0) {
            let d = w.progs[0].func_mut(f).dfg_mut();
            let (x, y) = (d.new_value().integer(1), d.new_value().integer(2));
            let b = d.new_bb().basic_block(None);
            let n = range(20, 300);
            for _ in 0..n {
                match draw(3) {
                    0 => d.new_value().binary(BinaryOp::Add, x, y),
                    1 => d.new_value().branch(x, b, b),
                    _ => d.new_value().jump(b),
                };
            }
            probe("crowd");
        }
    }
    for p in &w.progs {
        canon::check_audit(p, "building");
    }
    for _ in 0..range(4, if crowd { 15 } else { 40 }) {
        let pi = draw(w.progs.len() as u32) as usize;
        let before: Vec<Snap> = w.progs.iter().map(snap).collect();
        let f = w.some_fn(pi);
        w.strict = false;
        let r = match f {
            Some(f) if chance(3, 4) => {
                let q = w.pool(pi, f);
                let mut p = std::mem::take(&mut w.progs[pi]);
                let r = if chance(1, 6) {
                    // the edit happens in a pass
                    let mut res = None;
                    let r = {
                        let mut op = |d: &mut FunctionData| res = Some(w.local(&q, f, d));
                        let mut one = One { f, op: &mut op };
                        let ptr = &mut one as *mut One as *mut One<'static>;
                        let mut m = PassManager::new();
                        m.register(Pass::Function(Box::new(InPass(ptr))));
                        catch_unwind(AssertUnwindSafe(|| m.run_passes(&mut p)))
                    };
                    r.map(|_| match res {
                        Some(v) => v,
                        None => crate::fail!("pass", "the pass never ran on the function"),
                    })
                } else {
                    let d = p.func_mut(f);
                    catch_unwind(AssertUnwindSafe(|| w.local(&q, f, d)))
                };
                w.progs[pi] = p;
                r
            }
            _ => catch_unwind(AssertUnwindSafe(|| w.global(pi))),
        };
        let (keys, what) = match r {
            Ok(Done::Nothing) => continue,
            Ok(Done::Made(k, t)) | Ok(Done::Maybe(k, t)) => (k, t),
            Err(_) => {
                let t = sh().panic.get();
                sh().panic.len = 0;
                ev!("rejected: {}", t.split(" at ").next().unwrap_or(""));
                fault(F::RejectedEdit);
                probe("rejected_edit");
                check!(!w.strict, "refused", "a proper edit panics: {t}");
                nontrivial();
                (vec![], format!("an edit rejected with `{t}`"))
            }
        };
        for (i, p) in w.progs.iter().enumerate() {
            unchanged(&before[i], &snap(p), if i == pi { &keys } else { &[] }, &what);
            canon::check_audit(p, &what);
        }
    }
}
