use super::i01::{blocks, globals, is_const, kind_text, linked, locals, place, plan, plan_text, InPass, One, Plan, Pool, World};
use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, sh, F};
use crate::generate::{Gen, SMALL};
use crate::model::Ty;
use crate::orch::Prop;
use crate::{canon, check, ev};
use koopa::ir::builder_traits::*;
use koopa::ir::{BasicBlock, Function, FunctionData, Program, Type, TypeKind, Value, ValueKind};
use koopa::opt::{Pass, PassManager};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "I04",
    run,
    quick: 40000,
    thorough: 1_000_000,
    rule: "an execution counts when at least one build was refused and one accepted after an earlier refusal or removal; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the client that builds (including passes that build and panic), hash seeds, the heap",
};

/// What the documentation says about an edit.
#[derive(Clone, PartialEq, Debug)]
enum Say {
    Yes(Ty),
    No(&'static str),
    /// It says nothing.
    Either,
}
use Say::*;

struct Known {
    vals: BTreeMap<String, (Ty, bool)>,
    bbs: BTreeMap<String, Vec<Ty>>,
    funcs: BTreeMap<String, Ty>,
}
impl Known {
    fn new(q: &Pool, p: &Book, f: &str) -> Known {
        // the types are those the values were built with, not those they claim to have
        Known {
            vals: q.vals.iter().map(|(v, _, c)| (format!("{v:?}"), (p[&if v.is_global() { format!("{v:?}") } else { format!("{f}.{v:?}") }].clone(), *c))).collect(),
            bbs: q.bbs.iter().map(|(b, t)| (format!("{b:?}"), t.iter().map(canon::ty_of).collect())).collect(),
            funcs: q.funcs.iter().map(|(g, _)| (format!("{g:?}"), p[&format!("{g:?}")].clone())).collect(),
        }
    }
    fn ty(&self, v: &Value) -> Result<&Ty, &'static str> {
        self.vals.get(&format!("{v:?}")).map(|x| &x.0).ok_or("an operand that does not exist")
    }
    fn bb(&self, b: &BasicBlock) -> Result<&[Ty], &'static str> {
        self.bbs.get(&format!("{b:?}")).map(|x| &x[..]).ok_or("a block that does not exist")
    }
    fn args(&self, want: &[Ty], have: &[Value]) -> Result<(), &'static str> {
        let have = have.iter().map(|v| self.ty(v)).collect::<Result<Vec<_>, _>>()?;
        if have.len() != want.len() {
            return Err("a wrong number of arguments");
        }
        if have.iter().zip(want).all(|(h, w)| *h == w) { Ok(()) } else { Err("an argument of a wrong type") }
    }
    fn judge(&self, x: &Plan) -> Result<Ty, &'static str> {
        let need = |ok: bool, what| if ok { Ok(()) } else { Err(what) };
        let int = |v: &Value| need(*self.ty(v)? == Ty::I32, "an operand that is no integer");
        Ok(match x {
            Plan::Int(_) => Ty::I32,
            Plan::Zero(t) | Plan::Undef(t) => {
                need(!t.is_unit(), "the unit type")?;
                canon::ty_of(t)
            }
            Plan::Alloc(t) => {
                need(!t.is_unit(), "the unit type")?;
                canon::ty_of(t).ptr()
            }
            Plan::Agg(e) => {
                need(!e.is_empty(), "no elements")?;
                let t = self.ty(&e[0])?;
                need(*t != Ty::Unit, "unit elements")?;
                for v in e {
                    need(self.ty(v)? == t, "elements of different types")?;
                    need(self.vals[&format!("{v:?}")].1, "elements that are no constants")?;
                }
                t.arr(e.len())
            }
            Plan::Load(s) => match self.ty(s)? {
                Ty::Ptr(b) => (**b).clone(),
                _ => return Err("a source that is no pointer"),
            },
            Plan::Store(v, d) => {
                need(self.ty(v)?.ptr() == *self.ty(d)?, "a destination of another type")?;
                Ty::Unit
            }
            Plan::GetPtr(s, i) => {
                int(i)?;
                let t = self.ty(s)?;
                need(matches!(t, Ty::Ptr(_)), "a source that is no pointer")?;
                t.clone()
            }
            Plan::GetElem(s, i) => {
                int(i)?;
                match self.ty(s)? {
                    Ty::Ptr(b) => match &**b {
                        Ty::Arr(b, _) => b.ptr(),
                        _ => return Err("a source that points to no array"),
                    },
                    _ => return Err("a source that is no pointer"),
                }
            }
            Plan::Bin(_, l, r) => {
                int(l)?;
                int(r)?;
                Ty::I32
            }
            Plan::Br(c, t, f) => {
                int(c)?;
                need(self.bb(t)?.is_empty() && self.bb(f)?.is_empty(), "a target with parameters")?;
                Ty::Unit
            }
            Plan::BrArgs(c, t, f, x, y) => {
                int(c)?;
                self.args(self.bb(t)?, x)?;
                self.args(self.bb(f)?, y)?;
                need(t != f || x.is_empty(), "arguments for one target twice")?;
                Ty::Unit
            }
            Plan::Jump(t) => {
                need(self.bb(t)?.is_empty(), "a target with parameters")?;
                Ty::Unit
            }
            Plan::JumpArgs(t, a) => {
                self.args(self.bb(t)?, a)?;
                Ty::Unit
            }
            Plan::Call(f, a) => match self.funcs.get(&format!("{f:?}")) {
                Some(Ty::Func(ps, r)) => {
                    self.args(ps, a)?;
                    (**r).clone()
                }
                _ => return Err("a function that does not exist"),
            },
            Plan::Ret(None) => Ty::Unit,
            Plan::Ret(Some(v)) => {
                need(*self.ty(v)? != Ty::Unit, "a unit result")?;
                Ty::Unit
            }
            Plan::Raw(_) => unreachable!(),
        })
    }
}
fn say(r: Result<Ty, &'static str>) -> Say {
    match r {
        Ok(t) => Yes(t),
        Err(e) => No(e),
    }
}

/// Makes one thing about a plan different.
fn spoil(q: &Pool, x: &mut Plan, not: Option<Value>) {
    let other = |v: &mut Value| {
        let ty = q.vals.iter().find(|x| x.0 == *v).map(|x| &x.1);
        let l: Vec<Value> = match draw(5) {
            0 => q.alien.clone(),
            // of another type, one that looks much like it among them
            1 | 2 => q.vals.iter().filter(|x| Some(&x.1) != ty).map(|x| x.0).collect(),
            3 => q.vals.iter().filter(|x| !x.2).map(|x| x.0).collect(),
            _ => q.vals.iter().map(|x| x.0).collect(),
        };
        let l: Vec<Value> = l.into_iter().filter(|v| Some(*v) != not).collect();
        if !l.is_empty() {
            *v = l[draw(l.len() as u32) as usize];
        }
    };
    let list = |l: &mut Vec<Value>| {
        let i = if l.is_empty() { 0 } else { draw(l.len() as u32) as usize };
        match draw(6) {
            0 => { l.pop(); }
            1 => if let Some(v) = l.last().copied() { l.push(v) },
            2 => if !l.is_empty() { l.remove(i); },
            3 => if !l.is_empty() { l.rotate_left(1) },
            _ if l.is_empty() => {
                let ok: Vec<Value> = q.vals.iter().map(|x| x.0).filter(|v| Some(*v) != not).collect();
                if !ok.is_empty() {
                    l.push(ok[draw(ok.len() as u32) as usize]);
                }
            }
            _ => other(&mut l[i]),
        }
    };
    let block = |b: &mut BasicBlock| {
        if chance(1, 3) && !q.alien_bbs.is_empty() {
            *b = q.alien_bbs[draw(q.alien_bbs.len() as u32) as usize];
        } else if !q.bbs.is_empty() {
            *b = q.bbs[draw(q.bbs.len() as u32) as usize].0;
        }
    };
    match x {
        Plan::Int(_) | Plan::Raw(_) => {}
        Plan::Zero(t) | Plan::Undef(t) | Plan::Alloc(t) => *t = if chance(1, 2) { Type::get_unit() } else { rich(3) },
        Plan::Agg(e) => if chance(1, 8) { e.clear() } else { list(e) },
        Plan::Load(v) => other(v),
        Plan::Store(a, b) | Plan::GetPtr(a, b) | Plan::GetElem(a, b) | Plan::Bin(_, a, b) => match draw(5) {
            0 => std::mem::swap(a, b),
            1 | 2 => other(a),
            _ => other(b),
        },
        Plan::Br(c, t, f) => match draw(3) {
            0 => other(c),
            1 => block(t),
            _ => block(f),
        },
        Plan::BrArgs(c, t, f, x, y) => match draw(8) {
            0 => other(c),
            1 => block(t),
            2 => block(f),
            3 => {
                *f = *t;
                y.clone_from(x);
            }
            4 => std::mem::swap(x, y),
            5 | 6 => list(x),
            _ => list(y),
        },
        Plan::Jump(t) => block(t),
        Plan::JumpArgs(t, a) => if chance(1, 4) { block(t) } else { list(a) },
        Plan::Call(f, a) => match draw(5) {
            0 if !q.alien_funcs.is_empty() => *f = q.alien_funcs[draw(q.alien_funcs.len() as u32) as usize],
            1 if !q.funcs.is_empty() => *f = q.funcs[draw(q.funcs.len() as u32) as usize].0,
            _ => list(a),
        },
        Plan::Ret(v) => match v {
            Some(v) => other(v),
            None => {
                let u: Vec<Value> = q.vals.iter().filter(|x| x.1.is_unit()).map(|x| x.0).filter(|v| Some(*v) != not).collect();
                if !u.is_empty() {
                    *v = Some(u[draw(u.len() as u32) as usize]);
                }
            }
        },
    }
}
/// Types, many of which differ from others in little.
fn rich(depth: u32) -> Type {
    if depth == 0 {
        return if chance(1, 5) { Type::get_unit() } else { Type::get_i32() };
    }
    match draw(6) {
        0 | 1 => Type::get_i32(),
        2 | 3 => Type::get_pointer(rich(depth - 1)),
        4 => Type::get_array(rich(depth - 1), 1 + draw(3) as usize),
        _ => Type::get_function((0..draw(3)).map(|_| rich(depth - 1)).collect(), rich(depth - 1)),
    }
}
fn some_ty() -> Type {
    if chance(1, 15) { Type::get_unit() } else { rich(range(1, 3)) }
}
/// Types for parameters, often those that values have.
fn some_tys(b: &Book, n: u32) -> Vec<Type> {
    let have: Vec<&Ty> = b.values().filter(|t| !matches!(t, Ty::Unit | Ty::Func(..))).collect();
    let old = (n > 7 || chance(2, 3)) && !have.is_empty();
    (0..n).map(|_| if old && (n > 7 || chance(7, 8)) { canon::to_type(have[draw(have.len() as u32) as usize]) } else { some_ty() }).collect()
}
fn named(n: &Option<String>) -> Option<bool> {
    match n.as_deref() {
        None => Some(true),
        // a prefix alone
        Some("@" | "%") => None,
        Some(n) => Some(n.starts_with('@') || n.starts_with('%')),
    }
}
fn some_name() -> Option<String> {
    pick(&[None, Some("%x"), Some("@x"), Some("%0"), Some("@12"), Some("@@"), Some("%%"), Some("%long_name_of_something"), Some("x"), Some(""), Some("@"), Some("%"), Some("x%"), Some("0"), Some(" @x"), Some("x@x")]).map(String::from)
}
fn all_names(n: &[Option<bool>]) -> Option<bool> {
    if n.contains(&Some(false)) { Some(false) } else if n.contains(&None) { None } else { Some(true) }
}

/// The types everything was built with.
type Book = BTreeMap<String, Ty>;
fn book(p: &Program) -> Book {
    let mut m = Book::new();
    for (v, d) in p.borrow_values().iter() {
        m.insert(format!("{v:?}"), canon::ty_of(d.ty()));
    }
    for (f, d) in p.funcs() {
        m.insert(format!("{f:?}"), canon::ty_of(d.ty()));
        for (v, d) in d.dfg().values() {
            m.insert(format!("{f:?}.{v:?}"), canon::ty_of(d.ty()));
        }
    }
    m
}
/// Compares what happened with what is said.
fn settle<T>(what: &str, want: &Say, r: Result<T, Box<dyn std::any::Any + Send>>) -> Option<T> {
    match r {
        Ok(v) => {
            if let No(why) = want {
                crate::fail!("accepted", "{what} is accepted with {why}");
            }
            Some(v)
        }
        Err(_) => {
            let t = sh().panic.get();
            sh().panic.len = 0;
            if let Yes(t2) = want {
                crate::fail!("refused", "{what}, of type {}, is refused: {t}", t2.to_text());
            }
            fault(F::RejectedEdit);
            probe("rejected_edit");
            ev!("refused: {what}");
            None
        }
    }
}

fn global_place(b: impl GlobalInstBuilder, x: Plan, init: Option<Value>) -> Value {
    match (x, init) {
        (_, Some(i)) => b.global_alloc(i),
        (Plan::Int(i), _) => b.integer(i),
        (Plan::Zero(t), _) => b.zero_init(t),
        (Plan::Undef(t), _) => b.undef(t),
        (Plan::Agg(e), _) => b.aggregate(e),
        _ => unreachable!(),
    }
}

struct Run {
    w: World,
    books: Vec<Book>,
    refused: bool,
    after: bool,
}
impl Run {
    /// One value is built, or another put in its place.
    fn value(&mut self, pi: usize, f: Function) {
        let q = self.w.pool(pi, f);
        let fk = format!("{f:?}");
        let known = Known::new(&q, &self.books[pi], &fk);
        let target = if chance(1, 4) {
            let d = self.w.progs[pi].func(f);
            let mut own: Vec<Value> = locals(d);
            own.retain(|v| !matches!(d.dfg().value(*v).kind(), ValueKind::FuncArgRef(_) | ValueKind::BlockArgRef(_)));
            if chance(1, 10) {
                own.clone_from(&q.alien);
            }
            if own.is_empty() {
                return;
            }
            Some(own[draw(own.len() as u32) as usize])
        } else {
            None
        };
        let big = |b: &BasicBlock| q.bbs.iter().find(|x| x.0 == *b).map_or(0, |x| x.1.len());
        let mut x = match draw(12) {
            // something with many arguments
            10 => {
                let Some(b) = q.bbs.iter().map(|x| x.0).max_by_key(big) else { return };
                let Some(a) = q.args(&q.bbs.iter().find(|x| x.0 == b).unwrap().1, false, target) else { return };
                Plan::JumpArgs(b, a)
            }
            11 => {
                let n = |t: &Type| match t.kind() { TypeKind::Function(p, _) => p.clone(), _ => vec![] };
                let Some((f, t)) = q.funcs.iter().max_by_key(|x| n(&x.1).len()) else { return };
                let Some(a) = q.args(&n(t), false, target) else { return };
                Plan::Call(*f, a)
            }
            0 => Plan::Alloc(some_ty()),
            1 => Plan::Undef(some_ty()),
            2 => Plan::Zero(some_ty()),
            _ => match plan(&q, chance(1, 6), target) {
                Some(x) => x,
                None => return,
            },
        };
        for _ in 0..pick(&[0, 0, 1, 1, 1, 2]) {
            spoil(&q, &mut x, target);
        }
        let mut want = say(known.judge(&x));
        if target.is_some_and(|t| !q.vals.iter().any(|v| v.0 == t && !t.is_global())) {
            want = No("nothing to replace");
        }
        let what = match target {
            Some(t) => format!("replacing {t:?} by {}", plan_text(&x)),
            None => format!("building {}", plan_text(&x)),
        };
        let text = plan_text(&x);
        let build = |d: &mut FunctionData| {
            let x = x.clone();
            catch_unwind(AssertUnwindSafe(|| match target {
                Some(t) => place(d.dfg_mut().replace_value_with(t), x),
                None => place(d.dfg_mut().new_value(), x),
            }))
        };
        let p = &mut self.w.progs[pi];
        let r = if chance(1, 6) {
            let mut res = None;
            {
                let mut op = |d: &mut FunctionData| res = Some(build(d));
                let mut one = One { f, op: &mut op };
                let ptr = &mut one as *mut One as *mut One<'static>;
                let mut m = PassManager::new();
                m.register(Pass::Function(Box::new(InPass(ptr))));
                m.run_passes(p);
            }
            match res {
                Some(r) => r,
                None => crate::fail!("pass", "the pass never ran on the function"),
            }
        } else {
            build(p.func_mut(f))
        };
        let Some(v) = settle(&what, &want, r) else {
            self.refused = true;
            return;
        };
        ev!("{what}: {v:?}");
        self.after |= self.refused;
        let d = p.func_mut(f);
        let y = d.dfg().value(v);
        let Yes(t) = want else { return };
        check!(canon::ty_of(y.ty()) == t, "type", "{what} gives a value of type {}, not {}", y.ty(), t.to_text());
        check!(kind_text(y.kind()) == text, "built", "{what} gives `{}`", kind_text(y.kind()));
        check!(target.is_none_or(|t| t == v), "handle", "{what} gives another handle");
        self.books[pi].insert(format!("{fk}.{v:?}"), t);
        if target.is_none() && y.kind().is_local_inst() && chance(2, 3) {
            let l = linked(d);
            if !l.is_empty() {
                let b = l[draw(l.len() as u32) as usize];
                d.layout_mut().bb_mut(b).insts_mut().push_key_back(v).unwrap();
            }
        }
    }
    fn global(&mut self, pi: usize) {
        let mut alien = self.w.dead.clone();
        for (i, p) in self.w.progs.iter().enumerate() {
            if i != pi {
                alien.extend(globals(p));
            }
            for f in p.func_layout() {
                alien.extend(locals(p.func(*f)));
            }
        }
        let mut q = Pool { vals: vec![], bbs: vec![], funcs: vec![], alien, alien_bbs: vec![], alien_funcs: vec![] };
        let p = &mut self.w.progs[pi];
        let g = globals(p);
        for v in &g {
            let d = p.borrow_value(*v);
            q.vals.push((*v, d.ty().clone(), is_const(d.kind())));
        }
        let known = Known::new(&q, &self.books[pi], "");
        let one = |l: &[Value]| if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) };
        let mut init = None;
        let mut x = match draw(8) {
            0 => Plan::Int(draw(50) as i32),
            1 => Plan::Zero(some_ty()),
            2 => Plan::Undef(some_ty()),
            3..=5 => {
                let c: Vec<Value> = q.vals.iter().filter(|v| v.2).map(|v| v.0).collect();
                let Some(c) = one(&c) else { return };
                let t = &q.vals.iter().find(|v| v.0 == c).unwrap().1;
                let same: Vec<Value> = q.vals.iter().filter(|v| v.2 && v.1 == *t).map(|v| v.0).collect();
                Plan::Agg((0..range(1, 4)).map(|_| one(&same).unwrap()).collect())
            }
            _ => {
                init = if chance(1, 4) { one(&q.alien) } else { one(&g) };
                if init.is_none() {
                    return;
                }
                Plan::Int(0)
            }
        };
        if init.is_none() && chance(1, 2) {
            spoil(&q, &mut x, None);
        }
        let want = match &init {
            None => say(known.judge(&x)),
            Some(i) => match known.ty(i) {
                Ok(Ty::Unit) => No("a unit value"),
                Ok(t) => Yes(t.ptr()),
                Err(e) => No(e),
            },
        };
        let text = match init {
            Some(i) => format!("galloc {i:?}"),
            None => plan_text(&x),
        };
        let what = format!("building the global {text}");
        let r = catch_unwind(AssertUnwindSafe(|| global_place(p.new_value(), x, init)));
        let Some(v) = settle(&what, &want, r) else {
            self.refused = true;
            return;
        };
        ev!("{what}: {v:?}");
        self.after |= self.refused;
        let Yes(t) = want else { return };
        let y = p.borrow_value(v);
        check!(canon::ty_of(y.ty()) == t, "type", "{what} gives a value of type {}, not {}", y.ty(), t.to_text());
        check!(kind_text(y.kind()) == text, "built", "{what} gives `{}`", kind_text(y.kind()));
        self.books[pi].insert(format!("{v:?}"), t);
    }
    fn block(&mut self, pi: usize, f: Function) {
        let fk = format!("{f:?}");
        let d = self.w.progs[pi].func_mut(f);
        let name = some_name();
        let how = draw(3);
        let n = if how == 0 { 0 } else if chance(1, 30) { range(8, 100) } else if chance(1, 5) { range(3, 7) } else { range(0, 3) };
        let tys = some_tys(&self.books[pi], n);
        let names: Vec<Option<String>> = (0..n).map(|_| if chance(5, 6) { pick(&[None, Some("%q"), Some("@q")]).map(String::from) } else { some_name() }).collect();
        let mut say = if tys.iter().any(Type::is_unit) { No("a unit parameter") } else { Yes(Ty::Unit) };
        let mut ok = named(&name);
        if how == 2 && ok == Some(true) && all_names(&names.iter().map(named).collect::<Vec<_>>()) != Some(true) {
            ok = None;
        }
        match ok {
            Some(false) => say = No("a bad name"),
            None if say == Yes(Ty::Unit) => say = Either,
            _ => {}
        }
        let what = format!("building a block {name:?} with {n} parameters, way {how}");
        let before = locals(d).len();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let b = d.dfg_mut().new_bb();
            match how {
                0 => b.basic_block(name.clone()),
                1 => b.basic_block_with_params(name.clone(), tys.clone()),
                _ => b.basic_block_with_param_names(name.clone(), names.iter().cloned().zip(tys.iter().cloned()).collect()),
            }
        }));
        let Some(b) = settle(&what, &say, r) else {
            self.refused = true;
            if say == Either {
                // parameters that nobody holds may be left
                for v in locals(d) {
                    let t = canon::ty_of(d.dfg().value(v).ty());
                    self.books[pi].entry(format!("{fk}.{v:?}")).or_insert(t);
                }
            }
            return;
        };
        ev!("{what}: {b:?}");
        self.after |= self.refused;
        let x = d.dfg().bb(b);
        check!(*x.name() == name, "name", "{what} gives one named {:?}", x.name());
        check!(x.params().len() == tys.len() && locals(d).len() == before + tys.len(), "built", "{what} gives {}", x.params().len());
        for (i, v) in x.params().iter().enumerate() {
            let y = d.dfg().value(*v);
            check!(canon::ty_of(y.ty()) == canon::ty_of(&tys[i]), "type", "{what}: parameter {i} is of type {}, not {}", y.ty(), tys[i]);
            check!(matches!(y.kind(), ValueKind::BlockArgRef(r) if r.index() == i), "built", "{what}: parameter {i} is `{}`", kind_text(y.kind()));
            check!(how != 2 || *y.name() == names[i], "name", "{what}: parameter {i} is named {:?}, not {:?}", y.name(), names[i]);
            self.books[pi].insert(format!("{fk}.{v:?}"), canon::ty_of(&tys[i]));
        }
        if chance(3, 4) {
            d.layout_mut().bbs_mut().push_key_back(b).unwrap();
        }
    }
    fn func(&mut self, pi: usize) {
        let p = &mut self.w.progs[pi];
        let name = some_name().unwrap_or("@main".into());
        let n = if chance(1, 30) { range(8, 100) } else if chance(1, 5) { range(3, 7) } else { range(0, 3) };
        let tys = some_tys(&self.books[pi], n);
        let names: Vec<Option<String>> = (0..n).map(|_| if chance(5, 6) { pick(&[None, Some("%q"), Some("@q")]).map(String::from) } else { some_name() }).collect();
        let ret = if chance(1, 3) { Type::get_unit() } else { some_ty() };
        let t = Ty::Func(tys.iter().map(canon::ty_of).collect(), canon::ty_of(&ret).into());
        let how = draw(3);
        let mut ok = named(&Some(name.clone()));
        if how == 2 && ok == Some(true) && all_names(&names.iter().map(named).collect::<Vec<_>>()) != Some(true) {
            ok = None;
        }
        let say = if ok == Some(false) {
            No("a bad name")
        } else if tys.iter().any(Type::is_unit) {
            No("a unit parameter")
        } else if ok.is_none() {
            Either
        } else {
            Yes(t.clone())
        };
        let what = format!("building a function {name:?}, way {how}");
        let r = catch_unwind(AssertUnwindSafe(|| match how {
            0 => p.new_func_decl(name.clone(), tys.clone(), ret),
            1 => p.new_func_def(name.clone(), tys.clone(), ret),
            _ => p.new_func_def_with_param_names(name.clone(), names.iter().cloned().zip(tys.iter().cloned()).collect(), ret),
        }));
        let Some(f) = settle(&what, &say, r) else {
            self.refused = true;
            return;
        };
        ev!("{what}: {f:?}");
        self.after |= self.refused;
        let d = p.func(f);
        check!(d.name() == name, "name", "{what} gives one named {}", d.name());
        check!(canon::ty_of(d.ty()) == t, "type", "{what} gives one of type {}, not {}", d.ty(), t.to_text());
        check!(d.params().len() == if how == 0 { 0 } else { tys.len() }, "built", "{what} gives {} parameters for {}", d.params().len(), t.to_text());
        self.books[pi].insert(format!("{f:?}"), t);
        for (i, v) in d.params().iter().enumerate() {
            let y = d.dfg().value(*v);
            check!(canon::ty_of(y.ty()) == canon::ty_of(&tys[i]), "type", "{what}: parameter {i} is of type {}, not {}", y.ty(), tys[i]);
            check!(matches!(y.kind(), ValueKind::FuncArgRef(r) if r.index() == i), "built", "{what}: parameter {i} is `{}`", kind_text(y.kind()));
            check!(how != 2 || *y.name() == names[i], "name", "{what}: parameter {i} is named {:?}, not {:?}", y.name(), names[i]);
            self.books[pi].insert(format!("{f:?}.{v:?}"), canon::ty_of(&tys[i]));
        }
        if how != 0 {
            // a function can be used as soon as it is there
            let b = p.func_mut(f).dfg_mut().new_bb().basic_block(None);
            p.func_mut(f).layout_mut().bbs_mut().push_key_back(b).unwrap();
        }
    }
    fn name(&mut self, pi: usize, f: Option<Function>) {
        let mut alien = self.w.dead.clone();
        for (i, p) in self.w.progs.iter().enumerate() {
            if i != pi {
                alien.extend(globals(p));
            }
            for g in p.func_layout() {
                if Some(*g) != f {
                    alien.extend(locals(p.func(*g)));
                }
            }
        }
        let p = &mut self.w.progs[pi];
        let mut own = match f {
            Some(f) => locals(p.func(f)),
            None => globals(p),
        };
        if chance(1, 5) {
            own = alien;
        }
        if own.is_empty() {
            return;
        }
        let v = own[draw(own.len() as u32) as usize];
        let here = match f {
            Some(f) => p.func(f).dfg().values().contains_key(&v),
            None => p.borrow_values().contains_key(&v),
        };
        let name = some_name();
        let say = match named(&name) {
            _ if !here => No("a value that does not exist"),
            Some(true) => Yes(Ty::Unit),
            Some(false) => No("a bad name"),
            None => Either,
        };
        let what = format!("naming {v:?} {name:?}");
        let r = catch_unwind(AssertUnwindSafe(|| match f {
            Some(f) => p.func_mut(f).dfg_mut().set_value_name(v, name.clone()),
            None => p.set_value_name(v, name.clone()),
        }));
        if settle(&what, &say, r).is_none() {
            self.refused = true;
            return;
        }
        ev!("{what}");
        let got = match f {
            Some(f) => p.func(f).dfg().value(v).name().clone(),
            None => p.borrow_value(v).name().clone(),
        };
        check!(got == name, "name", "{what} gives {got:?}");
    }
    /// Takes something away, or changes what operands there are.
    fn change(&mut self, pi: usize, f: Option<Function>) {
        let p = &mut self.w.progs[pi];
        match (draw(8), f) {
            (0, _) => {
                // a function goes, and perhaps comes back as another one
                let free: Vec<Function> = p.func_layout().iter().copied().filter(|f| {
                    !p.funcs().values().any(|d| d.dfg().values().values().any(|v| matches!(v.kind(), ValueKind::Call(c) if c.callee() == *f)))
                }).collect();
                if free.is_empty() {
                    return;
                }
                let f = free[draw(free.len() as u32) as usize];
                let d = p.remove_func(f).unwrap();
                self.w.dead_funcs.push(f);
                let fk = format!("{f:?}");
                let old: Book = self.books[pi].extract_if(.., |k, _| k.starts_with(&fk) && (k.len() == fk.len() || k.as_bytes()[fk.len()] == b'.')).collect();
                if chance(2, 3) {
                    // into another program, if it needs nothing of this one
                    let bound = d.dfg().values().values().any(|v| matches!(v.kind(), ValueKind::Call(_)) || canon::operands(v.kind()).iter().any(|o| o.is_global()));
                    let to = if bound || chance(1, 3) { pi } else { self.w.progs.len() - 1 };
                    #[allow(deprecated)]
                    let g = self.w.progs[to].new_func(d);
                    ev!("{f:?} is {g:?} of program {to} now");
                    if to != pi {
                        probe("func_to_other_program");
                    }
                    for (k, t) in old {
                        self.books[to].insert(k.replace(&fk, &format!("{g:?}")), t);
                    }
                } else {
                    ev!("{f:?} is gone");
                    self.w.dead.extend(locals(&d));
                    self.w.dead_bbs.extend(blocks(&d));
                }
                self.refused = true;
            }
            (1, _) => {
                let v: Vec<Value> = globals(p).into_iter().filter(|v| p.borrow_value(*v).used_by().is_empty()).collect();
                if v.is_empty() {
                    return;
                }
                let v = v[draw(v.len() as u32) as usize];
                p.remove_value(v);
                ev!("{v:?} is gone");
                self.books[pi].remove(&format!("{v:?}"));
                self.w.dead.push(v);
                self.refused = true;
            }
            (2 | 3, Some(f)) => {
                let d = p.func_mut(f);
                let mut l = locals(d);
                let keep: Vec<Value> = d.params().iter().copied().chain(blocks(d).into_iter().flat_map(|b| d.dfg().bb(b).params().to_vec())).collect();
                l.retain(|v| d.dfg().value(*v).used_by().is_empty() && !keep.contains(v));
                if l.is_empty() {
                    return;
                }
                let v = l[draw(l.len() as u32) as usize];
                if let Some(b) = d.layout().parent_bb(v) {
                    d.layout_mut().bb_mut(b).insts_mut().remove(&v);
                }
                d.dfg_mut().remove_value(v);
                ev!("{v:?} is gone");
                self.books[pi].remove(&format!("{f:?}.{v:?}"));
                self.w.dead.push(v);
                self.refused = true;
            }
            (4, Some(f)) => {
                let d = p.func_mut(f);
                let mut l = blocks(d);
                l.retain(|b| d.dfg().bb(*b).used_by().is_empty() && d.layout().bbs().node(b).is_none_or(|n| n.insts().is_empty()));
                l.retain(|b| d.dfg().bb(*b).params().iter().all(|v| d.dfg().value(*v).used_by().is_empty()));
                if l.is_empty() {
                    return;
                }
                let b = l[draw(l.len() as u32) as usize];
                d.layout_mut().bbs_mut().remove(&b);
                for v in d.dfg_mut().remove_bb(b).params() {
                    self.books[pi].remove(&format!("{f:?}.{v:?}"));
                    self.w.dead.push(*v);
                }
                ev!("{b:?} is gone");
                self.w.dead_bbs.push(b);
                self.refused = true;
            }
            (5, Some(f)) => {
                // a block gets fewer parameters, or in another order, or another one
                let d = p.func_mut(f);
                let l = blocks(d);
                if l.is_empty() {
                    return;
                }
                let b = l[draw(l.len() as u32) as usize];
                let last = d.dfg().bb(b).params().last().copied();
                match draw(3) {
                    0 => d.dfg_mut().bb_mut(b).params_mut().reverse(),
                    1 => {
                        let Some(v) = last else { return };
                        if !d.dfg().value(v).used_by().is_empty() {
                            return;
                        }
                        d.dfg_mut().bb_mut(b).params_mut().pop();
                        d.dfg_mut().remove_value(v);
                        self.books[pi].remove(&format!("{f:?}.{v:?}"));
                        self.w.dead.push(v);
                    }
                    _ => {
                        let Some(v) = last else { return };
                        d.dfg_mut().bb_mut(b).params_mut().rotate_right(1);
                        ev!("{v:?} comes first");
                    }
                }
                ev!("{b:?} has other parameters");
            }
            (_, Some(f)) => {
                // the type of a value stays what it was
                let q = self.w.pool(pi, f);
                let l = locals(self.w.progs[pi].func(f));
                if l.is_empty() || q.vals.is_empty() {
                    return;
                }
                let v = l[draw(l.len() as u32) as usize];
                let to = q.vals[draw(q.vals.len() as u32) as usize].0;
                let boom = chance(1, 4);
                ev!("update {v:?} with {to:?} panic {boom}");
                let r = catch_unwind(AssertUnwindSafe(|| self.w.progs[pi].func_mut(f).dfg_mut().update_value(v, |x| {
                    match x.kind_mut() {
                        ValueKind::Binary(x) if to != v => *x.lhs_mut() = to,
                        ValueKind::Store(x) if to != v => *x.value_mut() = to,
                        ValueKind::Call(x) if !q.funcs.is_empty() => *x.callee_mut() = q.funcs[draw(q.funcs.len() as u32) as usize].0,
                        ValueKind::Load(x) if to != v => *x.src_mut() = to,
                        ValueKind::Return(x) => *x.value_mut() = None,
                        _ => {}
                    }
                    if boom {
                        std::panic::panic_any("the closure gives up".to_string());
                    }
                })));
                check!(r.is_err() == boom, "update", "an update panicked: {}", sh().panic.get());
                if boom {
                    sh().panic.len = 0;
                    fault(F::PanicEdit);
                    probe("panicked_edit");
                }
            }
            _ => {}
        }
    }
}

fn run() {
    any_heap();
    let mut r = Run { w: World::default(), books: vec![], refused: false, after: false };
    for _ in 0..range(1, 2) {
        let mut c = SMALL;
        c.funcs = pick(&[1, 2, 3]);
        c.blocks = pick(&[1, 3, 4]);
        let m = Gen::prog(c);
        r.w.progs.push(if chance(1, 3) { must_parse(&m, &crate::generate::emit(&m, &crate::generate::any_style())) } else { canon::build(&m) });
    }
    // operands of more types
    for p in &mut r.w.progs {
        for f in p.func_layout().to_vec() {
            let d = p.func_mut(f).dfg_mut();
            for _ in 0..draw(6) {
                let t = some_ty();
                if !t.is_unit() {
                    if chance(1, 2) { d.new_value().alloc(t) } else { d.new_value().undef(t) };
                }
            }
        }
        r.books.push(book(p));
    }
    for _ in 0..range(4, 40) {
        let pi = draw(r.w.progs.len() as u32) as usize;
        let f = r.w.some_fn(pi);
        match (draw(16), f) {
            (0..=7, Some(f)) => r.value(pi, f),
            (8 | 9, _) => r.global(pi),
            (10, Some(f)) => r.block(pi, f),
            (11, _) => r.func(pi),
            (12, f) => r.name(pi, if chance(2, 3) { f } else { None }),
            (_, f) => r.change(pi, f),
        }
        for (p, b) in r.w.progs.iter().zip(&r.books) {
            let now = book(p);
            for (k, t) in b {
                match now.get(k) {
                    Some(u) => check!(u == t, "type", "{k} was of type {} and is of type {} now", t.to_text(), u.to_text()),
                    None => crate::fail!("lost", "{k} is gone"),
                }
            }
            for k in now.keys() {
                check!(b.contains_key(k), "added", "{k} came from nowhere");
            }
        }
    }
    for p in &r.w.progs {
        canon::check_audit(p, "all of it");
    }
    if r.after {
        nontrivial();
    }
}
