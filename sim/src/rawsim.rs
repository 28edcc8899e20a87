//! Reads raw programs of the C interface through their pointers alone.
use crate::model::{canon_op, Const, Op, Ty, BINOPS};
use libkoopa_sim as lk;
use lk::{RawProgram, RawSlice, RawSliceItemKind as SK, RawTypeKind, RawValueData, RawValueKind as K};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CStr;
use std::fmt::Write;
use std::rc::Rc;

type P = usize;

fn bad(m: String) -> ! {
    crate::fail!("raw", "{m}")
}
fn items(s: &RawSlice, kind: u32, what: &str) -> Vec<P> {
    let k = match s.kind { SK::Unknown => 0, SK::Type => 1, SK::Function => 2, SK::BasicBlock => 3, SK::Value => 4 };
    if k != kind && !(s.len == 0 && k == 0) {
        bad(format!("{what} is a slice of kind {k}, not {kind}"));
    }
    let p = s.buffer as *const P;
    (0..s.len as usize).map(|i| unsafe {
        let x = *p.add(i);
        if x == 0 || x % 4 != 0 {
            bad(format!("{what} holds the pointer {x:#x}"));
        }
        x
    }).collect()
}
pub fn name(p: *const std::os::raw::c_char) -> Option<String> {
    if p.is_null() { None } else { Some(unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()) }
}
fn show_name(p: *const std::os::raw::c_char) -> String {
    name(p).unwrap_or_else(|| "-".into())
}
pub fn ty(p: lk::RawType) -> Ty {
    match unsafe { &*p } {
        RawTypeKind::Int32 => Ty::I32,
        RawTypeKind::Unit => Ty::Unit,
        RawTypeKind::Array(b, n) => Ty::Arr(Rc::new(ty(*b)), *n),
        RawTypeKind::Pointer(b) => Ty::Ptr(Rc::new(ty(*b))),
        RawTypeKind::Function(ps, r) => Ty::Func(items(ps, 1, "parameter types").iter().map(|p| ty(*p as lk::RawType)).collect(), Rc::new(ty(*r))),
    }
}
fn val(p: P) -> &'static RawValueData {
    unsafe { &*(p as *const RawValueData) }
}

#[derive(Default)]
struct Reader {
    names: BTreeMap<P, Op>,
    bbs: BTreeMap<P, usize>,
    funcs: BTreeMap<P, usize>,
    /// user -> used values
    users: BTreeMap<P, BTreeSet<P>>,
    bb_users: BTreeMap<P, BTreeSet<P>>,
    listed: BTreeMap<P, Vec<P>>,
    seen: BTreeSet<P>,
    /// values of the current function that are not in any block
    out: String,
}

impl Reader {
    fn constant(&mut self, p: P) -> Option<Const> {
        self.visit(p);
        let v = val(p);
        Some(match &v.kind {
            K::Integer(i) => Const::Int(i.value),
            K::ZeroInit => Const::Zero(ty(v.ty)),
            K::Undef => Const::Undef(ty(v.ty)),
            K::Aggregate(a) => {
                let mut e = Vec::new();
                for x in items(&a.elems, 4, "elements") {
                    self.uses(p, x);
                    e.push(self.constant(x)?);
                }
                let c = Const::Agg(e);
                if c.ty() != ty(v.ty) {
                    bad(format!("aggregate with the type {}", ty(v.ty).to_text()));
                }
                c
            }
            _ => return None,
        })
    }
    fn visit(&mut self, p: P) {
        if self.seen.insert(p) {
            let l = items(&val(p).used_by, 4, "users of a value");
            self.listed.insert(p, l);
        }
    }
    fn uses(&mut self, user: P, used: P) {
        self.visit(used);
        self.users.entry(used).or_default().insert(user);
    }
    fn op(&mut self, user: P, p: P) {
        if p == 0 {
            bad("null operand".into());
        }
        self.uses(user, p);
        let o = match self.names.get(&p) {
            Some(o) => o.clone(),
            None => match self.constant(p) {
                Some(c) => Op::Const(c),
                None => bad(format!("operand of kind {} that is nowhere in the function", std::mem::discriminant(&val(p).kind) == std::mem::discriminant(&K::Alloc))),
            },
        };
        canon_op(&o, &mut self.out);
    }
    fn ops(&mut self, user: P, s: &RawSlice) {
        self.out.push('(');
        for x in items(s, 4, "arguments") {
            self.op(user, x);
            self.out.push(' ');
        }
        self.out.push(')');
    }
    fn target(&mut self, user: P, b: P) {
        self.bb_users.entry(b).or_default().insert(user);
        match self.bbs.get(&b) {
            Some(i) => { let _ = write!(self.out, " b{i}"); }
            None => bad("branch to a block that is not in the function".into()),
        }
    }
    fn kind(&mut self, p: P) {
        let v = val(p);
        match &v.kind {
            K::Alloc => self.out += "alloc",
            K::Load(x) => { self.out += "load "; self.op(p, x.src as P) }
            K::Store(x) => { self.out += "store "; self.op(p, x.value as P); self.out += " -> "; self.op(p, x.dest as P) }
            K::GetPtr(x) => { self.out += "getptr "; self.op(p, x.src as P); self.out += " "; self.op(p, x.index as P) }
            K::GetElemPtr(x) => { self.out += "getelemptr "; self.op(p, x.src as P); self.out += " "; self.op(p, x.index as P) }
            K::Binary(x) => {
                let o = unsafe { *(&x.op as *const _ as *const u32) };
                if o as usize >= BINOPS.len() {
                    bad(format!("binary operator {o}"));
                }
                self.out += BINOPS[o as usize];
                self.out += " ";
                self.op(p, x.lhs as P);
                self.out += " ";
                self.op(p, x.rhs as P);
            }
            K::Branch(x) => {
                self.out += "br ";
                self.op(p, x.cond as P);
                self.target(p, x.true_bb as P);
                self.ops(p, &x.true_args);
                self.target(p, x.false_bb as P);
                self.ops(p, &x.false_args);
            }
            K::Jump(x) => { self.out += "jump"; self.target(p, x.target as P); self.ops(p, &x.args) }
            K::Call(x) => {
                let _ = match self.funcs.get(&(x.callee as P)) {
                    Some(i) => write!(self.out, "call f{i}"),
                    None => bad("call of a function that is not in the program".into()),
                };
                self.ops(p, &x.args);
            }
            K::Return(x) => {
                self.out += "ret";
                if !x.value.is_null() {
                    self.out += " ";
                    self.op(p, x.value as P);
                }
            }
            _ => bad("a value that is no instruction in a block".into()),
        }
    }
}

/// The canonical description of a raw program, in the form of the model.
/// Also checks that every value and block lists exactly its users.
pub fn canon(raw: &RawProgram) -> String {
    let mut r = Reader::default();
    let globals = items(&raw.values, 4, "globals");
    let funcs = items(&raw.funcs, 2, "functions");
    for (i, g) in globals.iter().enumerate() {
        r.names.insert(*g, Op::Global(i));
        r.visit(*g);
    }
    for (i, f) in funcs.iter().enumerate() {
        if r.funcs.insert(*f, i).is_some() {
            bad("a function appears twice".into());
        }
    }
    for g in &globals {
        let v = val(*g);
        let _ = write!(r.out, "global {} {} = ", show_name(v.name), ty(v.ty).to_text());
        let K::GlobalAlloc(a) = &v.kind else { bad("a global value of another kind".into()) };
        r.uses(*g, a.init as P);
        match r.constant(a.init as P) {
            Some(c) => {
                if c.ty().ptr() != ty(v.ty) {
                    bad("a global whose type does not match its initializer".into());
                }
                c.canon(&mut r.out)
            }
            None => bad("an initializer that is no constant".into()),
        }
        r.out.push('\n');
    }
    for f in &funcs {
        let d = unsafe { &*(*f as *const lk::RawFunctionData) };
        let _ = write!(r.out, "fn {} {}", show_name(d.name), ty(d.ty).to_text());
        let bbs = items(&d.bbs, 3, "blocks");
        let params = items(&d.params, 4, "parameters");
        if bbs.is_empty() {
            r.out += " decl\n";
            continue;
        }
        for (i, p) in params.iter().enumerate() {
            let v = val(*p);
            match &v.kind {
                K::FuncArgRef(a) if a.index == i => {}
                _ => bad(format!("parameter {i} of a function is something else")),
            }
            r.names.insert(*p, Op::Param(i));
            r.visit(*p);
            let _ = write!(r.out, " {}:{}", show_name(v.name), ty(v.ty).to_text());
        }
        r.out.push('\n');
        r.bbs.clear();
        r.bb_users.clear();
        for (b, p) in bbs.iter().enumerate() {
            r.bbs.insert(*p, b);
            let d = unsafe { &*(*p as *const lk::RawBasicBlockData) };
            for (i, q) in items(&d.params, 4, "parameters of a block").iter().enumerate() {
                match &val(*q).kind {
                    K::BlockArgRef(a) if a.index == i => {}
                    _ => bad(format!("parameter {i} of a block is something else")),
                }
                r.names.insert(*q, Op::BParam(b, i));
                r.visit(*q);
            }
            for (i, q) in items(&d.insts, 4, "instructions").iter().enumerate() {
                r.names.insert(*q, Op::Inst(b, i));
                r.visit(*q);
            }
        }
        for p in &bbs {
            let d = unsafe { &*(*p as *const lk::RawBasicBlockData) };
            let _ = write!(r.out, " bb {}", show_name(d.name));
            for q in items(&d.params, 4, "parameters of a block") {
                let v = val(q);
                let _ = write!(r.out, " {}:{}", show_name(v.name), ty(v.ty).to_text());
            }
            r.out.push('\n');
            for q in items(&d.insts, 4, "instructions") {
                let v = val(q);
                let _ = write!(r.out, "  {} {} ", show_name(v.name), ty(v.ty).to_text());
                r.kind(q);
                r.out.push('\n');
            }
        }
        for p in &bbs {
            let d = unsafe { &*(*p as *const lk::RawBasicBlockData) };
            let l = items(&d.used_by, 4, "users of a block");
            let set: BTreeSet<P> = l.iter().copied().collect();
            let want = r.bb_users.get(p).cloned().unwrap_or_default();
            if set.len() != l.len() || set != want {
                bad(format!("block {} lists {} users instead of {}", show_name(d.name), l.len(), want.len()));
            }
        }
    }
    for (p, l) in &r.listed {
        let set: BTreeSet<P> = l.iter().copied().collect();
        let want = r.users.get(p).cloned().unwrap_or_default();
        if set.len() != l.len() || set != want {
            let mut s = String::new();
            if let Some(o) = r.names.get(p) {
                canon_op(o, &mut s);
            }
            bad(format!("value {s} {} lists {} users instead of {}", show_name(val(*p).name), l.len(), want.len()));
        }
    }
    r.out
}
