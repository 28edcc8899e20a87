//! The reference model of a program, its canonical description and the
//! standard text rendering.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Ty {
    I32,
    Unit,
    Arr(Rc<Ty>, usize),
    Ptr(Rc<Ty>),
    Func(Vec<Ty>, Rc<Ty>),
}
impl Ty {
    pub fn ptr(&self) -> Ty {
        Ty::Ptr(Rc::new(self.clone()))
    }
    pub fn arr(&self, n: usize) -> Ty {
        Ty::Arr(Rc::new(self.clone()), n)
    }
    pub fn base(&self) -> &Ty {
        match self {
            Ty::Ptr(t) | Ty::Arr(t, _) => t,
            _ => crate::core::harness_error("no base type"),
        }
    }
    pub fn size(&self, p: usize) -> usize {
        match self {
            Ty::I32 => 4,
            Ty::Unit => 0,
            Ty::Arr(t, n) => t.size(p) * n,
            _ => p,
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
    fn put(&self, s: &mut String) {
        match self {
            Ty::I32 => s.push_str("i32"),
            Ty::Unit => s.push_str("unit"),
            Ty::Arr(t, n) => {
                s.push('[');
                t.put(s);
                let _ = write!(s, ", {n}]");
            }
            Ty::Ptr(t) => {
                s.push('*');
                t.put(s);
            }
            Ty::Func(ps, r) => {
                s.push('(');
                for (i, p) in ps.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    p.put(s);
                }
                s.push(')');
                if **r != Ty::Unit {
                    s.push_str(": ");
                    r.put(s);
                }
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Const {
    Int(i32),
    Undef(Ty),
    Zero(Ty),
    Agg(Vec<Const>),
}
impl Const {
    pub fn ty(&self) -> Ty {
        match self {
            Const::Int(_) => Ty::I32,
            Const::Undef(t) | Const::Zero(t) => t.clone(),
            Const::Agg(e) => e[0].ty().arr(e.len()),
        }
    }
    pub fn text(&self, s: &mut String) {
        match self {
            Const::Int(i) => { let _ = write!(s, "{i}"); }
            Const::Undef(_) => s.push_str("undef"),
            Const::Zero(_) => s.push_str("zeroinit"),
            Const::Agg(e) => {
                s.push('{');
                for (i, c) in e.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    c.text(s);
                }
                s.push('}');
            }
        }
    }
    pub fn canon(&self, s: &mut String) {
        match self {
            Const::Int(i) => { let _ = write!(s, "{i}"); }
            Const::Undef(t) => { let _ = write!(s, "undef:{}", t.to_text()); }
            Const::Zero(t) => { let _ = write!(s, "zero:{}", t.to_text()); }
            Const::Agg(e) => {
                s.push('{');
                for c in e {
                    c.canon(s);
                    s.push(',');
                }
                s.push('}');
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Const(Const),
    Param(usize),
    BParam(usize, usize),
    Inst(usize, usize),
    Global(usize),
}
pub const BINOPS: [&str; 17] = [
    "ne", "eq", "gt", "lt", "ge", "le", "add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr", "sar",
];
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    Alloc,
    Load(Op),
    Store(Op, Op),
    GetPtr(Op, Op),
    GetElemPtr(Op, Op),
    Bin(usize, Op, Op),
    Br(Op, usize, Vec<Op>, usize, Vec<Op>),
    Jump(usize, Vec<Op>),
    Call(usize, Vec<Op>),
    Ret(Option<Op>),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Inst {
    pub name: Option<String>,
    pub ty: Ty,
    pub kind: Kind,
}
pub type Param = (Option<String>, Ty);
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Block {
    pub name: Option<String>,
    pub params: Vec<Param>,
    pub insts: Vec<Inst>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<Param>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
}
impl Func {
    pub fn is_decl(&self) -> bool {
        self.blocks.is_empty()
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Global {
    pub name: Option<String>,
    pub init: Const,
}
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Prog {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
}

pub fn opt(n: &Option<String>) -> &str {
    n.as_deref().unwrap_or("-")
}

impl Prog {
    /// The canonical description; equal descriptions mean equal programs.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        for g in &self.globals {
            let _ = write!(s, "global {} {} = ", opt(&g.name), g.init.ty().ptr().to_text());
            g.init.canon(&mut s);
            s.push('\n');
        }
        for f in &self.funcs {
            let ptys: Vec<Ty> = f.params.iter().map(|p| p.1.clone()).collect();
            let _ = write!(s, "fn {} {}", f.name, Ty::Func(ptys, Rc::new(f.ret.clone())).to_text());
            if f.is_decl() {
                s.push_str(" decl\n");
                continue;
            }
            for p in &f.params {
                let _ = write!(s, " {}:{}", opt(&p.0), p.1.to_text());
            }
            s.push('\n');
            for b in &f.blocks {
                let _ = write!(s, " bb {}", opt(&b.name));
                for p in &b.params {
                    let _ = write!(s, " {}:{}", opt(&p.0), p.1.to_text());
                }
                s.push('\n');
                for i in &b.insts {
                    let _ = write!(s, "  {} {} ", opt(&i.name), i.ty.to_text());
                    i.kind.canon(&mut s);
                    s.push('\n');
                }
            }
        }
        s
    }
    /// Number of instructions over all functions.
    pub fn size(&self) -> usize {
        self.funcs.iter().flat_map(|f| &f.blocks).map(|b| b.insts.len()).sum()
    }
    /// The standard text rendering with generated names for unnamed parts.
    pub fn print(&self) -> String {
        Printer { p: self, next: 0, globals: BTreeSet::new(), bbs: BTreeSet::new(), names: BTreeMap::new(), out: String::new() }.run()
    }
}

pub fn canon_op(o: &Op, s: &mut String) {
    let _ = match o {
        Op::Const(c) => return c.canon(s),
        Op::Param(i) => write!(s, "p{i}"),
        Op::BParam(b, i) => write!(s, "b{b}p{i}"),
        Op::Inst(b, i) => write!(s, "b{b}i{i}"),
        Op::Global(g) => write!(s, "g{g}"),
    };
}
fn canon_ops(v: &[Op], s: &mut String) {
    s.push('(');
    for o in v {
        canon_op(o, s);
        s.push(' ');
    }
    s.push(')');
}
impl Kind {
    pub fn canon(&self, s: &mut String) {
        match self {
            Kind::Alloc => s.push_str("alloc"),
            Kind::Load(a) => { s.push_str("load "); canon_op(a, s) }
            Kind::Store(a, b) => { s.push_str("store "); canon_op(a, s); s.push_str(" -> "); canon_op(b, s) }
            Kind::GetPtr(a, b) => { s.push_str("getptr "); canon_op(a, s); s.push(' '); canon_op(b, s) }
            Kind::GetElemPtr(a, b) => { s.push_str("getelemptr "); canon_op(a, s); s.push(' '); canon_op(b, s) }
            Kind::Bin(o, a, b) => { s.push_str(BINOPS[*o]); s.push(' '); canon_op(a, s); s.push(' '); canon_op(b, s) }
            Kind::Br(c, t, ta, f, fa) => {
                s.push_str("br ");
                canon_op(c, s);
                let _ = write!(s, " b{t}");
                canon_ops(ta, s);
                let _ = write!(s, " b{f}");
                canon_ops(fa, s);
            }
            Kind::Jump(t, a) => { let _ = write!(s, "jump b{t}"); canon_ops(a, s) }
            Kind::Call(f, a) => { let _ = write!(s, "call f{f}"); canon_ops(a, s) }
            Kind::Ret(None) => s.push_str("ret"),
            Kind::Ret(Some(v)) => { s.push_str("ret "); canon_op(v, s) }
        }
    }
    pub fn is_term(&self) -> bool {
        matches!(self, Kind::Br(..) | Kind::Jump(..) | Kind::Ret(_))
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Key {
    Func(usize),
    Bb(usize, usize),
    Global(usize),
    Param(usize, usize),
    BParam(usize, usize, usize),
    Inst(usize, usize, usize),
}
struct Printer<'a> {
    p: &'a Prog,
    next: usize,
    globals: BTreeSet<String>,
    bbs: BTreeSet<String>,
    names: BTreeMap<Key, String>,
    out: String,
}
impl Printer<'_> {
    fn temp(&mut self, bb: bool) -> String {
        loop {
            let n = format!("%{}", self.next);
            self.next += 1;
            let set = if bb { &mut self.bbs } else { &mut self.globals };
            if set.insert(n.clone()) {
                return n;
            }
            crate::core::probe("temp_skips_used");
        }
    }
    fn name(&mut self, k: Key, want: Option<&str>) -> String {
        if let Some(n) = self.names.get(&k) {
            return n.clone();
        }
        let bb = matches!(k, Key::Bb(..));
        let n = match want {
            None => self.temp(bb),
            Some(w) => {
                let set = if bb { &mut self.bbs } else { &mut self.globals };
                if set.insert(w.to_string()) {
                    w.to_string()
                } else if w[1..].chars().all(|c| c.is_numeric()) {
                    self.temp(bb)
                } else {
                    crate::core::probe("name_collision");
                    (0..).map(|i| format!("{w}_{i}")).find(|n| set.insert(n.clone())).unwrap()
                }
            }
        };
        self.names.insert(k, n.clone());
        n
    }
    fn func(&mut self, i: usize) -> String {
        let p = self.p;
        self.name(Key::Func(i), Some(&p.funcs[i].name))
    }
    fn op(&mut self, f: usize, o: &Op) {
        let p = self.p;
        let n = match o {
            Op::Const(c) => return c.text(&mut self.out),
            Op::Param(i) => self.name(Key::Param(f, *i), p.funcs[f].params[*i].0.as_deref()),
            Op::BParam(b, i) => self.name(Key::BParam(f, *b, *i), p.funcs[f].blocks[*b].params[*i].0.as_deref()),
            Op::Inst(b, i) => self.name(Key::Inst(f, *b, *i), p.funcs[f].blocks[*b].insts[*i].name.as_deref()),
            Op::Global(g) => self.name(Key::Global(*g), p.globals[*g].name.as_deref()),
        };
        self.out += &n;
    }
    fn ops(&mut self, f: usize, v: &[Op], always: bool) {
        if v.is_empty() && !always {
            return;
        }
        self.out.push('(');
        for (i, o) in v.iter().enumerate() {
            if i > 0 {
                self.out += ", ";
            }
            self.op(f, o);
        }
        self.out.push(')');
    }
    fn target(&mut self, f: usize, b: usize, a: &[Op]) {
        let p = self.p;
        let n = self.name(Key::Bb(f, b), p.funcs[f].blocks[b].name.as_deref());
        self.out += &n;
        self.ops(f, a, false);
    }
    fn run(mut self) -> String {
        let p = self.p;
        for (i, g) in p.globals.iter().enumerate() {
            let n = self.name(Key::Global(i), g.name.as_deref());
            let _ = write!(self.out, "global {n} = alloc {}, ", g.init.ty().to_text());
            g.init.text(&mut self.out);
            self.out.push('\n');
        }
        if !p.globals.is_empty() {
            self.out.push('\n');
        }
        for (fi, f) in p.funcs.iter().enumerate() {
            if fi > 0 {
                self.out.push('\n');
            }
            self.out += if f.is_decl() { "decl " } else { "fun " };
            let n = self.func(fi);
            self.out += &n;
            self.out.push('(');
            for (i, (pn, pt)) in f.params.iter().enumerate() {
                if i > 0 {
                    self.out += ", ";
                }
                if !f.is_decl() {
                    let n = self.name(Key::Param(fi, i), pn.as_deref());
                    self.out += &n;
                    self.out += ": ";
                }
                self.out += &pt.to_text();
            }
            self.out.push(')');
            if f.ret != Ty::Unit {
                let _ = write!(self.out, ": {}", f.ret.to_text());
            }
            if f.is_decl() {
                self.out.push('\n');
                continue;
            }
            self.out += " {\n";
            for (bi, b) in f.blocks.iter().enumerate() {
                if bi > 0 {
                    self.out.push('\n');
                }
                let n = self.name(Key::Bb(fi, bi), b.name.as_deref());
                self.out += &n;
                if !b.params.is_empty() {
                    self.out.push('(');
                    for (i, (pn, pt)) in b.params.iter().enumerate() {
                        if i > 0 {
                            self.out += ", ";
                        }
                        let n = self.name(Key::BParam(fi, bi, i), pn.as_deref());
                        let _ = write!(self.out, "{n}: {}", pt.to_text());
                    }
                    self.out.push(')');
                }
                self.out += ":\n";
                for (ii, inst) in b.insts.iter().enumerate() {
                    self.out += "  ";
                    if inst.ty != Ty::Unit {
                        let n = self.name(Key::Inst(fi, bi, ii), inst.name.as_deref());
                        let _ = write!(self.out, "{n} = ");
                    }
                    self.inst(fi, inst);
                    self.out.push('\n');
                }
            }
            self.out += "}\n";
            // names of blocks and values are free again after the function
            self.bbs.clear();
            for (k, n) in &self.names {
                if matches!(k, Key::Param(..) | Key::BParam(..) | Key::Inst(..)) {
                    self.globals.remove(n);
                }
            }
            self.names.retain(|k, _| matches!(k, Key::Func(_) | Key::Global(_)));
        }
        self.out
    }
    fn inst(&mut self, f: usize, i: &Inst) {
        match &i.kind {
            Kind::Alloc => { let _ = write!(self.out, "alloc {}", i.ty.base().to_text()); }
            Kind::Load(a) => { self.out += "load "; self.op(f, a) }
            Kind::Store(a, b) => { self.out += "store "; self.op(f, a); self.out += ", "; self.op(f, b) }
            Kind::GetPtr(a, b) => { self.out += "getptr "; self.op(f, a); self.out += ", "; self.op(f, b) }
            Kind::GetElemPtr(a, b) => { self.out += "getelemptr "; self.op(f, a); self.out += ", "; self.op(f, b) }
            Kind::Bin(o, a, b) => { self.out += BINOPS[*o]; self.out.push(' '); self.op(f, a); self.out += ", "; self.op(f, b) }
            Kind::Br(c, t, ta, e, ea) => {
                self.out += "br ";
                self.op(f, c);
                self.out += ", ";
                self.target(f, *t, ta);
                self.out += ", ";
                self.target(f, *e, ea);
            }
            Kind::Jump(t, a) => { self.out += "jump "; self.target(f, *t, a) }
            Kind::Call(c, a) => {
                let n = self.func(*c);
                let _ = write!(self.out, "call {n}");
                self.ops(f, a, true);
            }
            Kind::Ret(v) => {
                self.out += "ret";
                if let Some(v) = v {
                    self.out.push(' ');
                    self.op(f, v);
                }
            }
        }
    }
}
