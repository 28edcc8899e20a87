//! Describes programs of the real library in the form of the reference model,
//! checks their use lists, and builds real programs through the public API.
use crate::model::*;
use koopa::ir::builder_traits::*;
use koopa::ir::{self, BasicBlock, BinaryOp, Function, Program, Type, TypeKind, Value, ValueKind};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write;
use std::hash::BuildHasherDefault;
use std::rc::Rc;

pub type FixedMap<K, V> = HashMap<K, V, BuildHasherDefault<DefaultHasher>>;

pub fn ty_of(t: &Type) -> Ty {
    match t.kind() {
        TypeKind::Int32 => Ty::I32,
        TypeKind::Unit => Ty::Unit,
        TypeKind::Array(b, n) => Ty::Arr(Rc::new(ty_of(b)), *n),
        TypeKind::Pointer(b) => Ty::Ptr(Rc::new(ty_of(b))),
        TypeKind::Function(ps, r) => Ty::Func(ps.iter().map(ty_of).collect(), Rc::new(ty_of(r))),
    }
}
pub fn to_type(t: &Ty) -> Type {
    match t {
        Ty::I32 => Type::get_i32(),
        Ty::Unit => Type::get_unit(),
        Ty::Arr(b, n) => Type::get_array(to_type(b), *n),
        Ty::Ptr(b) => Type::get_pointer(to_type(b)),
        Ty::Func(ps, r) => Type::get_function(ps.iter().map(to_type).collect(), to_type(r)),
    }
}
pub const OPS: [BinaryOp; 17] = [
    BinaryOp::NotEq, BinaryOp::Eq, BinaryOp::Gt, BinaryOp::Lt, BinaryOp::Ge, BinaryOp::Le, BinaryOp::Add, BinaryOp::Sub,
    BinaryOp::Mul, BinaryOp::Div, BinaryOp::Mod, BinaryOp::And, BinaryOp::Or, BinaryOp::Xor, BinaryOp::Shl,
    BinaryOp::Shr, BinaryOp::Sar,
];

struct Canon<'a> {
    p: &'a Program,
    names: FixedMap<Value, String>,
    bbs: FixedMap<BasicBlock, usize>,
    funcs: FixedMap<Function, usize>,
}
impl Canon<'_> {
    fn constant(&self, d: &ir::entities::ValueData, get: &dyn Fn(Value, &mut String), s: &mut String) -> bool {
        match d.kind() {
            ValueKind::Integer(i) => { let _ = write!(s, "{}", i.value()); }
            ValueKind::Undef(_) => { let _ = write!(s, "undef:{}", ty_of(d.ty()).to_text()); }
            ValueKind::ZeroInit(_) => { let _ = write!(s, "zero:{}", ty_of(d.ty()).to_text()); }
            ValueKind::Aggregate(a) => {
                s.push('{');
                for e in a.elems() {
                    get(*e, s);
                    s.push(',');
                }
                s.push('}');
            }
            _ => return false,
        }
        true
    }
    fn global(&self, v: Value, s: &mut String) {
        if let Some(n) = self.names.get(&v) {
            s.push_str(n);
            return;
        }
        let values = self.p.borrow_values();
        match values.get(&v) {
            Some(d) => if !self.constant(d, &|e, s| self.global(e, s), s) { s.push_str("?global") },
            None => s.push_str("?missing"),
        }
    }
    fn val(&self, f: &ir::FunctionData, v: Value, s: &mut String) {
        if v.is_global() {
            return self.global(v, s);
        }
        if let Some(n) = self.names.get(&v) {
            s.push_str(n);
            return;
        }
        match f.dfg().values().get(&v) {
            Some(d) => if !self.constant(d, &|e, s| self.val(f, e, s), s) { s.push_str("?local") },
            None => s.push_str("?missing"),
        }
    }
    fn vals(&self, f: &ir::FunctionData, v: &[Value], s: &mut String) {
        s.push('(');
        for x in v {
            self.val(f, *x, s);
            s.push(' ');
        }
        s.push(')');
    }
    fn bb(&self, b: BasicBlock) -> String {
        self.bbs.get(&b).map_or("?block".into(), |i| format!("b{i}"))
    }
    fn kind(&self, f: &ir::FunctionData, k: &ValueKind, s: &mut String) {
        match k {
            ValueKind::Alloc(_) => s.push_str("alloc"),
            ValueKind::Load(l) => { s.push_str("load "); self.val(f, l.src(), s) }
            ValueKind::Store(x) => { s.push_str("store "); self.val(f, x.value(), s); s.push_str(" -> "); self.val(f, x.dest(), s) }
            ValueKind::GetPtr(x) => { s.push_str("getptr "); self.val(f, x.src(), s); s.push(' '); self.val(f, x.index(), s) }
            ValueKind::GetElemPtr(x) => { s.push_str("getelemptr "); self.val(f, x.src(), s); s.push(' '); self.val(f, x.index(), s) }
            ValueKind::Binary(x) => {
                s.push_str(BINOPS[OPS.iter().position(|o| *o == x.op()).unwrap()]);
                s.push(' ');
                self.val(f, x.lhs(), s);
                s.push(' ');
                self.val(f, x.rhs(), s);
            }
            ValueKind::Branch(x) => {
                s.push_str("br ");
                self.val(f, x.cond(), s);
                let _ = write!(s, " {}", self.bb(x.true_bb()));
                self.vals(f, x.true_args(), s);
                let _ = write!(s, " {}", self.bb(x.false_bb()));
                self.vals(f, x.false_args(), s);
            }
            ValueKind::Jump(x) => { let _ = write!(s, "jump {}", self.bb(x.target())); self.vals(f, x.args(), s) }
            ValueKind::Call(x) => {
                let _ = match self.funcs.get(&x.callee()) { Some(i) => write!(s, "call f{i}"), None => write!(s, "call ?func") };
                self.vals(f, x.args(), s);
            }
            ValueKind::Return(x) => {
                s.push_str("ret");
                if let Some(v) = x.value() {
                    s.push(' ');
                    self.val(f, v, s);
                }
            }
            _ => s.push_str("?kind"),
        }
    }
}

/// The canonical description of a real program.
pub fn canon(p: &Program) -> String {
    let mut c = Canon { p, names: FixedMap::default(), bbs: FixedMap::default(), funcs: FixedMap::default() };
    for (i, v) in p.inst_layout().iter().enumerate() {
        c.names.insert(*v, format!("g{i}"));
    }
    for (i, f) in p.func_layout().iter().enumerate() {
        c.funcs.insert(*f, i);
    }
    let mut s = String::new();
    for v in p.inst_layout() {
        let d = p.borrow_value(*v);
        let _ = write!(s, "global {} {} = ", opt(d.name()), ty_of(d.ty()).to_text());
        match d.kind() {
            ValueKind::GlobalAlloc(a) => c.global(a.init(), &mut s),
            _ => s.push_str("?kind"),
        }
        s.push('\n');
    }
    for f in p.func_layout() {
        let f = p.func(*f);
        let _ = write!(s, "fn {} {}", f.name(), ty_of(f.ty()).to_text());
        if f.layout().entry_bb().is_none() {
            s.push_str(" decl\n");
            continue;
        }
        for (i, v) in f.params().iter().enumerate() {
            let d = f.dfg().value(*v);
            let _ = write!(s, " {}:{}", opt(d.name()), ty_of(d.ty()).to_text());
            match d.kind() {
                ValueKind::FuncArgRef(a) if a.index() == i => {}
                _ => s.push_str("?param"),
            }
            c.names.insert(*v, format!("p{i}"));
        }
        s.push('\n');
        for (bi, (b, node)) in f.layout().bbs().iter().enumerate() {
            c.bbs.insert(*b, bi);
            for (i, v) in f.dfg().bb(*b).params().iter().enumerate() {
                c.names.insert(*v, format!("b{bi}p{i}"));
            }
            for (i, v) in node.insts().keys().enumerate() {
                c.names.insert(*v, format!("b{bi}i{i}"));
            }
        }
        for (b, node) in f.layout().bbs() {
            let bd = f.dfg().bb(*b);
            let _ = write!(s, " bb {}", opt(bd.name()));
            for (i, v) in bd.params().iter().enumerate() {
                let d = f.dfg().value(*v);
                let _ = write!(s, " {}:{}", opt(d.name()), ty_of(d.ty()).to_text());
                match d.kind() {
                    ValueKind::BlockArgRef(a) if a.index() == i => {}
                    _ => s.push_str("?param"),
                }
            }
            s.push('\n');
            for v in node.insts().keys() {
                let d = f.dfg().value(*v);
                let _ = write!(s, "  {} {} ", opt(d.name()), ty_of(d.ty()).to_text());
                c.kind(f, d.kind(), &mut s);
                s.push('\n');
            }
        }
    }
    s
}

/// Checks that users and operands agree everywhere in the program and that
/// the parent map of every layout matches its lists.
/// The operands of a value, read from its fields.
pub fn operands(k: &ValueKind) -> Vec<Value> {
    match k {
        ValueKind::Aggregate(x) => x.elems().to_vec(),
        ValueKind::GlobalAlloc(x) => vec![x.init()],
        ValueKind::Load(x) => vec![x.src()],
        ValueKind::Store(x) => vec![x.value(), x.dest()],
        ValueKind::GetPtr(x) => vec![x.src(), x.index()],
        ValueKind::GetElemPtr(x) => vec![x.src(), x.index()],
        ValueKind::Binary(x) => vec![x.lhs(), x.rhs()],
        ValueKind::Branch(x) => [&[x.cond()], x.true_args(), x.false_args()].concat(),
        ValueKind::Jump(x) => x.args().to_vec(),
        ValueKind::Call(x) => x.args().to_vec(),
        ValueKind::Return(x) => x.value().into_iter().collect(),
        _ => vec![],
    }
}
/// The blocks a value refers to, read from its fields.
pub fn targets(k: &ValueKind) -> Vec<BasicBlock> {
    match k {
        ValueKind::Branch(x) => vec![x.true_bb(), x.false_bb()],
        ValueKind::Jump(x) => vec![x.target()],
        _ => vec![],
    }
}
/// Do the iterators over operands and blocks deliver what the fields hold?
fn audit_uses(k: &ValueKind) -> bool {
    let set = |v: Vec<Value>| v.iter().map(|u| format!("{u:?}")).collect::<BTreeSet<_>>();
    let bset = |v: Vec<BasicBlock>| v.iter().map(|u| format!("{u:?}")).collect::<BTreeSet<_>>();
    set(operands(k)) == set(k.value_uses().collect()) && bset(targets(k)) == bset(k.bb_uses().collect())
}

pub fn audit(p: &Program) -> Result<(), String> {
    let mut bad: BTreeSet<String> = BTreeSet::new();
    let globals = p.borrow_values();
    let mut guses: FixedMap<Value, BTreeSet<String>> = FixedMap::default();
    for (v, d) in globals.iter() {
        for u in operands(d.kind()) {
            if !globals.contains_key(&u) {
                bad.insert(format!("global {v:?} refers to the missing value {u:?}"));
            }
            guses.entry(u).or_default().insert(format!("{v:?}"));
        }
    }
    if p.funcs().len() != p.func_layout().len() || p.func_layout().iter().any(|f| !p.funcs().contains_key(f)) {
        bad.insert("function list and function map differ".into());
    }
    for f in p.func_layout() {
        let Some(f) = p.funcs().get(f) else { continue };
        let dfg = f.dfg();
        let mut uses: FixedMap<Value, BTreeSet<String>> = FixedMap::default();
        let mut buses: FixedMap<BasicBlock, BTreeSet<String>> = FixedMap::default();
        for (v, d) in dfg.values() {
            if !audit_uses(d.kind()) {
                bad.insert(format!("the uses of value {v:?} of {} are not its operands", f.name()));
            }
            for u in operands(d.kind()) {
                if u.is_global() {
                    if !globals.contains_key(&u) {
                        bad.insert(format!("value {v:?} of {} refers to the missing global {u:?}", f.name()));
                    }
                    guses.entry(u).or_default().insert(format!("{v:?}"));
                } else {
                    if !dfg.values().contains_key(&u) {
                        bad.insert(format!("value {v:?} of {} refers to the missing value {u:?}", f.name()));
                    }
                    uses.entry(u).or_default().insert(format!("{v:?}"));
                }
            }
            for b in targets(d.kind()) {
                if !dfg.bbs().contains_key(&b) {
                    bad.insert(format!("value {v:?} of {} refers to the missing block {b:?}", f.name()));
                }
                buses.entry(b).or_default().insert(format!("{v:?}"));
            }
        }
        for (v, d) in dfg.values() {
            let have: BTreeSet<String> = d.used_by().iter().map(|u| format!("{u:?}")).collect();
            let want = uses.remove(v).unwrap_or_default();
            if have != want {
                bad.insert(format!("value {v:?} of {} lists users {have:?}, its users are {want:?}", f.name()));
            }
        }
        for (b, d) in dfg.bbs() {
            let have: BTreeSet<String> = d.used_by().iter().map(|u| format!("{u:?}")).collect();
            let want = buses.remove(b).unwrap_or_default();
            if have != want {
                bad.insert(format!("block {b:?} of {} lists users {have:?}, its users are {want:?}", f.name()));
            }
            for q in d.params() {
                if !dfg.values().contains_key(q) {
                    bad.insert(format!("parameter {q:?} of block {b:?} is missing"));
                }
            }
        }
        for q in f.params() {
            if !dfg.values().contains_key(q) {
                bad.insert(format!("parameter {q:?} of {} is missing", f.name()));
            }
        }
        for (b, node) in f.layout().bbs() {
            if !dfg.bbs().contains_key(b) {
                bad.insert(format!("layout of {} holds the missing block {b:?}", f.name()));
            }
            for v in node.insts().keys() {
                if !dfg.values().contains_key(v) {
                    bad.insert(format!("layout of {} holds the missing value {v:?}", f.name()));
                }
                if f.layout().parent_bb(*v) != Some(*b) {
                    bad.insert(format!("{v:?} is in {b:?} but its parent is {:?}", f.layout().parent_bb(*v)));
                }
            }
        }
    }
    for (v, d) in globals.iter() {
        let have: BTreeSet<String> = d.used_by().iter().map(|u| format!("{u:?}")).collect();
        let want = guses.remove(v).unwrap_or_default();
        if have != want {
            bad.insert(format!("global {v:?} lists users {have:?}, its users are {want:?}"));
        }
    }
    match bad.into_iter().next() {
        Some(m) => Err(m),
        None => Ok(()),
    }
}

/// Checks an audit result of a program that came from the named operation.
pub fn check_audit(p: &Program, what: &str) {
    if let Err(m) = audit(p) {
        crate::fail!("uses", "after {what}: {m}");
    }
}

/// Builds the program through the public interface of the library, in one of
/// several orders and with one of several sets of calls.
pub fn build(p: &Prog) -> Program {
    let how = if crate::core::chance(1, 2) { 0 } else { crate::core::draw(64) };
    let mut out = Program::new();
    let mut globals = Vec::new();
    for g in &p.globals {
        let init = gconst(&mut out, &g.init);
        let v = out.new_value().global_alloc(init);
        if let Some(n) = &g.name {
            out.set_value_name(v, Some(n.clone()));
        }
        globals.push(v);
    }
    let mut funcs = Vec::new();
    for f in &p.funcs {
        let tys = || f.params.iter().map(|p| to_type(&p.1)).collect();
        let first_name = if how & 1 != 0 { "@to_be_named".to_string() } else { f.name.clone() };
        let fun = if f.is_decl() {
            out.new_func_decl(first_name, tys(), to_type(&f.ret))
        } else if how & 1 != 0 {
            let fun = out.new_func_def(first_name, tys(), to_type(&f.ret));
            let d = out.func_mut(fun);
            for (v, (n, _)) in d.params().to_vec().into_iter().zip(&f.params) {
                d.dfg_mut().set_value_name(v, n.clone());
            }
            fun
        } else {
            out.new_func_def_with_param_names(
                f.name.clone(), f.params.iter().map(|(n, t)| (n.clone(), to_type(t))).collect(), to_type(&f.ret))
        };
        if how & 1 != 0 {
            out.func_mut(fun).set_name(f.name.clone());
        }
        funcs.push(fun);
    }
    let mut todo: Vec<_> = p.funcs.iter().zip(&funcs).filter(|(f, _)| !f.is_decl()).collect();
    if how & 2 != 0 {
        todo.reverse();
    }
    for (f, &fun) in todo {
        fill(&mut out, fun, f, &globals, &funcs, how >> 2);
    }
    out
}
fn gconst(p: &mut Program, c: &Const) -> Value {
    match c {
        Const::Int(i) => p.new_value().integer(*i),
        Const::Undef(t) => p.new_value().undef(to_type(t)),
        Const::Zero(t) => p.new_value().zero_init(to_type(t)),
        Const::Agg(e) => {
            let v = e.iter().map(|c| gconst(p, c)).collect();
            p.new_value().aggregate(v)
        }
    }
}
pub fn lconst(f: &mut ir::FunctionData, c: &Const) -> Value {
    match c {
        Const::Int(i) => f.dfg_mut().new_value().integer(*i),
        Const::Undef(t) => f.dfg_mut().new_value().undef(to_type(t)),
        Const::Zero(t) => f.dfg_mut().new_value().zero_init(to_type(t)),
        Const::Agg(e) => {
            let v = e.iter().map(|c| lconst(f, c)).collect();
            f.dfg_mut().new_value().aggregate(v)
        }
    }
}
fn fill(out: &mut Program, fun: Function, f: &Func, globals: &[Value], funcs: &[Function], how: u32) {
    let d = out.func_mut(fun);
    let mut bbs = Vec::new();
    for b in &f.blocks {
        let bb = if how & 1 != 0 {
            let bb = d.dfg_mut().new_bb();
            let bb = match b.params.len() {
                0 => bb.basic_block(None),
                _ => bb.basic_block_with_params(b.name.clone(), b.params.iter().map(|p| to_type(&p.1)).collect()),
            };
            for (v, (n, _)) in d.dfg().bb(bb).params().to_vec().into_iter().zip(&b.params) {
                d.dfg_mut().set_value_name(v, n.clone());
            }
            d.dfg_mut().bb_mut(bb).set_name(b.name.clone());
            bb
        } else {
            let params = b.params.iter().map(|(n, t)| (n.clone(), to_type(t))).collect();
            d.dfg_mut().new_bb().basic_block_with_param_names(b.name.clone(), params)
        };
        bbs.push(bb);
    }
    match how & 2 {
        0 => bbs.iter().for_each(|b| d.layout_mut().bbs_mut().push_key_back(*b).unwrap()),
        _ => bbs.iter().rev().for_each(|b| d.layout_mut().bbs_mut().push_key_front(*b).unwrap()),
    }
    let mut m = Maker { d, f, bbs: &bbs, globals, funcs, plain: how & 4 != 0, insts: f.blocks.iter().map(|b| vec![None; b.insts.len()]).collect() };
    let mut todo: Vec<_> = f.blocks.iter().enumerate().collect();
    if how & 8 != 0 {
        todo.reverse();
    }
    for (bi, b) in todo {
        for ii in 0..b.insts.len() {
            // in pairs, the second before the first
            let swap = how & 8 != 0 && (ii % 2 == 1 || ii + 1 < b.insts.len());
            let at = if swap { ii ^ 1 } else { ii };
            let v = m.inst(bi, at);
            let insts = m.d.layout_mut().bb_mut(bbs[bi]);
            let insts = insts.insts_mut();
            match swap && ii % 2 == 1 {
                false => insts.push_key_back(v).unwrap(),
                true => insts.cursor_back_mut().insert_key_before(v).unwrap(),
            }
        }
    }
}
/// Creates instructions, operands first.
struct Maker<'a> {
    d: &'a mut ir::FunctionData,
    f: &'a Func,
    bbs: &'a [ir::BasicBlock],
    globals: &'a [Value],
    funcs: &'a [Function],
    /// uses the calls without argument lists where there are no arguments
    plain: bool,
    insts: Vec<Vec<Option<Value>>>,
}
impl Maker<'_> {
    fn op(&mut self, o: &Op) -> Value {
        match o {
            Op::Const(c) => lconst(self.d, c),
            Op::Param(i) => self.d.params()[*i],
            Op::BParam(b, i) => self.d.dfg().bb(self.bbs[*b]).params()[*i],
            Op::Inst(b, i) => self.inst(*b, *i),
            Op::Global(g) => self.globals[*g],
        }
    }
    fn ops(&mut self, v: &[Op]) -> Vec<Value> {
        v.iter().map(|o| self.op(o)).collect()
    }
    fn inst(&mut self, bi: usize, ii: usize) -> Value {
        if let Some(v) = self.insts[bi][ii] {
            return v;
        }
        let i = &self.f.blocks[bi].insts[ii];
        macro_rules! new { () => { self.d.dfg_mut().new_value() } }
        let v = match &i.kind {
            Kind::Alloc => new!().alloc(to_type(i.ty.base())),
            Kind::Load(a) => { let a = self.op(a); new!().load(a) }
            Kind::Store(a, b) => { let (a, b) = (self.op(a), self.op(b)); new!().store(a, b) }
            Kind::GetPtr(a, b) => { let (a, b) = (self.op(a), self.op(b)); new!().get_ptr(a, b) }
            Kind::GetElemPtr(a, b) => { let (a, b) = (self.op(a), self.op(b)); new!().get_elem_ptr(a, b) }
            Kind::Bin(o, a, b) => { let (a, b) = (self.op(a), self.op(b)); new!().binary(OPS[*o], a, b) }
            Kind::Br(c, t, ta, e, ea) => {
                let c = self.op(c);
                let (ta, ea) = (self.ops(ta), self.ops(ea));
                let (t, e) = (self.bbs[*t], self.bbs[*e]);
                match self.plain && ta.is_empty() && ea.is_empty() {
                    true => new!().branch(c, t, e),
                    false => new!().branch_with_args(c, t, e, ta, ea),
                }
            }
            Kind::Jump(t, a) if a.is_empty() && self.plain => new!().jump(self.bbs[*t]),
            Kind::Jump(t, a) => { let (t, a) = (self.bbs[*t], self.ops(a)); new!().jump_with_args(t, a) }
            Kind::Call(c, a) => { let a = self.ops(a); let c = self.funcs[*c]; new!().call(c, a) }
            Kind::Ret(v) => { let v = v.as_ref().map(|o| self.op(o)); new!().ret(v) }
        };
        if let Some(n) = &i.name {
            self.d.dfg_mut().set_value_name(v, Some(n.clone()));
        }
        self.insts[bi][ii] = Some(v);
        v
    }
}
