//! Lays raw programs out the way a C program would: in its own memory, with
//! parts shared or not, and without lists of users.
use crate::core::{chance, draw, probe};
use crate::model::*;
use libkoopa_sim as lk;
use lk::{RawBasicBlockData, RawFunctionData, RawProgram, RawSlice, RawSliceItemKind as SK, RawTypeKind, RawValueData, RawValueKind as K};
use std::collections::BTreeMap;
use std::os::raw::{c_char, c_void};

pub struct Laid {
    pub raw: RawProgram<'static>,
    /// address, number of bytes, and how to release it
    mem: Vec<(usize, usize, Box<dyn FnOnce()>)>,
}
impl Laid {
    /// Everything in the memory of the raw program.
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = Vec::new();
        for (a, n, _) in &self.mem {
            out.extend_from_slice(unsafe { std::slice::from_raw_parts(*a as *const u8, *n) });
        }
        out
    }
    pub fn free(self) {
        for (_, _, f) in self.mem {
            f();
        }
    }
}

type V = *mut RawValueData;
struct Lay<'a> {
    p: &'a Prog,
    mem: Vec<(usize, usize, Box<dyn FnOnce()>)>,
    types: BTreeMap<String, *const RawTypeKind>,
    strings: BTreeMap<String, *const c_char>,
    consts: BTreeMap<String, V>,
    /// 0: never, 1: within a function, 2: in all functions, 3: also by globals
    sharing: u32,
    globals: Vec<V>,
    funcs: Vec<*mut RawFunctionData>,
    params: Vec<V>,
    bparams: Vec<Vec<V>>,
    insts: Vec<Vec<V>>,
    bbs: Vec<*mut RawBasicBlockData>,
}
impl Lay<'_> {
    fn put<T: 'static>(&mut self, x: T) -> *mut T {
        // all bytes are defined, also those between the fields
        let l = std::alloc::Layout::new::<T>();
        let p = unsafe { std::alloc::alloc_zeroed(l) as *mut T };
        unsafe { p.write(x) };
        self.mem.push((p as usize, l.size(), Box::new(move || unsafe { std::alloc::dealloc(p as *mut u8, l) })));
        p
    }
    fn slice<T>(&mut self, kind: SK, items: &[*mut T]) -> RawSlice {
        if items.is_empty() {
            return RawSlice { buffer: std::ptr::null(), len: 0, kind };
        }
        let b: Box<[usize]> = items.iter().map(|p| *p as usize).collect();
        let len = b.len();
        let p = Box::into_raw(b);
        self.mem.push((p as *mut usize as usize, len * 8, Box::new(move || drop(unsafe { Box::from_raw(p) }))));
        RawSlice { buffer: p as *mut usize as *const c_void, len: len as u32, kind }
    }
    fn none(&mut self) -> RawSlice {
        self.slice::<()>(SK::Value, &[])
    }
    fn str(&mut self, n: &Option<String>) -> *const c_char {
        let Some(n) = n else { return std::ptr::null() };
        if let Some(p) = self.strings.get(n) {
            if chance(1, 2) {
                return *p;
            }
        }
        let b: Box<[u8]> = n.bytes().chain([0]).collect();
        let len = b.len();
        let p = Box::into_raw(b);
        self.mem.push((p as *mut u8 as usize, len, Box::new(move || drop(unsafe { Box::from_raw(p) }))));
        self.strings.insert(n.clone(), p as *mut u8 as *const c_char);
        p as *mut u8 as *const c_char
    }
    fn ty(&mut self, t: &Ty) -> *const RawTypeKind {
        let key = t.to_text();
        if let Some(p) = self.types.get(&key) {
            if chance(1, 2) {
                return *p;
            }
        }
        let k = match t {
            Ty::I32 => RawTypeKind::Int32,
            Ty::Unit => RawTypeKind::Unit,
            Ty::Arr(b, n) => RawTypeKind::Array(self.ty(b), *n),
            Ty::Ptr(b) => RawTypeKind::Pointer(self.ty(b)),
            Ty::Func(ps, r) => {
                let ps: Vec<*mut RawTypeKind> = ps.iter().map(|p| self.ty(p) as *mut _).collect();
                RawTypeKind::Function(self.slice(SK::Type, &ps), self.ty(r))
            }
        };
        let p = self.put(k);
        self.types.insert(key, p);
        p
    }
    fn value(&mut self, name: &Option<String>, t: &Ty, kind: K) -> V {
        let d = RawValueData { ty: self.ty(t), name: self.str(name), used_by: self.none(), kind };
        self.put(d)
    }
    fn constant(&mut self, c: &Const) -> V {
        let mut key = String::new();
        c.canon(&mut key);
        if let Some(v) = self.consts.get(&key) {
            if self.sharing > 0 && chance(2, 3) {
                probe("shared_raw_constant");
                return *v;
            }
        }
        let kind = match c {
            Const::Int(i) => K::Integer(lk::RawInteger { value: *i }),
            Const::Undef(_) => K::Undef,
            Const::Zero(_) => K::ZeroInit,
            Const::Agg(e) => {
                let e: Vec<V> = e.iter().map(|c| self.constant(c)).collect();
                K::Aggregate(lk::RawAggregate { elems: self.slice(SK::Value, &e) })
            }
        };
        let v = self.value(&None, &c.ty(), kind);
        self.consts.insert(key, v);
        v
    }
    fn op(&mut self, o: &Op) -> V {
        match o {
            Op::Const(c) => self.constant(c),
            Op::Param(i) => self.params[*i],
            Op::BParam(b, i) => self.bparams[*b][*i],
            Op::Inst(b, i) => self.insts[*b][*i],
            Op::Global(g) => self.globals[*g],
        }
    }
    fn ops(&mut self, v: &[Op]) -> RawSlice {
        let v: Vec<V> = v.iter().map(|o| self.op(o)).collect();
        self.slice(SK::Value, &v)
    }
    fn kind(&mut self, k: &Kind) -> K {
        match k {
            Kind::Alloc => K::Alloc,
            Kind::Load(a) => K::Load(lk::RawLoad { src: self.op(a) }),
            Kind::Store(a, b) => K::Store(lk::RawStore { value: self.op(a), dest: self.op(b) }),
            Kind::GetPtr(a, b) => K::GetPtr(lk::RawGetPtr { src: self.op(a), index: self.op(b) }),
            Kind::GetElemPtr(a, b) => K::GetElemPtr(lk::RawGetElemPtr { src: self.op(a), index: self.op(b) }),
            Kind::Bin(o, a, b) => {
                let op: lk::RawBinaryOp = unsafe { std::mem::transmute(*o as u32) };
                K::Binary(lk::RawBinary { op, lhs: self.op(a), rhs: self.op(b) })
            }
            Kind::Br(c, t, ta, e, ea) => K::Branch(lk::RawBranch {
                cond: self.op(c),
                true_bb: self.bbs[*t],
                false_bb: self.bbs[*e],
                true_args: self.ops(ta),
                false_args: self.ops(ea),
            }),
            Kind::Jump(t, a) => K::Jump(lk::RawJump { target: self.bbs[*t], args: self.ops(a) }),
            Kind::Call(f, a) => K::Call(lk::RawCall { callee: self.funcs[*f], args: self.ops(a) }),
            Kind::Ret(v) => K::Return(lk::RawReturn { value: v.as_ref().map_or(std::ptr::null_mut(), |v| self.op(v)) }),
        }
    }
    fn func(&mut self, fi: usize) {
        let p = self.p;
        let f = &p.funcs[fi];
        if self.sharing < 2 {
            self.consts.clear();
        }
        self.params = f.params.iter().enumerate()
            .map(|(index, (n, t))| self.value(n, t, K::FuncArgRef(lk::RawFuncArgRef { index }))).collect();
        self.bparams.clear();
        self.insts.clear();
        self.bbs.clear();
        for b in &f.blocks {
            let ps: Vec<V> = b.params.iter().enumerate()
                .map(|(index, (n, t))| self.value(n, t, K::BlockArgRef(lk::RawBlockArgRef { index }))).collect();
            // instructions may refer to each other in any order
            let is: Vec<V> = b.insts.iter().map(|i| self.value(&i.name, &i.ty, K::Undef)).collect();
            let d = RawBasicBlockData {
                name: self.str(&b.name),
                params: self.slice(SK::Value, &ps),
                used_by: self.none(),
                insts: self.slice(SK::Value, &is),
            };
            let d = self.put(d);
            self.bbs.push(d);
            self.bparams.push(ps);
            self.insts.push(is);
        }
        for (bi, b) in f.blocks.iter().enumerate() {
            for (ii, i) in b.insts.iter().enumerate() {
                let k = self.kind(&i.kind);
                unsafe { (*self.insts[bi][ii]).kind = k };
            }
        }
        let d = unsafe { &mut *self.funcs[fi] };
        let params = if f.is_decl() { vec![] } else { self.params.clone() };
        d.params = self.slice(SK::Value, &params);
        let bbs = self.bbs.clone();
        d.bbs = self.slice(SK::BasicBlock, &bbs);
    }
}

pub fn lay(p: &Prog) -> Laid {
    let mut l = Lay {
        p,
        mem: vec![],
        types: BTreeMap::new(),
        strings: BTreeMap::new(),
        consts: BTreeMap::new(),
        sharing: draw(4),
        globals: vec![],
        funcs: vec![],
        params: vec![],
        bparams: vec![],
        insts: vec![],
        bbs: vec![],
    };
    for g in &p.globals {
        let init = l.constant(&g.init);
        let v = l.value(&g.name, &g.init.ty().ptr(), K::GlobalAlloc(lk::RawGlobalAlloc { init }));
        l.globals.push(v);
    }
    if l.sharing < 3 {
        l.consts.clear();
    }
    for f in &p.funcs {
        let t = Ty::Func(f.params.iter().map(|p| p.1.clone()).collect(), f.ret.clone().into());
        let d = RawFunctionData { ty: l.ty(&t), name: l.str(&Some(f.name.clone())), params: l.none(), bbs: l.slice::<()>(SK::BasicBlock, &[]) };
        let d = l.put(d);
        l.funcs.push(d);
    }
    for fi in 0..p.funcs.len() {
        l.func(fi);
    }
    let (g, f) = (l.globals.clone(), l.funcs.clone());
    let mut raw: RawProgram<'static> = unsafe { std::mem::zeroed() };
    raw.values = l.slice(SK::Value, &g);
    raw.funcs = l.slice(SK::Function, &f);
    Laid { raw, mem: l.mem }
}
