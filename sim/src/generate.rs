//! Draws well-formed, well-typed programs and writes them as text in varied
//! styles (spacing, comments, line ends, block order, literal spellings).
use crate::core::{chance, draw, mix, pick, probe, range};
use crate::model::*;
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Cfg {
    pub globals: u32,
    pub funcs: u32,
    pub blocks: u32,
    pub insts: u32,
    pub depth: u32,
    pub bparams: u32,
    /// parameters of functions
    pub params: u32,
    /// 0: mostly named, 1: mixed, 2: mostly unnamed
    pub naming: u32,
    pub numeric_funcs: bool,
    pub tricky_names: bool,
    /// longest aggregate
    pub agg: u32,
    /// Only constructs every back end can express (no function types).
    pub plain: bool,
    /// 0: as drawn, 1: long chains of blocks, 2: blocks with many predecessors
    pub shape: u32,
}
pub const SMALL: Cfg = Cfg { globals: 2, funcs: 3, blocks: 4, insts: 4, depth: 2, bparams: 2, params: 3, naming: 1, numeric_funcs: false, tricky_names: false, agg: 4, plain: false, shape: 0 };

pub fn any_cfg() -> Cfg {
    let size = draw(10);
    let mut c = match size {
        0..=4 => SMALL,
        5..=7 => Cfg { globals: 4, funcs: 4, blocks: 6, insts: 6, ..SMALL },
        8 => Cfg { globals: 6, funcs: 6, blocks: 9, insts: 8, depth: 3, bparams: 4, ..SMALL },
        _ => Cfg { globals: 1, funcs: 2, blocks: 2, insts: 3, depth: 1, ..SMALL },
    };
    c.naming = draw(3);
    c.numeric_funcs = chance(1, 4);
    c.tricky_names = chance(1, 3);
    if chance(1, 10) {
        c.agg = pick(&[60, 60, 60, 60, 300]);
    }
    if chance(1, 12) {
        c.shape = range(1, 2);
        c.funcs = 2;
        c.blocks = if c.shape == 1 { pick(&[20, 40, 90]) } else { pick(&[8, 14, 40, 90]) };
        c.insts = 2;
    }
    if chance(1, 12) {
        // much of one thing
        match draw(4) {
            0 => {
                probe("many_params");
                c.params = pick(&[9, 17, 40, 40, 9, 300]);
                c.bparams = pick(&[2, 9, 17, 40, 9, 300]);
                if c.params.max(c.bparams) > 100 {
                    probe("wide_lists");
                    c = Cfg { funcs: 2, blocks: 3, insts: 2, depth: 1, ..c };
                }
            }
            1 => {
                c.funcs = pick(&[12, 40]);
                c.globals = pick(&[2, 40]);
                c.blocks = 2;
                c.insts = 2;
            }
            2 => {
                c.funcs = 2;
                c.blocks = pick(&[1, 3]);
                c.insts = pick(&[40, 400]);
            }
            _ => c.depth = pick(&[4, 12, 40]),
        }
    }
    c
}

pub struct Gen {
    c: Cfg,
    taken: BTreeSet<String>,
    local: BTreeSet<String>,
    n: u32,
}

const STEMS: [&str; 12] = ["x", "a", "ptr", "entry", "end", "v_0", "_", "loop", "i32", "ret", "A", "long_name_with_many_parts"];

impl Gen {
    fn name(&mut self, scope: u32, chance_none: bool) -> Option<String> {
        if chance_none {
            let p = [1, 4, 7][self.c.naming as usize];
            if chance(p, 8) {
                return None;
            }
        }
        let sig = if draw(3) == 2 { '%' } else { '@' };
        let stem = if self.c.tricky_names { pick(&STEMS) } else { "n" };
        let mut k = 0;
        loop {
            let s = if self.c.tricky_names && k == 0 {
                format!("{sig}{stem}")
            } else if self.c.tricky_names && k < 4 {
                format!("{sig}{stem}_{}", k - 1)
            } else {
                self.n += 1;
                format!("{sig}{stem}{}", self.n)
            };
            k += 1;
            let ok = match scope {
                0 => self.taken.insert(s.clone()),
                _ => !self.taken.contains(&s) && self.local.insert(s.clone()),
            };
            if ok {
                return Some(s);
            }
        }
    }
    pub fn ty(&mut self, depth: u32) -> Ty {
        if depth == 0 {
            return Ty::I32;
        }
        if depth > 6 && chance(3, 4) {
            // deep ones
            let b = self.ty(depth - 1);
            return if chance(1, 2) { b.ptr() } else { b.arr(1) };
        }
        match draw(if self.c.plain { 8 } else { 9 }) {
            0..=3 => Ty::I32,
            4 | 5 if !self.c.plain && depth > 1 && chance(1, 60) => {
                probe("huge_array");
                self.ty(depth - 1).arr(pick(&[1 << 31, 1 << 32, (1 << 32) + 1, (1 << 33) + 5])).ptr()
            }
            4 | 5 => self.ty(depth - 1).arr(range(1, self.c.agg.min(6)) as usize),
            6 | 7 => self.ty(depth - 1).ptr(),
            _ => {
                let n = draw(3);
                let ps = (0..n).map(|_| self.ty(depth - 1)).collect();
                let r = if chance(1, 2) { self.ty(depth - 1) } else { Ty::Unit };
                Ty::Func(ps, Rc::new(r))
            }
        }
    }
    pub fn int(&mut self) -> i32 {
        match draw(6) {
            0 => 0,
            1 => 1,
            2 => range(0, 200) as i32 - 100,
            3 => i32::MIN,
            4 => i32::MAX,
            _ => (draw(1 << 16) as i32) << 16 | draw(1 << 16) as i32,
        }
    }
    pub fn init(&mut self, t: &Ty) -> Const {
        match t {
            Ty::I32 => match draw(8) {
                6 => Const::Undef(Ty::I32),
                7 => Const::Zero(Ty::I32),
                _ => Const::Int(self.int()),
            },
            Ty::Arr(b, n) => match if t.size(4) > 12_000 { 5 } else { draw(6) } {
                4 => Const::Undef(t.clone()),
                5 => Const::Zero(t.clone()),
                _ => Const::Agg((0..*n).map(|_| self.init(b)).collect()),
            },
            _ => if draw(2) == 0 { Const::Zero(t.clone()) } else { Const::Undef(t.clone()) },
        }
    }
    fn value(&mut self, t: &Ty, avail: &[(Op, Ty)]) -> Op {
        let cands: Vec<&Op> = avail.iter().filter(|a| &a.1 == t).map(|a| &a.0).collect();
        if !cands.is_empty() && draw(4) != 0 {
            // newest values first
            let k = draw(cands.len() as u32) as usize;
            return cands[cands.len() - 1 - k].clone();
        }
        if *t == Ty::I32 && draw(6) != 5 {
            let i = self.int();
            return Op::Const(Const::Int(i));
        }
        Op::Const(Const::Undef(t.clone()))
    }
    pub fn free(c: Cfg) -> Gen {
        Gen { c, taken: BTreeSet::new(), local: BTreeSet::new(), n: 0 }
    }
    pub fn prog(c: Cfg) -> Prog {
        let mut g = Gen::free(c);
        let mut p = Prog::default();
        for _ in 0..draw(c.globals + 1) {
            let mut t = g.ty(c.depth);
            if c.agg > 10 && chance(1, 2) {
                t = Ty::I32.arr(range(7, c.agg) as usize);
            }
            let init = g.init(&t);
            let name = g.name(0, true);
            p.globals.push(Global { name, init });
        }
        for _ in 0..range(1, c.funcs.max(1)) {
            let f = g.func(&p);
            p.funcs.push(f);
        }
        // blocks may have the names of values, values never those of globals
        p
    }
    fn func(&mut self, p: &Prog) -> Func {
        self.local.clear();
        let name = if self.c.numeric_funcs && draw(3) == 2 {
            let mut k = draw(12);
            while !self.taken.insert(format!("%{k}")) {
                k += 1;
            }
            format!("%{k}")
        } else {
            // function names must not be used by any local value
            self.name(0, false).unwrap()
        };
        let ret = match draw(6) {
            0..=2 => Ty::I32,
            3 | 4 => Ty::Unit,
            _ => self.ty(self.c.depth),
        };
        let n = draw(self.c.params + 1);
        let decl = draw(5) == 4;
        let params: Vec<Param> = (0..n)
            .map(|_| {
                let t = self.ty(self.c.depth);
                (if decl { None } else { self.name(1, true) }, t)
            })
            .collect();
        let mut f = Func { name, params, ret, blocks: vec![] };
        if decl {
            return f;
        }
        let fi = p.funcs.len();
        let mut max = range(1, self.c.blocks) as usize;
        let hub = if self.c.shape == 2 { range(1, 4) as usize } else { 0 };
        if self.c.shape == 1 && chance(1, 2) {
            max = self.c.blocks as usize;
            probe("block_chain");
        }
        if self.c.shape == 2 && chance(1, 2) {
            max = self.c.blocks as usize;
        }
        let mut bnames = BTreeSet::new();
        let mut bn = 0;
        let mut bname = |g: &mut Gen| -> Option<String> {
            let p = [1, 4, 7][g.c.naming as usize];
            if chance(p, 8) {
                return None;
            }
            let sig = if draw(3) == 2 { '@' } else { '%' };
            let mut s = format!("{sig}{}", pick(&STEMS));
            while !bnames.insert(s.clone()) {
                bn += 1;
                s = format!("{sig}b{bn}");
            }
            Some(s)
        };
        f.blocks.push(Block { name: bname(self), ..Block::default() });
        let mut defs: Vec<Vec<(Op, Ty)>> = vec![vec![]];
        let mut parent = vec![0usize];
        for i in 0..f.params.len() {
            defs[0].push((Op::Param(i), f.params[i].1.clone()));
        }
        let globals: Vec<(Op, Ty)> = p.globals.iter().enumerate().map(|(i, g)| (Op::Global(i), g.init.ty().ptr())).collect();
        let mut bi = 0;
        while bi < f.blocks.len() {
            // what the tree of first visits guarantees to be visible
            let mut avail = globals.clone();
            let mut chain = vec![bi];
            while *chain.last().unwrap() != 0 {
                chain.push(parent[*chain.last().unwrap()]);
            }
            for b in chain.iter().rev() {
                avail.extend(defs[*b].iter().cloned());
            }
            for _ in 0..draw(self.c.insts + 1) {
                let ii = f.blocks[bi].insts.len();
                let (kind, ty) = self.inst(p, &f, fi, &avail);
                let name = if ty == Ty::Unit { None } else { self.name(1, true) };
                if ty != Ty::Unit {
                    avail.push((Op::Inst(bi, ii), ty.clone()));
                    defs[bi].push((Op::Inst(bi, ii), ty.clone()));
                }
                f.blocks[bi].insts.push(Inst { name, ty, kind });
            }
            let room = max - f.blocks.len();
            let want = match self.c.shape {
                1 if room > 0 && chance(9, 10) => 1,
                2 => range(1, 3),
                _ if room > 0 => draw(4),
                _ => draw(3),
            };
            let kind = if want == 0 || (f.blocks.len() == 1 && room == 0) {
                Kind::Ret(if f.ret == Ty::Unit { None } else { Some(self.value(&f.ret.clone(), &avail)) })
            } else {
                let two = want >= 2;
                let mut targets = vec![];
                for _ in 0..1 + two as usize {
                    let fresh = max > f.blocks.len() && (f.blocks.len() == 1 || self.c.shape == 1 && two == false || self.c.shape == 2 && (targets.is_empty() || chance(1, 10)) || self.c.shape != 2 && draw(3) != 0);
                    if fresh {
                        let np = if self.c.shape != 2 && draw(2) == 0 { 0 } else { draw(self.c.bparams + 1) };
                        let name = bname(self);
                        let params = (0..np).map(|_| { let t = self.ty(self.c.depth); (self.name(1, true), t) }).collect::<Vec<Param>>();
                        let nb = f.blocks.len();
                        defs.push(params.iter().enumerate().map(|(i, q)| (Op::BParam(nb, i), q.1.clone())).collect());
                        parent.push(bi);
                        f.blocks.push(Block { name, params, insts: vec![] });
                        targets.push(nb);
                    } else if f.blocks.len() > 1 {
                        let mut t = range(1, f.blocks.len() as u32 - 1) as usize;
                        if hub > 0 && chance(5, 6) {
                            t = hub.min(f.blocks.len() - 1);
                            probe("hub_block");
                        }
                        if t <= bi {
                            probe("loop_edge");
                        }
                        targets.push(t);
                    }
                }
                if targets.len() == 2 && targets[0] == targets[1] && !f.blocks[targets[0]].params.is_empty() {
                    targets.pop();
                }
                match targets.len() {
                    0 => Kind::Ret(if f.ret == Ty::Unit { None } else { Some(self.value(&f.ret.clone(), &avail)) }),
                    1 => Kind::Jump(targets[0], self.args(&f, targets[0], &avail)),
                    _ => {
                        if targets[0] == targets[1] {
                            probe("same_target_branch");
                        }
                        let c = self.value(&Ty::I32, &avail);
                        let a = self.args(&f, targets[0], &avail);
                        let b = self.args(&f, targets[1], &avail);
                        Kind::Br(c, targets[0], a, targets[1], b)
                    }
                }
            };
            f.blocks[bi].insts.push(Inst { name: None, ty: Ty::Unit, kind });
            bi += 1;
        }
        f
    }
    fn args(&mut self, f: &Func, b: usize, avail: &[(Op, Ty)]) -> Vec<Op> {
        let tys: Vec<Ty> = f.blocks[b].params.iter().map(|p| p.1.clone()).collect();
        tys.iter().map(|t| self.value(t, avail)).collect()
    }
    fn inst(&mut self, p: &Prog, f: &Func, fi: usize, avail: &[(Op, Ty)]) -> (Kind, Ty) {
        let ptrs: Vec<&(Op, Ty)> = avail.iter().filter(|a| matches!(a.1, Ty::Ptr(_))).collect();
        let arrs: Vec<&(Op, Ty)> = avail.iter().filter(|a| matches!(&a.1, Ty::Ptr(t) if matches!(**t, Ty::Arr(..)))).collect();
        let k = draw(9);
        match k {
            2 if !ptrs.is_empty() => {
                let x = ptrs[draw(ptrs.len() as u32) as usize].clone();
                let t = x.1.base().clone();
                (Kind::Load(x.0), t)
            }
            3 if !ptrs.is_empty() => {
                let x = ptrs[draw(ptrs.len() as u32) as usize].clone();
                let t = x.1.base().clone();
                let v = if chance(1, 3) { Op::Const(self.init(&t)) } else { self.value(&t, avail) };
                (Kind::Store(v, x.0), Ty::Unit)
            }
            4 if !ptrs.is_empty() => {
                let x = ptrs[draw(ptrs.len() as u32) as usize].clone();
                let i = self.value(&Ty::I32, avail);
                (Kind::GetPtr(x.0, i), x.1)
            }
            5 if !arrs.is_empty() => {
                let x = arrs[draw(arrs.len() as u32) as usize].clone();
                let i = self.value(&Ty::I32, avail);
                let t = x.1.base().base().ptr();
                (Kind::GetElemPtr(x.0, i), t)
            }
            6 | 7 => {
                let callee = draw(fi as u32 + 1) as usize;
                let (tys, ret): (Vec<Ty>, Ty) = if callee == fi {
                    (f.params.iter().map(|p| p.1.clone()).collect(), f.ret.clone())
                } else {
                    (p.funcs[callee].params.iter().map(|p| p.1.clone()).collect(), p.funcs[callee].ret.clone())
                };
                let args = tys.iter().map(|t| self.value(t, avail)).collect();
                (Kind::Call(callee, args), ret)
            }
            8 => {
                let t = self.ty(self.c.depth);
                (Kind::Alloc, t.ptr())
            }
            _ => {
                let op = draw(17) as usize;
                let a = self.value(&Ty::I32, avail);
                let b = self.value(&Ty::I32, avail);
                (Kind::Bin(op, a, b), Ty::I32)
            }
        }
    }
}

// --- text ---------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
enum Sep {
    Any,
    NoNl,
    Nl,
    /// A new line in the plain style.
    Line,
}
pub struct Text {
    pub bytes: Vec<u8>,
    /// Unreachable blocks, each of which gives one warning.
    pub warnings: usize,
}
struct Rng(u64);
impl Rng {
    fn n(&mut self, n: u64) -> u64 {
        self.0 = mix(self.0);
        (self.0 >> 20) % n
    }
}

pub struct Style {
    /// 0 is the plain style; everything else seeds random spacing.
    pub seed: u32,
    pub pad: u32,
}
pub fn any_style() -> Style {
    let seed = if draw(4) == 0 { 0 } else { draw(1 << 16) };
    let pad = if seed != 0 && chance(1, 12) { range(1, 4) * 20_000 } else if seed != 0 && chance(1, 8) { range(1, 12000) } else { 0 };
    Style { seed, pad }
}

struct Emit<'a> {
    p: &'a Prog,
    toks: Vec<(String, Sep)>,
    r: Rng,
    plain: bool,
    gtext: Vec<String>,
    warnings: usize,
}

/// Writes the program as text.
pub fn emit(p: &Prog, style: &Style) -> Text {
    let mut e = Emit { p, toks: vec![], r: Rng(style.seed as u64 * 77 + 5), plain: style.seed == 0, gtext: vec![], warnings: 0 };
    e.program();
    let mut out = Vec::new();
    let mut r = Rng(style.seed as u64 ^ 0xabcdef);
    let level = if e.plain { 0 } else { 1 + r.n(3) };
    let nl: &[u8] = if e.plain { b"\n" } else { [&b"\n"[..], b"\r\n", b"\n", b"\n\r"][r.n(4) as usize] };
    let pad_at = if style.pad > 0 { Some(r.n(e.toks.len() as u64 + 1) as usize) } else { None };
    let mut prev: u8 = b' ';
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    for (i, (t, sep)) in e.toks.iter().enumerate() {
        let first = t.as_bytes()[0];
        let need = word(prev) && word(first);
        let mut gap: Vec<u8> = Vec::new();
        match level {
            0 => {
                if *sep == Sep::Line || *sep == Sep::Nl { gap.extend(nl) } else if i > 0 && !b"(,:)]}".contains(&first) && !b"([".contains(&prev) { gap.push(b' ') }
            }
            _ => {
                let n = if level == 1 { r.n(2) } else if level == 2 { r.n(4) } else { r.n(12).saturating_sub(6) };
                for _ in 0..n {
                    let newline = *sep != Sep::NoNl;
                    match r.n(9) {
                        0 | 1 | 2 => gap.push(b' '),
                        3 => gap.push([b'\t', 0x0b, 0x0c, b'\r'][r.n(4) as usize]),
                        4 | 5 if newline => gap.extend(nl),
                        6 if newline => { gap.extend(b"// "); gap.extend(comment(&mut r, false)); gap.push(b'\n') }
                        6 => { gap.extend(b"//x"); gap.push(b'\r') }
                        7 => { gap.extend(b"/*"); gap.extend(comment(&mut r, newline)); gap.extend(b"*/") }
                        _ => gap.extend(b"/**/"),
                    }
                }
                if *sep == Sep::Nl && !gap.contains(&b'\n') { gap.extend(nl) }
                if *sep == Sep::Line && r.n(3) != 0 { gap.extend(nl) }
            }
        }
        if pad_at == Some(i) && *sep != Sep::NoNl {
            let block = r.n(2) == 0;
            gap.extend(if block { &b"/*"[..] } else { b"//" });
            for k in 0..style.pad { gap.push(b"abc *d"[(k % 6) as usize]) }
            gap.extend(if block { &b"*/"[..] } else { b"\n" });
        }
        if need && gap.is_empty() {
            gap.push(b' ');
        }
        out.extend(gap);
        out.extend(t.as_bytes());
        prev = *t.as_bytes().last().unwrap();
    }
    if level == 0 || r.n(2) == 0 {
        out.extend(nl);
    } else if r.n(4) == 0 {
        out.extend(b" // last");
    }
    if out.len() > 8192 { probe("input_over_8k") }
    if out.len() > 65536 { probe("input_over_64k") }
    Text { bytes: out, warnings: e.warnings }
}
fn comment(r: &mut Rng, newline: bool) -> Vec<u8> {
    let n = r.n(14);
    let mut v: Vec<u8> = Vec::new();
    for _ in 0..n {
        let c = b"a *@%{/1\"\t~"[r.n(11) as usize];
        // never closes the comment early
        if c == b'/' && v.last() == Some(&b'*') { continue }
        v.push(c);
    }
    if newline && r.n(3) == 0 { v.push(b'\n'); v.push(b'z') }
    if r.n(6) == 0 { v.push(0xc3); v.push(0xa9) }
    v
}

impl Emit<'_> {
    fn t(&mut self, s: &str) {
        self.toks.push((s.to_string(), Sep::Any));
    }
    fn line(&mut self, s: &str) {
        self.toks.push((s.to_string(), Sep::Line));
    }
    fn int(&mut self, v: i64) -> String {
        if self.plain {
            return v.to_string();
        }
        match self.r.n(6) {
            0 if v >= 0 && self.r.n(30) == 0 => format!("{}{v}", "0".repeat([20, 40, 70, 300][self.r.n(4) as usize])),
            0 if v >= 0 => format!("00{v}"),
            1 if v == 0 => "-0".into(),
            _ => v.to_string(),
        }
    }
    fn val_int(&mut self, v: i32) -> String {
        // literals are reduced to 32 bits
        let mut w = v as i64;
        if !self.plain && self.r.n(6) == 0 {
            w += (self.r.n(5) as i64 - 2) << 32;
        }
        self.int(w)
    }
    fn ty(&mut self, t: &Ty) {
        match t {
            Ty::I32 => self.t("i32"),
            Ty::Unit => crate::core::harness_error("unit in text"),
            Ty::Arr(b, n) => {
                self.t("[");
                self.ty(b);
                self.t(",");
                let s = self.int(*n as i64);
                self.t(&s);
                self.t("]");
            }
            Ty::Ptr(b) => {
                self.t("*");
                self.ty(b);
            }
            Ty::Func(ps, r) => {
                self.t("(");
                for (i, p) in ps.iter().enumerate() {
                    if i > 0 { self.t(",") }
                    self.ty(p);
                }
                self.t(")");
                self.ret_ty(r);
            }
        }
    }
    fn ret_ty(&mut self, r: &Ty) {
        if *r != Ty::Unit {
            self.t(":");
            self.ty(r);
        }
    }
    fn con(&mut self, c: &Const) {
        match c {
            Const::Int(i) => { let s = self.val_int(*i); self.t(&s) }
            Const::Undef(_) => self.t("undef"),
            Const::Zero(_) => self.t("zeroinit"),
            Const::Agg(e) => {
                self.t("{");
                for (i, c) in e.iter().enumerate() {
                    if i > 0 { self.t(",") }
                    self.con(c);
                }
                self.t("}");
            }
        }
    }
    /// A number not in `used`, small ones first in the plain style.
    fn temp(&mut self, used: &mut BTreeSet<String>) -> String {
        loop {
            let s = if self.plain { format!("%{}", used.len()) } else { format!("%{}", self.r.n(40 + used.len() as u64 * 3)) };
            if used.insert(s.clone()) {
                return s;
            }
            if self.plain {
                let mut k = used.len();
                while used.contains(&format!("%{k}")) { k += 1 }
                let s = format!("%{k}");
                used.insert(s.clone());
                return s;
            }
        }
    }
    fn program(&mut self) {
        let p = self.p;
        let mut used: BTreeSet<String> = p.funcs.iter().map(|f| f.name.clone()).collect();
        used.extend(p.globals.iter().filter_map(|g| g.name.clone()));
        for g in &p.globals {
            let n = match &g.name { Some(n) => n.clone(), None => self.temp(&mut used) };
            self.gtext.push(n);
        }
        // the first function that needs each global
        let mut need = vec![p.funcs.len(); p.globals.len()];
        for (fi, f) in p.funcs.iter().enumerate().rev() {
            for i in f.blocks.iter().flat_map(|b| &b.insts) {
                each_op(&i.kind, &mut |o| if let Op::Global(g) = o { need[*g] = fi });
            }
        }
        let mut at: Vec<usize> = Vec::new();
        let mut lo = 0;
        for g in 0..p.globals.len() {
            let hi = need[g..].iter().min().copied().unwrap();
            let pos = if self.plain || self.r.n(2) == 0 { lo } else { lo + self.r.n((hi.max(lo) - lo + 1) as u64) as usize };
            at.push(pos.min(hi.max(lo)));
            lo = at[g];
        }
        let mut gi = 0;
        for fi in 0..=p.funcs.len() {
            while gi < p.globals.len() && at[gi] == fi {
                let g = &p.globals[gi];
                self.line("global");
                let n = self.gtext[gi].clone();
                self.t(&n);
                self.t("=");
                self.t("alloc");
                self.ty(&g.init.ty());
                self.t(",");
                self.con(&g.init);
                gi += 1;
            }
            if fi < p.funcs.len() {
                self.func(fi);
            }
        }
    }
    fn func(&mut self, fi: usize) {
        let p = self.p;
        let f = &p.funcs[fi];
        self.line(if f.is_decl() { "decl" } else { "fun" });
        self.t(&f.name);
        self.t("(");
        let mut used: BTreeSet<String> = self.gtext.iter().cloned().collect();
        // local temporary names may not be those of global variables
        let mut names = Names::default();
        if !f.is_decl() {
            let mut reserve = |n: &Option<String>| if let Some(n) = n { used.insert(n.clone()); };
            f.params.iter().for_each(|p| reserve(&p.0));
            for b in &f.blocks {
                b.params.iter().for_each(|p| reserve(&p.0));
                b.insts.iter().for_each(|i| reserve(&i.name));
            }
            for q in &f.params {
                let n = q.0.clone().unwrap_or_else(|| self.temp(&mut used));
                names.params.push(n);
            }
            let mut bused: BTreeSet<String> = f.blocks.iter().filter_map(|b| b.name.clone()).collect();
            for b in &f.blocks {
                let n = b.name.clone().unwrap_or_else(|| self.temp(&mut bused));
                names.blocks.push(n);
                let v = b.params.iter().map(|q| q.0.clone().unwrap_or_else(|| self.temp(&mut used))).collect();
                names.bparams.push(v);
                let v = b.insts.iter().map(|i| if i.ty == Ty::Unit { String::new() } else { i.name.clone().unwrap_or_else(|| self.temp(&mut used)) }).collect();
                names.insts.push(v);
            }
            if !self.plain && self.r.n(4) == 0 {
                let many = self.r.n(300) == 0;
                for _ in 0..if many { 100 + self.r.n(400) } else { 1 + self.r.n(3) } {
                    let n = self.temp(&mut bused);
                    names.dead.push(n);
                }
            }
        }
        for (i, q) in f.params.iter().enumerate() {
            if i > 0 { self.t(",") }
            if !f.is_decl() {
                let n = names.params[i].clone();
                self.t(&n);
                self.t(":");
            }
            self.ty(&q.1);
        }
        self.t(")");
        self.ret_ty(&f.ret);
        if f.is_decl() {
            return;
        }
        self.t("{");
        let mut order: Vec<usize> = (0..f.blocks.len() + names.dead.len()).collect();
        if !self.plain && self.r.n(2) == 0 {
            for i in 1..order.len() {
                let j = i + self.r.n((order.len() - i) as u64) as usize;
                order.swap(i, j);
            }
        }
        for b in order {
            if b >= f.blocks.len() {
                self.warnings += 1;
                probe("unreachable_block");
                let n = names.dead[b - f.blocks.len()].clone();
                let after_ret = matches!(self.toks.last(), Some((s, _)) if s == "ret");
                self.toks.push((n.clone(), if after_ret { Sep::Nl } else { Sep::Line }));
                self.t(":");
                match self.r.n(3) {
                    0 => { self.line("jump"); self.t("%nowhere") }
                    1 => { self.line("%z"); self.t("="); self.t("add"); self.t("@q"); self.t(","); self.t("1"); self.line("ret") ; self.toks.push(("1".into(), Sep::NoNl)) }
                    _ => { self.line("br"); self.t("1"); self.t(","); let e = names.blocks[0].clone(); self.t(&e); self.t(","); self.t(&n) }
                }
                continue;
            }
            let blk = &f.blocks[b];
            let after_ret = matches!(self.toks.last(), Some((s, _)) if s == "ret");
            self.toks.push((names.blocks[b].clone(), if after_ret { Sep::Nl } else { Sep::Line }));
            if !blk.params.is_empty() {
                self.t("(");
                for (i, q) in blk.params.iter().enumerate() {
                    if i > 0 { self.t(",") }
                    let n = names.bparams[b][i].clone();
                    self.t(&n);
                    self.t(":");
                    self.ty(&q.1);
                }
                self.t(")");
            }
            self.t(":");
            for (ii, inst) in blk.insts.iter().enumerate() {
                let n = names.insts[b][ii].clone();
                if inst.ty != Ty::Unit {
                    self.line(&n);
                    self.t("=");
                }
                self.inst(&names, inst);
            }
        }
        let after_ret = matches!(self.toks.last(), Some((s, _)) if s == "ret");
        self.toks.push(("}".into(), if after_ret { Sep::Nl } else { Sep::Line }));
    }
    fn op(&mut self, n: &Names, o: &Op) {
        let s = match o {
            Op::Const(c) => return self.con(c),
            Op::Param(i) => n.params[*i].clone(),
            Op::BParam(b, i) => n.bparams[*b][*i].clone(),
            Op::Inst(b, i) if n.insts[*b].get(*i).is_none_or(|s| s.is_empty()) => "%none".into(),
            Op::Inst(b, i) => n.insts[*b][*i].clone(),
            Op::Global(g) => self.gtext[*g].clone(),
        };
        self.t(&s);
    }
    fn args(&mut self, n: &Names, a: &[Op], always: bool) {
        if a.is_empty() && !always && (self.plain || self.r.n(8) != 0) {
            return;
        }
        self.t("(");
        for (i, o) in a.iter().enumerate() {
            if i > 0 { self.t(",") }
            self.op(n, o);
        }
        self.t(")");
    }
    fn inst(&mut self, n: &Names, i: &Inst) {
        let start = |e: &mut Self, s: &str| if i.ty == Ty::Unit { e.line(s) } else { e.t(s) };
        match &i.kind {
            Kind::Alloc => { start(self, "alloc"); self.ty(&i.ty.base().clone()) }
            Kind::Load(a) => { start(self, "load"); self.op(n, a) }
            Kind::Store(a, b) => { start(self, "store"); self.op(n, a); self.t(","); self.op(n, b) }
            Kind::GetPtr(a, b) => { start(self, "getptr"); self.op(n, a); self.t(","); self.op(n, b) }
            Kind::GetElemPtr(a, b) => { start(self, "getelemptr"); self.op(n, a); self.t(","); self.op(n, b) }
            Kind::Bin(o, a, b) => { start(self, BINOPS[*o]); self.op(n, a); self.t(","); self.op(n, b) }
            Kind::Br(c, t, ta, f, fa) => {
                start(self, "br");
                self.op(n, c);
                self.t(",");
                self.t(&n.blocks[*t].clone());
                self.args(n, ta, false);
                self.t(",");
                self.t(&n.blocks[*f].clone());
                self.args(n, fa, false);
            }
            Kind::Jump(t, a) => { start(self, "jump"); self.t(&n.blocks[*t].clone()); self.args(n, a, false) }
            Kind::Call(c, a) => { start(self, "call"); let s = self.p.funcs[*c].name.clone(); self.t(&s); self.args(n, a, true) }
            Kind::Ret(v) => {
                start(self, "ret");
                if let Some(v) = v {
                    let at = self.toks.len();
                    self.op(n, v);
                    self.toks[at].1 = Sep::NoNl;
                }
            }
        }
    }
}
#[derive(Default)]
struct Names {
    params: Vec<String>,
    blocks: Vec<String>,
    bparams: Vec<Vec<String>>,
    insts: Vec<Vec<String>>,
    dead: Vec<String>,
}
pub fn each_op(k: &Kind, f: &mut dyn FnMut(&Op)) {
    match k {
        Kind::Alloc | Kind::Ret(None) => {}
        Kind::Load(a) | Kind::Ret(Some(a)) => f(a),
        Kind::Store(a, b) | Kind::GetPtr(a, b) | Kind::GetElemPtr(a, b) | Kind::Bin(_, a, b) => { f(a); f(b) }
        Kind::Br(c, _, a, _, b) => { f(c); a.iter().for_each(&mut *f); b.iter().for_each(&mut *f) }
        Kind::Jump(_, a) | Kind::Call(_, a) => a.iter().for_each(f),
    }
}
pub fn kind_ops(k: &mut Kind) -> Vec<&mut Op> {
    match k {
        Kind::Alloc => vec![],
        Kind::Load(a) => vec![a],
        Kind::Store(a, b) | Kind::GetPtr(a, b) | Kind::GetElemPtr(a, b) | Kind::Bin(_, a, b) => vec![a, b],
        Kind::Br(c, _, a, _, b) => std::iter::once(c).chain(a).chain(b).collect(),
        Kind::Jump(_, a) | Kind::Call(_, a) => a.iter_mut().collect(),
        Kind::Ret(v) => v.iter_mut().collect(),
    }
}

/// Draws a program and its text.
pub fn any_text() -> (Prog, Text) {
    let p = Gen::prog(any_cfg());
    let t = emit(&p, &any_style());
    (p, t)
}

/// A program with very many parts of one sort: blocks in a row, functions that
/// call the next one, instructions that need the one before, global values.
pub fn long() -> Prog {
    let kind = draw(6);
    let n = match kind {
        // more than 16 bits can count
        4 | 5 if chance(1, 3) => range(65_530, 67_000) as usize,
        _ => range(6000, 9000) as usize,
    };
    let inst = |name: Option<String>, ty: Ty, kind: Kind| Inst { name, ty, kind };
    let int = |i: usize| Op::Const(Const::Int(i as i32));
    let name = |p: char, i: usize| Some(format!("{p}n{i}"));
    let ret = |o: Op| inst(None, Ty::Unit, Kind::Ret(Some(o)));
    let func = |i: usize, params: Vec<Param>, blocks: Vec<Block>| Func { name: format!("@f{i}"), params, ret: Ty::I32, blocks };
    let one = vec![(name('@', 0), Ty::I32)];
    let mut p = Prog::default();
    match kind {
        // a row of blocks, with and without a common way out; the last one
        // uses what the first one defines
        0..=2 => {
            let mut blocks = vec![];
            for i in 0..n {
                let insts = match (i, kind) {
                    (0, _) => vec![inst(name('%', 0), Ty::I32.ptr(), Kind::Alloc), inst(None, Ty::Unit, Kind::Jump(1, vec![]))],
                    (i, 0) if i < n - 1 => vec![inst(None, Ty::Unit, Kind::Jump(i + 1, vec![]))],
                    // the last block is the way out
                    (i, 1) if i < n - 2 => vec![inst(None, Ty::Unit, Kind::Br(int(i), i + 1, vec![], n - 1, vec![]))],
                    (i, 1) if i == n - 2 => vec![inst(None, Ty::Unit, Kind::Jump(n - 1, vec![]))],
                    // a value goes through all blocks
                    (1, 2) => vec![inst(None, Ty::Unit, Kind::Jump(2, vec![Op::Param(0)]))],
                    (i, 2) if i < n - 1 => vec![
                        inst(name('%', i), Ty::I32, Kind::Bin(6, Op::BParam(i, 0), int(i))),
                        inst(None, Ty::Unit, Kind::Jump(i + 1, vec![Op::Inst(i, 0)])),
                    ],
                    _ => vec![inst(name('%', n), Ty::I32, Kind::Load(Op::Inst(0, 0))), ret(Op::Inst(i, 0))],
                };
                let params = if kind == 2 && i > 1 { vec![(Some(format!("%p{i}")), Ty::I32)] } else { vec![] };
                blocks.push(Block { name: Some(format!("%b{i}")), params, insts });
            }
            if kind == 1 {
                // text is read block by block, nearest first
                let last = blocks.pop().unwrap();
                blocks.insert(3.min(blocks.len()), last);
                let at = |b: usize| if b == n - 1 { 3 } else if b >= 3 { b + 1 } else { b };
                for b in &mut blocks {
                    for i in &mut b.insts {
                        match &mut i.kind {
                            Kind::Jump(t, _) => *t = at(*t),
                            Kind::Br(_, t, _, f, _) => {
                                *t = at(*t);
                                *f = at(*f);
                            }
                            Kind::Ret(Some(Op::Inst(b, _))) => *b = at(*b),
                            _ => {}
                        }
                    }
                }
            }
            p.funcs.push(func(0, one, blocks));
        }
        // every function calls the one before
        3 => for i in 0..n {
            let insts = match i {
                0 => vec![ret(Op::Param(0))],
                _ => vec![inst(name('%', 0), Ty::I32, Kind::Call(i - 1, vec![Op::Param(0)])), ret(Op::Inst(0, 0))],
            };
            p.funcs.push(func(i, one.clone(), vec![Block { name: Some("%b0".into()), params: vec![], insts }]));
        },
        4 => {
            let mut insts = vec![inst(name('%', 0), Ty::I32, Kind::Bin(6, Op::Param(0), int(1)))];
            for i in 1..n {
                insts.push(inst(name('%', i), Ty::I32, Kind::Bin(6, Op::Inst(0, i - 1), int(i))));
            }
            insts.push(ret(Op::Inst(0, n - 1)));
            p.funcs.push(func(0, one, vec![Block { name: Some("%b0".into()), params: vec![], insts }]));
        }
        _ => {
            p.globals = (0..n).map(|i| Global { name: name('@', i), init: Const::Int(i as i32) }).collect();
            let insts = vec![inst(name('%', 0), Ty::I32, Kind::Load(Op::Global(n - 1))), ret(Op::Inst(0, 0))];
            p.funcs.push(func(0, vec![], vec![Block { name: Some("%b0".into()), params: vec![], insts }]));
        }
    }
    if chance(1, 3) {
        // names are made up for all of them
        for f in &mut p.funcs {
            f.params.iter_mut().for_each(|p| p.0 = None);
            for b in &mut f.blocks {
                b.name = None;
                b.params.iter_mut().for_each(|p| p.0 = None);
                b.insts.iter_mut().for_each(|i| i.name = None);
            }
        }
    }
    p
}
