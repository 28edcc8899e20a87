//! Runs models of programs, and draws programs that are worth running.
use crate::core::{chance, draw, mix, pick, probe, range};
use crate::model::*;
use crate::client::{World, BUF, COLS, LINKS, PAGES, ROWS};
use std::collections::HashMap;

#[derive(Clone, PartialEq, Debug)]
pub enum V {
    Undef,
    Int(i32),
    Arr(Vec<V>),
    Ptr(Option<Place>),
}
/// A part of an object: which element at each level.
#[derive(Clone, PartialEq, Debug)]
pub struct Place {
    obj: usize,
    path: Vec<usize>,
}
/// The object behind null pointers that came from outside.
const NULL: usize = usize::MAX;
/// How a run ends.
#[derive(Clone, PartialEq, Debug)]
pub enum End {
    Value(V),
    /// A call of an outside function failed.
    Outside,
    /// Too long to wait for the end.
    Endless,
    /// A null pointer or an element outside its array.
    BadAccess,
    /// The program does something without meaning.
    Wild(&'static str),
    NoMain,
    /// More arguments than can be passed to a library.
    Crowded,
}
pub struct Out {
    pub end: End,
    pub log: Vec<String>,
    pub steps: u32,
    /// The memory of the world in the end.
    pub outside: Vec<Option<i32>>,
}

struct Run<'a> {
    p: &'a Prog,
    mem: Vec<Option<V>>,
    globals: Vec<usize>,
    w: World,
    steps: u32,
    limit: u32,
    /// The first of the objects of the world.
    ext: usize,
}
type R<T> = Result<T, End>;

fn zero(t: &Ty) -> V {
    match t {
        Ty::I32 => V::Int(0),
        Ty::Arr(t, n) => V::Arr(vec![zero(t); *n]),
        Ty::Ptr(_) => V::Ptr(None),
        _ => V::Undef,
    }
}
fn konst(c: &Const) -> V {
    match c {
        Const::Int(i) => V::Int(*i),
        Const::Undef(_) => V::Undef,
        Const::Zero(t) => zero(t),
        Const::Agg(e) => V::Arr(e.iter().map(konst).collect()),
    }
}
pub fn arith(op: usize, l: i32, r: i32) -> Result<i32, &'static str> {
    if op >= 14 && !(0..32).contains(&r) {
        return Err("wide shift");
    }
    Ok(match BINOPS[op] {
        "ne" => (l != r) as i32,
        "eq" => (l == r) as i32,
        "gt" => (l > r) as i32,
        "lt" => (l < r) as i32,
        "ge" => (l >= r) as i32,
        "le" => (l <= r) as i32,
        "add" => l.wrapping_add(r),
        "sub" => l.wrapping_sub(r),
        "mul" => l.wrapping_mul(r),
        "div" => l.checked_div(r).ok_or("division")?,
        "mod" => l.checked_rem(r).ok_or("division")?,
        "and" => l & r,
        "or" => l | r,
        "xor" => l ^ r,
        "shl" => l << r,
        "shr" => ((l as u32) >> r) as i32,
        _ => l >> r,
    })
}

/// How many objects the world has.
const EXT: usize = 3;

struct Frame {
    args: Vec<V>,
    bargs: HashMap<(usize, usize), V>,
    vals: HashMap<(usize, usize), V>,
}

impl Run<'_> {
    fn place<'m>(mem: &'m mut [Option<V>], p: &Place) -> R<&'m mut V> {
        let mut v = mem[p.obj].as_mut().ok_or(End::Wild("dead object"))?;
        for i in &p.path {
            v = match v {
                V::Arr(e) => e.get_mut(*i).ok_or(End::BadAccess)?,
                // the whole array is undefined
                _ => return Err(End::Wild("part of an undefined array")),
            };
        }
        Ok(v)
    }
    fn outside(&self, p: &Place) -> bool {
        (self.ext..self.ext + EXT).contains(&p.obj)
    }
    fn at(&mut self, v: V) -> R<&mut V> {
        match v {
            V::Ptr(Some(Place { obj: NULL, .. })) => Err(End::BadAccess),
            V::Ptr(Some(p)) => Self::place(&mut self.mem, &p),
            V::Ptr(None) => Err(End::BadAccess),
            _ => Err(End::Wild("undefined pointer")),
        }
    }
    fn val(&self, f: &Frame, o: &Op) -> R<V> {
        match o {
            Op::Const(c) => Ok(konst(c)),
            Op::Param(i) => Ok(f.args[*i].clone()),
            Op::BParam(b, i) => f.bargs.get(&(*b, *i)).cloned().ok_or(End::Wild("use before definition")),
            Op::Inst(b, i) => f.vals.get(&(*b, *i)).cloned().ok_or(End::Wild("use before definition")),
            Op::Global(g) => Ok(V::Ptr(Some(Place { obj: self.globals[*g], path: vec![] }))),
        }
    }
    fn int(&self, f: &Frame, o: &Op) -> R<i32> {
        match self.val(f, o)? {
            V::Int(i) => Ok(i),
            _ => Err(End::Wild("undefined number")),
        }
    }
    /// What the memory of the world can hold.
    fn foreign(&self, v: &V) -> bool {
        match v {
            V::Int(_) => true,
            V::Arr(e) => e.iter().all(|v| self.foreign(v)),
            V::Ptr(Some(p)) => p.obj == NULL || self.outside(p),
            _ => false,
        }
    }
    fn tick(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.limit { Err(End::Endless) } else { Ok(()) }
    }
    fn go(&self, f: &mut Frame, b: usize, args: &[Op]) -> R<usize> {
        let args: Vec<V> = args.iter().map(|a| self.val(f, a)).collect::<R<_>>()?;
        for (i, v) in args.into_iter().enumerate() {
            f.bargs.insert((b, i), v);
        }
        Ok(b)
    }
    fn call(&mut self, fi: usize, args: Vec<V>, depth: u32) -> R<V> {
        let p = self.p;
        let func = &p.funcs[fi];
        self.tick()?;
        if func.is_decl() {
            let mut shown = vec![];
            for (a, (_, t)) in args.into_iter().zip(&func.params) {
                shown.push(match a {
                    V::Int(i) => i.to_string(),
                    V::Undef if self.w.c => if *t == Ty::I32 { "0" } else { "null" }.into(),
                    V::Undef => "undef".into(),
                    V::Ptr(None | Some(Place { obj: NULL, .. })) => "null".into(),
                    V::Ptr(Some(p)) if self.w.c && !self.outside(&p) => "*?".into(),
                    V::Ptr(Some(p)) => match Self::place(&mut self.mem, &p)? {
                        V::Int(i) => format!("*{i}"),
                        _ => "*undef".into(),
                    },
                    _ => "other".into(),
                });
            }
            if self.w.c && shown.len() > 28 && self.w.fail_at != Some(self.w.log.len()) {
                return Err(End::Crowded);
            }
            let r = self.w.call(&func.name, &shown).map_err(|_| End::Outside)?;
            let to = |o: usize, n: i32| V::Ptr(Some(match r.rem_euclid(n + 1) {
                k if k == n => Place { obj: NULL, path: vec![] },
                k => Place { obj: self.ext + o, path: vec![k as usize] },
            }));
            return Ok(match (&func.ret, func.name.as_str()) {
                (Ty::Unit, _) => V::Undef,
                (_, "@buf") => to(0, BUF as i32),
                (_, "@grid") => to(1, PAGES as i32),
                (_, "@link") => to(2, LINKS as i32),
                _ => V::Int(r),
            });
        }
        if depth > 40 {
            return Err(End::Endless);
        }
        let mut f = Frame { args, bargs: HashMap::new(), vals: HashMap::new() };
        let base = self.mem.len();
        let mut b = 0;
        let ret = 'run: loop {
            let mut next = None;
            for (i, inst) in func.blocks[b].insts.iter().enumerate() {
                self.tick()?;
                let v = match &inst.kind {
                    Kind::Alloc => {
                        self.mem.push(Some(zero(inst.ty.base())));
                        V::Ptr(Some(Place { obj: self.mem.len() - 1, path: vec![] }))
                    }
                    Kind::Load(s) => {
                        let s = self.val(&f, s)?;
                        self.at(s)?.clone()
                    }
                    Kind::Store(v, d) => {
                        let (v, d) = (self.val(&f, v)?, self.val(&f, d)?);
                        if let V::Ptr(Some(p)) = &d && self.outside(p) && !self.foreign(&v) {
                            return Err(End::Wild("local value outside"));
                        }
                        *self.at(d)? = v;
                        V::Undef
                    }
                    Kind::GetPtr(s, i) => {
                        let i = self.int(&f, i)?;
                        match self.val(&f, s)? {
                            p @ V::Ptr(Some(Place { obj: NULL, .. })) => p,
                            V::Ptr(Some(mut p)) => {
                                let Some(last) = p.path.pop() else { return Err(End::Wild("beside an object")) };
                                let len = match Self::place(&mut self.mem, &p)? {
                                    V::Arr(e) => e.len(),
                                    _ => return Err(End::Wild("part of an undefined array")),
                                };
                                let k = last as i64 + i as i64;
                                if k < 0 || k >= len as i64 {
                                    return Err(if self.outside(&p) { End::Wild("beside an object") } else { End::BadAccess });
                                }
                                p.path.push(k as usize);
                                V::Ptr(Some(p))
                            }
                            V::Ptr(None) => return Err(End::BadAccess),
                            _ => return Err(End::Wild("undefined pointer")),
                        }
                    }
                    Kind::GetElemPtr(s, i) => {
                        let i = self.int(&f, i)?;
                        match self.val(&f, s)? {
                            p @ V::Ptr(Some(Place { obj: NULL, .. })) => p,
                            V::Ptr(Some(mut p)) => {
                                let len = match Self::place(&mut self.mem, &p)? {
                                    V::Arr(e) => e.len(),
                                    _ => return Err(End::Wild("part of an undefined array")),
                                };
                                if i < 0 || i as usize >= len {
                                    return Err(if self.outside(&p) { End::Wild("beside an object") } else { End::BadAccess });
                                }
                                p.path.push(i as usize);
                                V::Ptr(Some(p))
                            }
                            V::Ptr(None) => return Err(End::BadAccess),
                            _ => return Err(End::Wild("undefined pointer")),
                        }
                    }
                    Kind::Bin(op, l, r) => V::Int(arith(*op, self.int(&f, l)?, self.int(&f, r)?).map_err(End::Wild)?),
                    Kind::Br(c, t, ta, e, ea) => {
                        next = Some(if self.int(&f, c)? != 0 { self.go(&mut f, *t, ta)? } else { self.go(&mut f, *e, ea)? });
                        V::Undef
                    }
                    Kind::Jump(t, a) => {
                        next = Some(self.go(&mut f, *t, a)?);
                        V::Undef
                    }
                    Kind::Call(c, a) => {
                        let a = a.iter().map(|a| self.val(&f, a)).collect::<R<_>>()?;
                        self.call(*c, a, depth + 1)?
                    }
                    Kind::Ret(None) => break 'run V::Undef,
                    Kind::Ret(Some(v)) => break 'run self.val(&f, v)?,
                };
                f.vals.insert((b, i), v);
            }
            match next {
                Some(n) => b = n,
                None => return Err(End::Wild("no end")),
            }
        };
        for m in &mut self.mem[base..] {
            *m = None;
        }
        Ok(ret)
    }
}

/// Runs the function called `@main`.
pub fn run(p: &Prog, w: World, limit: u32) -> Out {
    let mut r = Run { p, mem: vec![], globals: vec![], w, steps: 0, limit, ext: p.globals.len() };
    for g in &p.globals {
        r.globals.push(r.mem.len());
        r.mem.push(Some(konst(&g.init)));
    }
    let cell = |k: usize| V::Int(r.w.cell(k));
    r.mem.push(Some(V::Arr((0..BUF).map(cell).collect())));
    r.mem.push(Some(V::Arr((0..PAGES).map(|h| V::Arr((0..ROWS).map(|i| V::Arr((0..COLS).map(|j| cell(BUF + (h * ROWS + i) * COLS + j)).collect())).collect())).collect())));
    r.mem.push(Some(V::Arr((0..LINKS).map(|k| V::Ptr(Some(Place { obj: r.ext, path: vec![k * 2] }))).collect())));
    let end = match p.funcs.iter().position(|f| f.name == "@main") {
        None => End::NoMain,
        Some(m) => match r.call(m, vec![], 0) {
            Ok(v) => End::Value(v),
            Err(e) => e,
        },
    };
    let mut outside = vec![];
    for k in 0..EXT {
        cells(r.mem[r.ext + k].as_ref().unwrap(), r.ext, &mut outside);
    }
    Out { end, log: r.w.log, steps: r.steps, outside }
}
/// Numbers in a value; pointers become the element they lead to.
fn cells(v: &V, ext: usize, to: &mut Vec<Option<i32>>) {
    match v {
        V::Int(i) => to.push(Some(*i)),
        V::Arr(e) => e.iter().for_each(|v| cells(v, ext, to)),
        V::Ptr(Some(Place { obj: NULL, .. })) => to.push(Some(-1)),
        V::Ptr(Some(p)) if p.obj == ext => to.push(Some(p.path[0] as i32)),
        _ => to.push(None),
    }
}

/// A program that is worth running: most runs end, and do things others see.
pub struct Maker {
    p: Prog,
    /// Numbers that are undefined or lead nowhere appear.
    pub wild: bool,
    /// Some loops take many turns.
    pub long: bool,
    /// Functions outside hand out pointers.
    pub foreign: bool,
    /// How many functions are outside.
    decls: usize,
    n: u32,
}
struct Pool {
    ints: Vec<Op>,
    ptrs: Vec<(Op, Ty)>,
}
impl Maker {
    pub fn prog(wild: bool) -> (Prog, bool) {
        let mut m = Maker { p: Prog::default(), wild, long: chance(1, 12), foreign: chance(1, 3), decls: 0, n: 0 };
        m.make();
        (m.p, m.long)
    }
    fn name(&mut self) -> Option<String> {
        self.n += 1;
        match draw(4) {
            0 => Some(format!("@n{}", self.n)),
            1 => Some(format!("%n{}", self.n)),
            _ => None,
        }
    }
    fn small(&mut self) -> i32 {
        match draw(10) {
            0..=5 => draw(4) as i32,
            6 => -1,
            7 => pick(&[i32::MAX, i32::MIN, 31, 32, 1 << 30]),
            _ => draw(200) as i32 - 100,
        }
    }
    fn make(&mut self) {
        for (n, np, r) in [("@in", 0, Ty::I32), ("@out", 1, Ty::Unit), ("@mix", 2, Ty::I32)] {
            self.p.funcs.push(Func { name: n.into(), params: vec![(None, Ty::I32); np], ret: r, blocks: vec![] });
        }
        if self.foreign {
            probe("run_foreign_memory");
            for (n, ret) in [("@buf", Ty::I32.ptr()), ("@grid", Ty::I32.arr(COLS).arr(ROWS).ptr()), ("@link", Ty::I32.ptr().ptr()), ("@peek", Ty::I32)] {
                let params = if n == "@peek" { vec![(None, Ty::I32.ptr())] } else { vec![] };
                self.p.funcs.push(Func { name: n.into(), params, ret, blocks: vec![] });
            }
        }
        if chance(1, 8) {
            let n = if chance(1, 2) { draw(9) } else { draw(31) };
            probe("run_many_arguments");
            self.p.funcs.push(Func { name: format!("@many{n}"), params: vec![(None, Ty::I32); n as usize], ret: if chance(1, 4) { Ty::Unit } else { Ty::I32 }, blocks: vec![] });
        }
        self.decls = self.p.funcs.len();
        for _ in 0..draw(3) {
            let t = self.obj();
            let name = self.name();
            let init = self.init(&t);
            self.p.globals.push(Global { name, init });
        }
        for _ in 0..draw(3) {
            let n = draw(4);
            let params = (0..n).map(|_| {
                let t = if chance(1, 4) { Ty::I32.ptr() } else { Ty::I32 };
                (self.name(), t)
            }).collect();
            let ret = if chance(1, 3) { Ty::Unit } else { Ty::I32 };
            let name = format!("@f{}", self.p.funcs.len());
            self.func(name, params, ret);
        }
        self.func("@main".into(), vec![], Ty::I32);
    }
    fn obj(&mut self) -> Ty {
        match draw(6) {
            0..=2 => Ty::I32,
            3 | 4 => Ty::I32.arr(pick(&[1, 2, 4, 8])),
            _ => Ty::I32.arr(2).arr(pick(&[1, 2, 4])),
        }
    }
    fn init(&mut self, t: &Ty) -> Const {
        match t {
            Ty::Arr(b, n) if chance(1, 2) => Const::Agg((0..*n).map(|_| self.init(b)).collect()),
            Ty::I32 if chance(3, 4) => Const::Int(self.small()),
            _ if self.wild && chance(1, 8) => Const::Undef(t.clone()),
            _ => Const::Zero(t.clone()),
        }
    }
    fn int(&mut self, pool: &Pool) -> Op {
        if pool.ints.is_empty() || chance(2, 5) {
            if self.wild && chance(1, 30) {
                return Op::Const(Const::Undef(Ty::I32));
            }
            return Op::Const(Const::Int(self.small()));
        }
        // later ones more often
        let n = pool.ints.len();
        let i = n - 1 - draw(if chance(1, 2) { n.min(3) } else { n } as u32) as usize;
        pool.ints[i].clone()
    }
    fn ptr(&mut self, pool: &Pool, want: &Ty) -> Op {
        let c: Vec<&Op> = pool.ptrs.iter().filter(|p| p.1 == *want).map(|p| &p.0).collect();
        if c.is_empty() || self.wild && chance(1, 20) {
            return Op::Const(Const::Undef(want.ptr()));
        }
        c[draw(c.len() as u32) as usize].clone()
    }
    fn func(&mut self, name: String, params: Vec<Param>, ret: Ty) {
        let nb = range(1, pick(&[1, 3, 5, 8])) as usize;
        let me = self.p.funcs.len();
        let mut base = Pool { ints: vec![], ptrs: vec![] };
        for (i, (_, t)) in params.iter().enumerate() {
            match t {
                Ty::I32 => base.ints.push(Op::Param(i)),
                _ => base.ptrs.push((Op::Param(i), Ty::I32)),
            }
        }
        for (i, g) in self.p.globals.iter().enumerate() {
            base.ptrs.push((Op::Global(i), g.init.ty()));
        }
        // what the edges pass: a constant from everywhere, or anything
        let mut same: Vec<Vec<Option<Const>>> = vec![];
        let mut blocks: Vec<Block> = (0..nb).map(|b| {
            let n = if b == 0 { 0 } else { draw(4) };
            let mut fixed = vec![];
            let params = (0..n).map(|_| {
                let t = if chance(1, 6) { Ty::I32.ptr() } else { Ty::I32 };
                fixed.push(if chance(1, 3) && (self.wild || t == Ty::I32) {
                    Some(if t != Ty::I32 || self.wild && chance(1, 6) { Const::Undef(t.clone()) } else { Const::Int(self.small()) })
                } else {
                    None
                });
                (self.name(), t)
            }).collect();
            same.push(fixed);
            Block { name: self.name(), params, insts: vec![] }
        }).collect();
        if chance(2, 3) {
            blocks[0].name = Some("%entry".into());
        }
        let mut entry = Pool { ints: base.ints.clone(), ptrs: base.ptrs.clone() };
        for b in 0..nb {
            let mut pool = Pool { ints: entry.ints.clone(), ptrs: entry.ptrs.clone() };
            for (i, (_, t)) in blocks[b].params.iter().enumerate() {
                match t {
                    Ty::I32 => pool.ints.push(Op::BParam(b, i)),
                    _ => pool.ptrs.push((Op::BParam(b, i), Ty::I32)),
                }
            }
            let mut insts: Vec<Inst> = vec![];
            if b == 0 {
                let name = self.name();
                insts.push(Inst { name, ty: Ty::I32.ptr(), kind: Kind::Alloc });
                pool.ptrs.push((Op::Inst(0, 0), Ty::I32));
            }
            for _ in 0..draw(7) {
                self.inst(me, b, &mut insts, &mut pool);
            }
            if b == 0 {
                entry = Pool { ints: pool.ints.clone(), ptrs: pool.ptrs.clone() };
            }
            let ps: Vec<usize> = (0..blocks[b].params.len()).filter(|i| blocks[b].params[*i].1 == Ty::I32).collect();
            if b > 0 && b + 1 < nb && ps.len() == blocks[b].params.len() && !ps.is_empty() && chance(1, 2) {
                // a loop around this block, its parameters change places
                let i = insts.len();
                let put = |insts: &mut Vec<Inst>, kind| insts.push(Inst { name: None, ty: if matches!(kind, Kind::Br(..)) { Ty::Unit } else { Ty::I32 }, kind });
                put(&mut insts, Kind::Bin(7, Op::BParam(b, 0), Op::Const(Const::Int(1))));
                put(&mut insts, Kind::Bin(11, Op::Inst(b, i), Op::Const(Const::Int(if self.long && chance(1, 2) { 0xffff } else { 7 }))));
                let mut again = vec![Op::Inst(b, i + 1)];
                for _ in 1..ps.len() {
                    again.push(if chance(2, 3) { Op::BParam(b, draw(ps.len() as u32) as usize) } else { self.int(&pool) });
                }
                let to = range(b as u32 + 1, nb as u32 - 1) as usize;
                let out = self.args(to, &blocks, &same, &pool);
                put(&mut insts, Kind::Br(Op::Inst(b, i + 1), b, again, to, out));
                probe("run_loops");
                blocks[b].insts = insts;
                continue;
            }
            let kind = self.end(b, nb, &ret, &blocks, &same, &pool);
            insts.push(Inst { name: None, ty: Ty::Unit, kind });
            blocks[b].insts = insts;
        }
        reachable(&mut blocks);
        self.p.funcs.push(Func { name, params, ret, blocks });
    }
    fn args(&mut self, t: usize, blocks: &[Block], same: &[Vec<Option<Const>>], pool: &Pool) -> Vec<Op> {
        let ps = blocks[t].params.clone();
        ps.iter().zip(&same[t]).map(|((_, ty), s)| match (s, ty) {
            (Some(c), _) if chance(9, 10) => Op::Const(c.clone()),
            (_, Ty::I32) => self.int(pool),
            _ => self.ptr(pool, &Ty::I32),
        }).collect()
    }
    fn end(&mut self, b: usize, nb: usize, ret: &Ty, blocks: &[Block], same: &[Vec<Option<Const>>], pool: &Pool) -> Kind {
        let to = || {
            let back = b > 0 && chance(1, 4) || b + 1 == nb;
            if back { range(1, b.max(1) as u32) as usize } else { range(b as u32 + 1, nb as u32 - 1) as usize }
        };
        if nb == 1 || b + 1 == nb && chance(4, 5) || chance(1, 10) {
            return Kind::Ret(if *ret == Ty::Unit { None } else { Some(self.int(pool)) });
        }
        if chance(1, 2) {
            let t = to();
            return Kind::Jump(t, self.args(t, blocks, same, pool));
        }
        let (t, e) = (to(), to());
        let c = self.int(pool);
        let ta = self.args(t, blocks, same, pool);
        if t == e && !ta.is_empty() {
            return Kind::Jump(t, ta);
        }
        let ea = self.args(e, blocks, same, pool);
        if t == e {
            probe("same_target_branch");
        }
        Kind::Br(c, t, ta, e, ea)
    }
    fn inst(&mut self, me: usize, b: usize, insts: &mut Vec<Inst>, pool: &mut Pool) {
        let put = |m: &mut Maker, insts: &mut Vec<Inst>, ty: Ty, kind: Kind| {
            let name = if ty == Ty::Unit { None } else { m.name() };
            insts.push(Inst { name, ty, kind });
            Op::Inst(b, insts.len() - 1)
        };
        match draw(12) {
            k @ 0..=3 if k < 2 || !self.foreign || chance(3, 4) => {
                let op = draw(17) as usize;
                let l = self.int(pool);
                let r = if op >= 14 && chance(9, 10) {
                    Op::Const(Const::Int(draw(32) as i32))
                } else if (op == 9 || op == 10) && chance(9, 10) {
                    Op::Const(Const::Int(pick(&[1, 2, -3, 7])))
                } else {
                    self.int(pool)
                };
                let v = put(self, insts, Ty::I32, Kind::Bin(op, l, r));
                pool.ints.push(v);
            }
            0..=3 => self.abroad(b, insts, pool),
            4 => {
                let t = if chance(1, 8) { Ty::I32.ptr() } else { self.obj() };
                let v = put(self, insts, t.ptr(), Kind::Alloc);
                pool.ptrs.push((v, t));
            }
            5 => {
                // load
                let Some((p, t)) = some(&pool.ptrs) else { return };
                if matches!(t, Ty::Arr(..)) && chance(2, 3) {
                    return;
                }
                let v = put(self, insts, t.clone(), Kind::Load(p));
                match &t {
                    Ty::I32 => pool.ints.push(v),
                    Ty::Ptr(t) => pool.ptrs.push((v, (**t).clone())),
                    t => {
                        // the copy goes back to an object of its kind
                        let d = same_kind(pool, t);
                        put(self, insts, Ty::Unit, Kind::Store(v, d));
                    }
                }
            }
            6 | 7 => {
                let Some((p, t)) = some(&pool.ptrs) else { return };
                let v = match &t {
                    Ty::I32 => self.int(pool),
                    Ty::Ptr(t) => self.ptr(pool, &t.clone()),
                    t => Op::Const(self.init(&t.clone())),
                };
                put(self, insts, Ty::Unit, Kind::Store(v, p));
            }
            8 => {
                // an element
                let c: Vec<(Op, Ty)> = pool.ptrs.iter().filter(|p| matches!(p.1, Ty::Arr(..))).cloned().collect();
                let Some((p, t)) = some(&c) else { return };
                let Ty::Arr(e, n) = &t else { return };
                let i = match draw(8) {
                    0..=3 => Op::Const(Const::Int(draw(*n as u32) as i32)),
                    7 if self.wild => self.int(pool),
                    _ => {
                        let x = self.int(pool);
                        put(self, insts, Ty::I32, Kind::Bin(11, x, Op::Const(Const::Int(*n as i32 - 1))))
                    }
                };
                let v = put(self, insts, e.ptr(), Kind::GetElemPtr(p, i));
                let e: Ty = (**e).clone();
                if chance(1, 3) {
                    let k = Op::Const(Const::Int(pick(&[0, 0, 1, -1])));
                    let v = put(self, insts, e.ptr(), Kind::GetPtr(v.clone(), k));
                    pool.ptrs.push((v, e.clone()));
                }
                pool.ptrs.push((v, e));
            }
            9 => {
                // someone outside hears of it
                let a = self.int(pool);
                put(self, insts, Ty::Unit, Kind::Call(1, vec![a]));
            }
            10 => {
                let v = if chance(1, 2) {
                    put(self, insts, Ty::I32, Kind::Call(0, vec![]))
                } else {
                    let (a, b) = (self.int(pool), self.int(pool));
                    put(self, insts, Ty::I32, Kind::Call(2, vec![a, b]))
                };
                pool.ints.push(v);
            }
            _ => {
                if let Some(c) = self.p.funcs[..self.decls].iter().position(|f| f.name.starts_with("@many")) && chance(1, 2) {
                    let args = (0..self.p.funcs[c].params.len()).map(|_| self.int(pool)).collect();
                    let ret = self.p.funcs[c].ret.clone();
                    let v = put(self, insts, ret.clone(), Kind::Call(c, args));
                    if ret == Ty::I32 {
                        pool.ints.push(v);
                    }
                    return;
                }
                if self.foreign && chance(1, 2) {
                    return self.abroad(b, insts, pool);
                }
                if me <= self.decls {
                    return;
                }
                let c = range(self.decls as u32, me as u32 - 1) as usize;
                let ps: Vec<Ty> = self.p.funcs[c].params.iter().map(|p| p.1.clone()).collect();
                let ret = self.p.funcs[c].ret.clone();
                let args = ps.iter().map(|t| match t {
                    Ty::I32 => self.int(pool),
                    _ => self.ptr(pool, &Ty::I32),
                }).collect();
                let v = put(self, insts, ret.clone(), Kind::Call(c, args));
                if ret == Ty::I32 {
                    pool.ints.push(v);
                }
            }
        }
    }
}
impl Maker {
    /// Something about the memory of the world.
    fn abroad(&mut self, b: usize, insts: &mut Vec<Inst>, pool: &mut Pool) {
        let put = |m: &mut Maker, insts: &mut Vec<Inst>, ty: Ty, kind: Kind| {
            let name = if ty == Ty::Unit { None } else { m.name() };
            insts.push(Inst { name, ty, kind });
            Op::Inst(b, insts.len() - 1)
        };
        match draw(4) {
            0 => {
                let p = self.ptr(pool, &Ty::I32);
                if matches!(p, Op::Const(_)) {
                    return;
                }
                let v = put(self, insts, Ty::I32, Kind::Call(6, vec![p]));
                pool.ints.push(v);
            }
            k => {
                let t = [Ty::I32, Ty::I32.arr(COLS).arr(ROWS), Ty::I32.ptr()][k as usize - 1].clone();
                let mut v = put(self, insts, t.ptr(), Kind::Call(2 + k as usize, vec![]));
                if chance(1, 2) {
                    pool.ptrs.push((v.clone(), t.clone()));
                }
                if chance(1, 2) {
                    let i = Op::Const(Const::Int(pick(&[0, 1, 1, 2, -1])));
                    v = put(self, insts, t.ptr(), Kind::GetPtr(v, i));
                }
                if k == 2 && chance(1, 2) {
                    let i = Op::Const(Const::Int(draw(ROWS as u32) as i32));
                    v = put(self, insts, Ty::I32.arr(COLS).ptr(), Kind::GetElemPtr(v, i));
                    if chance(1, 3) {
                        let i = Op::Const(Const::Int(pick(&[0, 1, -1])));
                        v = put(self, insts, Ty::I32.arr(COLS).ptr(), Kind::GetPtr(v, i));
                    }
                    if chance(1, 3) {
                        pool.ptrs.push((v.clone(), Ty::I32.arr(COLS)));
                    }
                    let i = Op::Const(Const::Int(draw(COLS as u32) as i32));
                    v = put(self, insts, Ty::I32.ptr(), Kind::GetElemPtr(v, i));
                    pool.ptrs.push((v, Ty::I32));
                    return;
                }
                pool.ptrs.push((v, t));
            }
        }
    }
}
fn some<T: Clone>(v: &[T]) -> Option<T> {
    if v.is_empty() { None } else { Some(v[draw(v.len() as u32) as usize].clone()) }
}

fn same_kind(pool: &Pool, t: &Ty) -> Op {
    let c: Vec<&Op> = pool.ptrs.iter().filter(|p| p.1 == *t).map(|p| &p.0).collect();
    c[draw(c.len() as u32) as usize].clone()
}

/// A world for a run; equal seeds give equal worlds.
pub fn world(seed: u64, fail_at: Option<usize>) -> World {
    World { seed, fail_at, no_libs: None, loaded: vec![], unloaded: 0, symbol: String::new(), c: false, log: vec![], input: (0..20).map(|i| (mix(seed + i) % 200) as i32).collect(), taken: 0 }
}

/// Blocks that no way leads to disappear.
fn reachable(blocks: &mut Vec<Block>) {
    let mut seen = vec![false; blocks.len()];
    let mut todo = vec![0];
    while let Some(b) = todo.pop() {
        if !std::mem::replace(&mut seen[b], true) {
            match &blocks[b].insts.last().unwrap().kind {
                Kind::Br(_, t, _, e, _) => todo.extend([*t, *e]),
                Kind::Jump(t, _) => todo.push(*t),
                _ => {}
            }
        }
    }
    let to: Vec<usize> = (0..seen.len()).map(|b| seen[..b].iter().filter(|x| **x).count()).collect();
    let mut i = 0;
    blocks.retain(|_| {
        i += 1;
        seen[i - 1]
    });
    for inst in blocks.iter_mut().flat_map(|b| &mut b.insts) {
        for o in crate::generate::kind_ops(&mut inst.kind) {
            if let Op::Inst(b, _) | Op::BParam(b, _) = o {
                *b = to[*b];
            }
        }
        match &mut inst.kind {
            Kind::Br(_, t, _, e, _) => (*t, *e) = (to[*t], to[*e]),
            Kind::Jump(t, _) => *t = to[*t],
            _ => {}
        }
    }
}
