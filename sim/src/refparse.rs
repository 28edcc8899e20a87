//! The reference reader of Koopa IR text: decides whether a text is accepted
//! and which program it describes. Written from the language description,
//! with one pass per phase and no error recovery.
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::rc::Rc;

pub struct Ref {
    /// The program and the number of warnings, or why the text is rejected.
    pub result: Result<(Prog, usize), String>,
    /// The language leaves the meaning of this text open.
    pub ambiguous: bool,
}

type R<T> = Result<T, String>;

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Sym(String),
    Word(String),
    Int(i64),
    Ch(char),
    End,
}

fn lex(bytes: &[u8], odd: &mut bool) -> R<Vec<(Tok, u32)>> {
    let cs: Vec<char> = bytes.iter().map(|b| *b as char).collect();
    let mut out = Vec::new();
    let mut i = 0;
    let mut line = 1;
    let at = |i: usize| cs.get(i).copied();
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            *odd |= !c.is_ascii();
            line += (c == '\n') as u32;
            i += 1;
        } else if c == '/' {
            match at(i + 1) {
                Some('/') => {
                    while at(i).is_some_and(|c| c != '\n' && c != '\r') {
                        i += 1;
                    }
                }
                Some('*') => {
                    let mut j = i + 2;
                    while j + 1 < cs.len() && !(cs[j] == '*' && cs[j + 1] == '/') {
                        line += (cs[j] == '\n') as u32;
                        j += 1;
                    }
                    if j + 1 >= cs.len() {
                        return Err("comment not closed".into());
                    }
                    i = j + 2;
                }
                _ => return Err("stray slash".into()),
            }
        } else if c == '@' || c == '%' {
            let mut j = i + 1;
            if at(j).is_some_and(|c| c.is_numeric()) {
                if c == '@' {
                    return Err("number after @".into());
                }
                if at(j) == Some('0') {
                    j += 1;
                } else {
                    while at(j).is_some_and(|c| c.is_numeric()) {
                        j += 1;
                    }
                }
            } else {
                while at(j).is_some_and(|c| c.is_alphanumeric() || c == '_') {
                    j += 1;
                }
            }
            if j == i + 1 {
                return Err("empty symbol".into());
            }
            out.push((Tok::Sym(cs[i..j].iter().collect()), line));
            i = j;
        } else if c.is_alphabetic() {
            let mut j = i;
            while at(j).is_some_and(|c| c.is_alphanumeric()) {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            const WORDS: [&str; 15] = [
                "i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump",
                "call", "ret", "fun", "decl",
            ];
            if !WORDS.contains(&w.as_str()) && !BINOPS.contains(&w.as_str()) {
                return Err(format!("unknown word {w}"));
            }
            out.push((Tok::Word(w), line));
            i = j;
        } else if c.is_numeric() || c == '-' {
            let mut j = i + 1;
            while at(j).is_some_and(|c| c.is_numeric()) {
                j += 1;
            }
            let s: String = cs[i..j].iter().collect();
            out.push((Tok::Int(s.parse().map_err(|_| format!("bad number {s}"))?), line));
            i = j;
        } else {
            out.push((Tok::Ch(c), line));
            i += 1;
        }
    }
    out.push((Tok::End, line));
    Ok(out)
}

#[derive(Clone, Debug)]
enum Val {
    Sym(String),
    Int(i32),
    Undef,
    Zero,
    Agg(Vec<Val>),
}
#[derive(Clone, Debug)]
enum Rhs {
    Alloc(Ty),
    Load(String),
    GetPtr(String, Val),
    GetElemPtr(String, Val),
    Bin(usize, Val, Val),
    Call(String, Vec<Val>),
}
#[derive(Clone, Debug)]
enum Stmt {
    Def(String, Rhs),
    Store(Val, String),
    Call(String, Vec<Val>),
    Br(Val, String, Vec<Val>, String, Vec<Val>),
    Jump(String, Vec<Val>),
    Ret(Option<Val>),
}
struct Blk {
    name: String,
    params: Vec<(String, Ty)>,
    stmts: Vec<Stmt>,
}
enum Item {
    Global(String, Ty, Val),
    Fun(String, Vec<(String, Ty)>, Ty, Vec<Blk>),
    Decl(String, Vec<Ty>, Ty),
}

struct P {
    t: Vec<(Tok, u32)>,
    i: usize,
    depth: u32,
}
impl P {
    fn cur(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn eat(&mut self) -> Tok {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, c: char) -> bool {
        *self.cur() == Tok::Ch(c)
    }
    fn ch(&mut self, c: char) -> R<()> {
        match self.eat() {
            Tok::Ch(d) if d == c => Ok(()),
            t => Err(format!("expected {c}, found {t:?}")),
        }
    }
    fn word(&mut self, w: &str) -> R<()> {
        match self.eat() {
            Tok::Word(d) if d == w => Ok(()),
            t => Err(format!("expected {w}, found {t:?}")),
        }
    }
    fn sym(&mut self) -> R<String> {
        match self.eat() {
            Tok::Sym(s) => Ok(s),
            t => Err(format!("expected a symbol, found {t:?}")),
        }
    }
    fn list<T>(&mut self, f: fn(&mut P) -> R<T>) -> R<Vec<T>> {
        self.ch('(')?;
        let mut v = Vec::new();
        if !self.is(')') {
            loop {
                v.push(f(self)?);
                if !self.is(',') {
                    break;
                }
                self.eat();
            }
        }
        self.ch(')')?;
        Ok(v)
    }
    fn opt_list<T>(&mut self, f: fn(&mut P) -> R<T>) -> R<Vec<T>> {
        if self.is('(') { self.list(f) } else { Ok(vec![]) }
    }
    fn ret_ty(&mut self) -> R<Ty> {
        if self.is(':') {
            self.eat();
            self.ty()
        } else {
            Ok(Ty::Unit)
        }
    }
    fn ty(&mut self) -> R<Ty> {
        self.depth += 1;
        if self.depth > 2000 {
            crate::core::harness_error("text too deep for the reference reader");
        }
        let r = match self.cur() {
            Tok::Word(w) if w == "i32" => {
                self.eat();
                Ok(Ty::I32)
            }
            Tok::Ch('[') => {
                self.eat();
                let b = self.ty()?;
                self.ch(',')?;
                let n = match self.eat() {
                    Tok::Int(n) if n > 0 => n as usize,
                    t => return Err(format!("bad length {t:?}")),
                };
                self.ch(']')?;
                Ok(b.arr(n))
            }
            Tok::Ch('*') => {
                self.eat();
                Ok(self.ty()?.ptr())
            }
            Tok::Ch('(') => {
                let ps = self.list(P::ty)?;
                Ok(Ty::Func(ps, Rc::new(self.ret_ty()?)))
            }
            t => Err(format!("expected a type, found {t:?}")),
        };
        self.depth -= 1;
        r
    }
    fn param(&mut self) -> R<(String, Ty)> {
        let n = self.sym()?;
        self.ch(':')?;
        Ok((n, self.ty()?))
    }
    fn value(&mut self) -> R<Val> {
        match self.eat() {
            Tok::Sym(s) => Ok(Val::Sym(s)),
            Tok::Int(i) => Ok(Val::Int(i as i32)),
            Tok::Word(w) if w == "undef" => Ok(Val::Undef),
            t => Err(format!("expected a value, found {t:?}")),
        }
    }
    fn init(&mut self) -> R<Val> {
        match self.eat() {
            Tok::Int(i) => Ok(Val::Int(i as i32)),
            Tok::Word(w) if w == "undef" => Ok(Val::Undef),
            Tok::Word(w) if w == "zeroinit" => Ok(Val::Zero),
            Tok::Ch('{') => {
                let mut v = vec![self.init()?];
                while self.is(',') {
                    self.eat();
                    v.push(self.init()?);
                }
                self.ch('}')?;
                Ok(Val::Agg(v))
            }
            t => Err(format!("expected an initialiser, found {t:?}")),
        }
    }
    fn stmt(&mut self) -> R<(Stmt, bool)> {
        if let Tok::Sym(_) = self.cur() {
            let n = self.sym()?;
            self.ch('=')?;
            let w = match self.eat() {
                Tok::Word(w) => w,
                t => return Err(format!("expected an expression, found {t:?}")),
            };
            let rhs = match w.as_str() {
                "alloc" => Rhs::Alloc(self.ty()?),
                "load" => Rhs::Load(self.sym()?),
                "getptr" | "getelemptr" => {
                    let s = self.sym()?;
                    self.ch(',')?;
                    let v = self.value()?;
                    if w == "getptr" { Rhs::GetPtr(s, v) } else { Rhs::GetElemPtr(s, v) }
                }
                "call" => {
                    let f = self.sym()?;
                    Rhs::Call(f, self.list(P::value)?)
                }
                _ => match BINOPS.iter().position(|o| *o == w) {
                    Some(o) => {
                        let a = self.value()?;
                        self.ch(',')?;
                        Rhs::Bin(o, a, self.value()?)
                    }
                    None => return Err(format!("expected an expression, found {w}")),
                },
            };
            return Ok((Stmt::Def(n, rhs), false));
        }
        let line = self.t[self.i].1;
        let w = match self.eat() {
            Tok::Word(w) => w,
            t => return Err(format!("expected a statement, found {t:?}")),
        };
        Ok(match w.as_str() {
            "store" => {
                let v = if let Tok::Sym(_) = self.cur() { Val::Sym(self.sym()?) } else { self.init()? };
                self.ch(',')?;
                (Stmt::Store(v, self.sym()?), false)
            }
            "call" => {
                let f = self.sym()?;
                (Stmt::Call(f, self.list(P::value)?), false)
            }
            "br" => {
                let c = self.value()?;
                self.ch(',')?;
                let t = self.sym()?;
                let ta = self.opt_list(P::value)?;
                self.ch(',')?;
                let f = self.sym()?;
                (Stmt::Br(c, t, ta, f, self.opt_list(P::value)?), true)
            }
            "jump" => {
                let t = self.sym()?;
                (Stmt::Jump(t, self.opt_list(P::value)?), true)
            }
            "ret" => {
                let v = if self.t[self.i].1 == line { Some(self.value()?) } else { None };
                (Stmt::Ret(v), true)
            }
            _ => return Err(format!("expected a statement, found {w}")),
        })
    }
    fn block(&mut self) -> R<Blk> {
        let name = self.sym()?;
        let params = self.opt_list(P::param)?;
        self.ch(':')?;
        let mut stmts = Vec::new();
        loop {
            let (s, end) = self.stmt()?;
            stmts.push(s);
            if end {
                return Ok(Blk { name, params, stmts });
            }
        }
    }
    fn items(&mut self) -> R<Vec<Item>> {
        let mut v = Vec::new();
        loop {
            match self.eat() {
                Tok::End => return Ok(v),
                Tok::Word(w) if w == "global" => {
                    let n = self.sym()?;
                    self.ch('=')?;
                    self.word("alloc")?;
                    let t = self.ty()?;
                    self.ch(',')?;
                    v.push(Item::Global(n, t, self.init()?));
                }
                Tok::Word(w) if w == "fun" => {
                    let n = self.sym()?;
                    let ps = self.list(P::param)?;
                    let r = self.ret_ty()?;
                    self.ch('{')?;
                    let mut bs = Vec::new();
                    while !self.is('}') {
                        bs.push(self.block()?);
                    }
                    self.eat();
                    if bs.is_empty() {
                        return Err("no block".into());
                    }
                    v.push(Item::Fun(n, ps, r, bs));
                }
                Tok::Word(w) if w == "decl" => {
                    let n = self.sym()?;
                    let ps = self.list(P::ty)?;
                    v.push(Item::Decl(n, ps, self.ret_ty()?));
                }
                t => return Err(format!("expected an item, found {t:?}")),
            }
        }
    }
}

fn keep(n: &str) -> Option<String> {
    if n.chars().all(|c| c == '%' || c.is_numeric()) { None } else { Some(n.to_string()) }
}
fn con(v: &Val, t: &Ty) -> R<Const> {
    match v {
        Val::Undef => Ok(Const::Undef(t.clone())),
        Val::Zero => Ok(Const::Zero(t.clone())),
        Val::Int(i) if *t == Ty::I32 => Ok(Const::Int(*i)),
        Val::Agg(e) => match t {
            Ty::Arr(b, n) if *n == e.len() => Ok(Const::Agg(e.iter().map(|v| con(v, b)).collect::<R<_>>()?)),
            _ => Err("aggregate does not fit its type".into()),
        },
        _ => Err("constant does not fit its type".into()),
    }
}

struct Sem {
    p: Prog,
    gvars: BTreeMap<String, usize>,
    gfuncs: BTreeMap<String, usize>,
    warnings: usize,
    ambiguous: bool,
}
struct Fn<'a> {
    order: Vec<&'a Blk>,
    ids: BTreeMap<&'a str, usize>,
    preds: Vec<Vec<usize>>,
    defs: Vec<BTreeMap<String, (Op, Ty)>>,
    ret: Ty,
}

impl Sem {
    fn item(&mut self, it: &Item) -> R<()> {
        match it {
            Item::Global(n, t, v) => {
                let init = con(v, t)?;
                if self.gfuncs.contains_key(n) || self.gvars.contains_key(n) {
                    return Err(format!("{n} defined twice"));
                }
                self.gvars.insert(n.clone(), self.p.globals.len());
                self.p.globals.push(Global { name: keep(n), init });
            }
            Item::Decl(n, ps, r) => {
                self.fname(n)?;
                let params = ps.iter().map(|t| (None, t.clone())).collect();
                self.p.funcs.push(Func { name: n.clone(), params, ret: r.clone(), blocks: vec![] });
            }
            Item::Fun(n, ps, r, bs) => {
                let mut seen = BTreeSet::new();
                for (pn, _) in ps {
                    if !seen.insert(pn) {
                        return Err(format!("parameter {pn} twice"));
                    }
                    self.ambiguous |= self.gvars.contains_key(pn);
                }
                self.fname(n)?;
                let params = ps.iter().map(|(n, t)| (keep(n), t.clone())).collect();
                self.p.funcs.push(Func { name: n.clone(), params, ret: r.clone(), blocks: vec![] });
                let b = self.body(ps, r, bs)?;
                self.p.funcs.last_mut().unwrap().blocks = b;
            }
        }
        Ok(())
    }
    fn fname(&mut self, n: &str) -> R<()> {
        if self.gvars.contains_key(n) || self.gfuncs.contains_key(n) {
            return Err(format!("{n} defined twice"));
        }
        self.gfuncs.insert(n.to_string(), self.p.funcs.len());
        Ok(())
    }
    fn body(&mut self, ps: &[(String, Ty)], ret: &Ty, bs: &[Blk]) -> R<Vec<Block>> {
        let mut map: BTreeMap<&str, &Blk> = BTreeMap::new();
        for b in bs {
            if map.insert(&b.name, b).is_some() {
                return Err(format!("block {} twice", b.name));
            }
        }
        let entry = bs[0].name.as_str();
        let mut queue = VecDeque::from([entry]);
        let mut ids: BTreeMap<&str, usize> = BTreeMap::new();
        let mut order = Vec::new();
        while let Some(n) = queue.pop_front() {
            if ids.contains_key(n) {
                continue;
            }
            ids.insert(n, order.len());
            let b = map[n];
            order.push(b);
            let targets: Vec<&str> = match b.stmts.last().unwrap() {
                Stmt::Br(_, t, _, f, _) => vec![t, f],
                Stmt::Jump(t, _) => vec![t],
                _ => vec![],
            };
            for t in targets {
                if t == entry {
                    return Err("entry block is a target".into());
                }
                if !map.contains_key(t) {
                    return Err(format!("no block {t}"));
                }
                queue.push_back(t);
            }
        }
        self.warnings += map.len() - order.len();
        self.ambiguous |= !order[0].params.is_empty();
        let mut syms: BTreeSet<String> = BTreeSet::new();
        let mut defs = Vec::new();
        let mut out: Vec<Block> = Vec::new();
        for (bi, b) in order.iter().enumerate() {
            let mut d = BTreeMap::new();
            for (i, (n, t)) in b.params.iter().enumerate() {
                if self.gvars.contains_key(n) || !syms.insert(n.clone()) {
                    return Err(format!("block parameter {n} is not new"));
                }
                d.insert(n.clone(), (Op::BParam(bi, i), t.clone()));
            }
            defs.push(d);
            out.push(Block { name: keep(&b.name), params: b.params.iter().map(|(n, t)| (keep(n), t.clone())).collect(), insts: vec![] });
        }
        for (i, (n, t)) in ps.iter().enumerate() {
            self.ambiguous |= !syms.insert(n.clone());
            defs[0].insert(n.clone(), (Op::Param(i), t.clone()));
        }
        let mut preds = vec![Vec::new(); order.len()];
        for (bi, b) in order.iter().enumerate() {
            match b.stmts.last().unwrap() {
                Stmt::Br(_, t, _, f, _) => {
                    preds[ids[t.as_str()]].push(bi);
                    preds[ids[f.as_str()]].push(bi);
                }
                Stmt::Jump(t, _) => preds[ids[t.as_str()]].push(bi),
                _ => {}
            }
        }
        let mut f = Fn { order, ids, preds, defs, ret: ret.clone() };
        for bi in 0..f.order.len() {
            let b = f.order[bi];
            for s in &b.stmts {
                let inst = self.stmt(&f, bi, s)?;
                let mut name = None;
                if let Stmt::Def(n, _) = s {
                    if self.gvars.contains_key(n) || !syms.insert(n.clone()) {
                        return Err(format!("symbol {n} is not new"));
                    }
                    if inst.1 == Ty::Unit {
                        return Err(format!("{n} has no value"));
                    }
                    name = keep(n);
                    let at = out[bi].insts.len();
                    f.defs[bi].insert(n.clone(), (Op::Inst(bi, at), inst.1.clone()));
                }
                out[bi].insts.push(Inst { name, ty: inst.1, kind: inst.0 });
            }
        }
        Ok(out)
    }
    fn lookup(&self, f: &Fn, bi: usize, n: &str) -> R<(Op, Ty)> {
        if let Some(g) = self.gvars.get(n) {
            return Ok((Op::Global(*g), self.p.globals[*g].init.ty().ptr()));
        }
        let mut seen = vec![false; f.order.len()];
        let mut stack = vec![bi];
        while let Some(b) = stack.pop() {
            if seen[b] {
                continue;
            }
            seen[b] = true;
            if let Some(d) = f.defs[b].get(n) {
                return Ok(d.clone());
            }
            stack.extend(f.preds[b].iter().rev());
        }
        Err(format!("symbol {n} not found"))
    }
    fn val(&self, f: &Fn, bi: usize, v: &Val, t: &Ty) -> R<Op> {
        match v {
            Val::Sym(n) => {
                let (o, vt) = self.lookup(f, bi, n)?;
                if vt != *t {
                    return Err(format!("{n} has another type"));
                }
                Ok(o)
            }
            _ => Ok(Op::Const(con(v, t)?)),
        }
    }
    fn vals(&self, f: &Fn, bi: usize, v: &[Val], t: &[Ty]) -> R<Vec<Op>> {
        if v.len() != t.len() {
            return Err("wrong number of arguments".into());
        }
        v.iter().zip(t).map(|(v, t)| self.val(f, bi, v, t)).collect()
    }
    fn btys(&self, f: &Fn, b: usize) -> Vec<Ty> {
        f.order[b].params.iter().map(|p| p.1.clone()).collect()
    }
    fn call(&self, f: &Fn, bi: usize, n: &str, a: &[Val]) -> R<(Kind, Ty)> {
        let c = *self.gfuncs.get(n).ok_or_else(|| format!("no function {n}"))?;
        let tys: Vec<Ty> = self.p.funcs[c].params.iter().map(|p| p.1.clone()).collect();
        Ok((Kind::Call(c, self.vals(f, bi, a, &tys)?), self.p.funcs[c].ret.clone()))
    }
    fn stmt(&self, f: &Fn, bi: usize, s: &Stmt) -> R<(Kind, Ty)> {
        Ok(match s {
            Stmt::Def(_, r) => match r {
                Rhs::Alloc(t) => (Kind::Alloc, t.ptr()),
                Rhs::Load(n) => {
                    let (o, t) = self.lookup(f, bi, n)?;
                    match &t {
                        Ty::Ptr(b) => (Kind::Load(o), (**b).clone()),
                        _ => return Err("load of no pointer".into()),
                    }
                }
                Rhs::GetPtr(n, v) => {
                    let (o, t) = self.lookup(f, bi, n)?;
                    if !matches!(t, Ty::Ptr(_)) {
                        return Err("getptr of no pointer".into());
                    }
                    (Kind::GetPtr(o, self.val(f, bi, v, &Ty::I32)?), t)
                }
                Rhs::GetElemPtr(n, v) => {
                    let (o, t) = self.lookup(f, bi, n)?;
                    let e = match &t {
                        Ty::Ptr(b) => match &**b {
                            Ty::Arr(e, _) => e.ptr(),
                            _ => return Err("getelemptr of no array".into()),
                        },
                        _ => return Err("getelemptr of no pointer".into()),
                    };
                    (Kind::GetElemPtr(o, self.val(f, bi, v, &Ty::I32)?), e)
                }
                Rhs::Bin(o, a, b) => {
                    (Kind::Bin(*o, self.val(f, bi, a, &Ty::I32)?, self.val(f, bi, b, &Ty::I32)?), Ty::I32)
                }
                Rhs::Call(n, a) => self.call(f, bi, n, a)?,
            },
            Stmt::Store(v, n) => {
                let (o, t) = self.lookup(f, bi, n)?;
                match &t {
                    Ty::Ptr(b) => (Kind::Store(self.val(f, bi, v, b)?, o), Ty::Unit),
                    _ => return Err("store to no pointer".into()),
                }
            }
            Stmt::Call(n, a) => self.call(f, bi, n, a)?,
            Stmt::Br(c, t, ta, e, ea) => {
                let c = self.val(f, bi, c, &Ty::I32)?;
                let (t, e) = (f.ids[t.as_str()], f.ids[e.as_str()]);
                let a = self.vals(f, bi, ta, &self.btys(f, t))?;
                let b = self.vals(f, bi, ea, &self.btys(f, e))?;
                if t == e && !(a.is_empty() && b.is_empty()) {
                    return Err("both targets are the same and take arguments".into());
                }
                (Kind::Br(c, t, a, e, b), Ty::Unit)
            }
            Stmt::Jump(t, a) => {
                let t = f.ids[t.as_str()];
                (Kind::Jump(t, self.vals(f, bi, a, &self.btys(f, t))?), Ty::Unit)
            }
            Stmt::Ret(v) => match (v, &f.ret) {
                (None, Ty::Unit) => (Kind::Ret(None), Ty::Unit),
                (Some(v), t) if *t != Ty::Unit => (Kind::Ret(Some(self.val(f, bi, v, t)?)), Ty::Unit),
                _ => return Err("wrong return".into()),
            },
        })
    }
}

pub fn read(bytes: &[u8]) -> Ref {
    // characters beyond ASCII in names or numbers are outside the language
    let mut ambiguous = false;
    let result = (|| {
        let t = lex(bytes, &mut ambiguous)?;
        ambiguous |= t.iter().any(|(t, _)| match t {
            Tok::Sym(s) | Tok::Word(s) => !s.is_ascii(),
            _ => false,
        });
        let items = P { t, i: 0, depth: 0 }.items()?;
        let mut s = Sem { p: Prog::default(), gvars: BTreeMap::new(), gfuncs: BTreeMap::new(), warnings: 0, ambiguous: false };
        let mut r = Ok(());
        for it in &items {
            r = s.item(it);
            if r.is_err() {
                break;
            }
        }
        ambiguous |= s.ambiguous;
        r.map(|_| (s.p, s.warnings))
    })();
    if bytes.iter().any(|b| *b >= 0x80) && result.is_err() {
        // may be part of a word, a number or a space
        ambiguous = true;
    }
    Ref { result, ambiguous }
}
