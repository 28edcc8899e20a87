//! Reads LLVM IR text of the kind the generator documents back into the
//! reference model. Names become the names of the parts they define.
use crate::model::*;
use std::collections::BTreeMap;
use std::rc::Rc;

type R<T> = Result<T, String>;

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Word(String),
    /// A label, without the colon.
    Label(String),
    Mark(char),
}

fn lex(text: &str) -> R<Vec<(Tok, usize)>> {
    let mut out = Vec::new();
    for (n, l) in text.split('\n').enumerate() {
        let mut it = l.chars().peekable();
        while let Some(c) = it.next() {
            if c == ' ' {
                continue;
            }
            if "()[]{},=*".contains(c) {
                out.push((Tok::Mark(c), n + 1));
                continue;
            }
            if !(c.is_alphanumeric() || "%@$-_".contains(c)) {
                return Err(format!("line {}: unexpected character {c:?}", n + 1));
            }
            let mut w = String::from(c);
            while let Some(c) = it.peek() {
                if c.is_alphanumeric() || "_$.".contains(*c) {
                    w.push(*c);
                    it.next();
                } else {
                    break;
                }
            }
            if it.peek() == Some(&':') {
                it.next();
                out.push((Tok::Label(w), n + 1));
            } else {
                out.push((Tok::Word(w), n + 1));
            }
        }
    }
    Ok(out)
}

/// An operand before names are resolved.
#[derive(Clone, Debug)]
enum Val {
    Const(Const),
    Name(String, Ty),
}
#[derive(Debug)]
enum Raw {
    Phi(Ty, Vec<(Val, String)>),
    Alloca(Ty),
    Load(Ty, Val),
    Store(Val, Val),
    Gep(Ty, Val, Vec<Val>),
    Icmp(String, Val, Val),
    Zext(String),
    Bin(String, Val, Val),
    Br(String),
    CondBr(String, String, String),
    Call(Ty, String, Vec<Val>),
    Ret(Option<Val>),
}
struct RawInst {
    name: Option<String>,
    raw: Raw,
    line: usize,
}
struct RawBlock {
    label: String,
    insts: Vec<RawInst>,
}
struct RawFunc {
    name: String,
    ret: Ty,
    params: Vec<(Option<String>, Ty)>,
    blocks: Vec<RawBlock>,
}

struct P {
    t: Vec<(Tok, usize)>,
    i: usize,
}
impl P {
    fn line(&self) -> usize {
        self.t.get(self.i.min(self.t.len().saturating_sub(1))).map_or(0, |t| t.1)
    }
    fn err<T>(&self, what: &str) -> R<T> {
        Err(format!("line {}: expected {what}, found {:?}", self.line(), self.t.get(self.i).map(|t| &t.0)))
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i).map(|t| &t.0)
    }
    fn is(&self, c: char) -> bool {
        self.peek() == Some(&Tok::Mark(c))
    }
    fn is_word(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn mark(&mut self, c: char) -> R<()> {
        if self.is(c) {
            self.i += 1;
            return Ok(());
        }
        self.err(&format!("`{c}`"))
    }
    fn word(&mut self, w: &str) -> R<()> {
        if self.is_word(w) {
            self.i += 1;
            return Ok(());
        }
        self.err(&format!("`{w}`"))
    }
    fn any_word(&mut self) -> R<String> {
        if let Some(Tok::Word(w)) = self.peek() {
            let w = w.clone();
            self.i += 1;
            return Ok(w);
        }
        self.err("a word")
    }
    fn name(&mut self, sign: char) -> R<String> {
        match self.peek() {
            Some(Tok::Word(w)) if w.starts_with(sign) && w.len() > 1 => {
                let w = w.clone();
                self.i += 1;
                Ok(w)
            }
            _ => self.err(&format!("a name with {sign}")),
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let mut t = if self.is('[') {
            self.i += 1;
            let n = match self.any_word()?.parse::<usize>() {
                Ok(n) => n,
                Err(_) => return self.err("a length"),
            };
            self.word("x")?;
            let b = self.ty()?;
            self.mark(']')?;
            b.arr(n)
        } else if self.is_word("i32") {
            self.i += 1;
            Ty::I32
        } else {
            self.word("void")?;
            Ty::Unit
        };
        loop {
            if self.is('*') {
                self.i += 1;
                t = t.ptr();
            } else if self.is('(') {
                let ps = self.list(|p| p.ty())?;
                self.mark('*')?;
                t = Ty::Func(ps, Rc::new(t));
            } else {
                return Ok(t);
            }
        }
    }
    fn list<T>(&mut self, f: impl Fn(&mut P) -> R<T>) -> R<Vec<T>> {
        self.mark('(')?;
        let mut v = Vec::new();
        if !self.is(')') {
            v.push(f(self)?);
            while self.is(',') {
                self.i += 1;
                v.push(f(self)?);
            }
        }
        self.mark(')')?;
        Ok(v)
    }
    /// A value of a type that has been read already.
    fn val(&mut self, t: &Ty) -> R<Val> {
        match self.peek() {
            Some(Tok::Word(w)) if w.starts_with(['@', '%']) => {
                let w = w.clone();
                self.i += 1;
                Ok(Val::Name(w, t.clone()))
            }
            _ => Ok(Val::Const(self.constant(t)?)),
        }
    }
    fn constant(&mut self, t: &Ty) -> R<Const> {
        if self.is_word("undef") {
            self.i += 1;
            return Ok(Const::Undef(t.clone()));
        }
        if self.is_word("zeroinitializer") {
            self.i += 1;
            return Ok(Const::Zero(t.clone()));
        }
        match t {
            Ty::I32 => match self.any_word()?.parse::<i32>() {
                Ok(i) => Ok(Const::Int(i)),
                Err(_) => {
                    self.i -= 1;
                    self.err("an i32 constant")
                }
            },
            Ty::Arr(b, n) => {
                self.mark('[')?;
                let mut v = Vec::new();
                loop {
                    let et = self.ty()?;
                    if et != **b {
                        return self.err("an element of the right type before this");
                    }
                    v.push(self.constant(&et)?);
                    if !self.is(',') {
                        break;
                    }
                    self.i += 1;
                }
                self.mark(']')?;
                if v.len() != *n {
                    return self.err("another number of elements before this");
                }
                Ok(Const::Agg(v))
            }
            _ => self.err("a constant"),
        }
    }
    fn typed(&mut self) -> R<Val> {
        let t = self.ty()?;
        self.val(&t)
    }
    fn inst(&mut self) -> R<RawInst> {
        let line = self.line();
        let name = match self.peek() {
            Some(Tok::Word(w)) if w.starts_with('%') => {
                let w = self.name('%')?;
                self.mark('=')?;
                Some(w)
            }
            _ => None,
        };
        let op = self.any_word()?;
        let raw = match op.as_str() {
            "phi" => {
                let t = self.ty()?;
                let mut v = Vec::new();
                if self.is('[') && self.line() == line {
                    loop {
                        self.mark('[')?;
                        let x = self.val(&t)?;
                        self.mark(',')?;
                        let b = self.name('%')?;
                        self.mark(']')?;
                        v.push((x, b));
                        if !self.is(',') {
                            break;
                        }
                        self.i += 1;
                    }
                }
                Raw::Phi(t, v)
            }
            "alloca" => Raw::Alloca(self.ty()?),
            "load" => {
                let t = self.ty()?;
                self.mark(',')?;
                Raw::Load(t, self.typed()?)
            }
            "store" => {
                let v = self.typed()?;
                self.mark(',')?;
                Raw::Store(v, self.typed()?)
            }
            "getelementptr" => {
                self.word("inbounds")?;
                let t = self.ty()?;
                self.mark(',')?;
                let v = self.typed()?;
                let mut ix = Vec::new();
                while self.is(',') {
                    self.i += 1;
                    ix.push(self.typed()?);
                }
                Raw::Gep(t, v, ix)
            }
            "icmp" => {
                let p = self.any_word()?;
                self.word("i32")?;
                let a = self.val(&Ty::I32)?;
                self.mark(',')?;
                Raw::Icmp(p, a, self.val(&Ty::I32)?)
            }
            "zext" => {
                self.word("i1")?;
                let n = self.name('%')?;
                self.word("to")?;
                self.word("i32")?;
                Raw::Zext(n)
            }
            "add" | "sub" | "mul" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.word("i32")?;
                let a = self.val(&Ty::I32)?;
                self.mark(',')?;
                Raw::Bin(op, a, self.val(&Ty::I32)?)
            }
            "br" => {
                if self.is_word("label") {
                    self.i += 1;
                    Raw::Br(self.name('%')?)
                } else {
                    self.word("i1")?;
                    let c = self.name('%')?;
                    self.mark(',')?;
                    self.word("label")?;
                    let a = self.name('%')?;
                    self.mark(',')?;
                    self.word("label")?;
                    Raw::CondBr(c, a, self.name('%')?)
                }
            }
            "call" => {
                let t = self.ty()?;
                let f = self.name('@')?;
                Raw::Call(t, f, self.list(|p| p.typed())?)
            }
            "ret" => {
                let t = self.ty()?;
                Raw::Ret(if t == Ty::Unit { None } else { Some(self.val(&t)?) })
            }
            _ => {
                self.i -= 1;
                return self.err("an instruction");
            }
        };
        if self.i < self.t.len() && self.line() == line {
            return self.err("the end of the line");
        }
        Ok(RawInst { name, raw, line })
    }
    fn func(&mut self, decl: bool) -> R<RawFunc> {
        let ret = self.ty()?;
        let name = self.name('@')?;
        let params = self.list(|p| {
            let t = p.ty()?;
            Ok((if decl { None } else { Some(p.name('%')?) }, t))
        })?;
        let mut blocks = Vec::new();
        if !decl {
            self.mark('{')?;
            while !self.is('}') {
                let Some(Tok::Label(l)) = self.peek().cloned() else { return self.err("a label") };
                self.i += 1;
                let mut insts = Vec::new();
                while !matches!(self.peek(), Some(Tok::Label(_)) | Some(Tok::Mark('}')) | None) {
                    insts.push(self.inst()?);
                }
                blocks.push(RawBlock { label: format!("%{l}"), insts });
            }
            self.mark('}')?;
        }
        Ok(RawFunc { name, ret, params, blocks })
    }
}

pub fn read(text: &str) -> R<Prog> {
    let mut p = P { t: lex(text)?, i: 0 };
    let mut out = Prog::default();
    let mut gtys: BTreeMap<String, (Op, Ty)> = BTreeMap::new();
    let mut raws = Vec::new();
    let mut fnames: BTreeMap<String, usize> = BTreeMap::new();
    while let Some(t) = p.peek() {
        match t {
            Tok::Word(w) if w == "define" || w == "declare" => {
                let decl = w == "declare";
                p.i += 1;
                let f = p.func(decl)?;
                if !decl && f.blocks.is_empty() {
                    return Err(format!("{} has no blocks", f.name));
                }
                if fnames.insert(f.name.clone(), raws.len()).is_some() || gtys.contains_key(&f.name) {
                    return Err(format!("{} is defined twice", f.name));
                }
                raws.push(f);
            }
            _ => {
                let n = p.name('@')?;
                p.mark('=')?;
                p.word("global")?;
                let t = p.ty()?;
                let init = p.constant(&t)?;
                if fnames.contains_key(&n) || gtys.insert(n.clone(), (Op::Global(out.globals.len()), t.ptr())).is_some() {
                    return Err(format!("{n} is defined twice"));
                }
                out.globals.push(Global { name: Some(n), init });
            }
        }
    }
    for f in &raws {
        out.funcs.push(Func {
            name: f.name.clone(),
            ret: f.ret.clone(),
            params: f.params.clone(),
            blocks: vec![],
        });
    }
    for (i, f) in raws.iter().enumerate() {
        out.funcs[i].blocks = Body { f, gtys: &gtys, fnames: &fnames, raws: &raws, defs: BTreeMap::new(), labels: BTreeMap::new() }
            .read().map_err(|e| format!("in {}: {e}", f.name))?;
    }
    Ok(out)
}

struct Body<'a> {
    f: &'a RawFunc,
    gtys: &'a BTreeMap<String, (Op, Ty)>,
    fnames: &'a BTreeMap<String, usize>,
    raws: &'a [RawFunc],
    defs: BTreeMap<String, (Op, Ty)>,
    labels: BTreeMap<String, usize>,
}
impl Body<'_> {
    fn def(&mut self, n: &Option<String>, o: Op, t: Ty, line: usize) -> R<()> {
        let Some(n) = n else { return Err(format!("line {line}: a result without a name")) };
        match self.defs.insert(n.clone(), (o, t)) {
            None => Ok(()),
            Some(_) => Err(format!("line {line}: {n} is defined twice")),
        }
    }
    fn op(&self, v: &Val, line: usize) -> R<(Op, Ty)> {
        match v {
            Val::Const(c) => Ok((Op::Const(c.clone()), c.ty())),
            Val::Name(n, t) => {
                let d = self.defs.get(n).or_else(|| self.gtys.get(n));
                let Some(d) = d else { return Err(format!("line {line}: {n} is not defined")) };
                if d.1 != *t {
                    return Err(format!("line {line}: {n} of type {} is used as {}", d.1.to_text(), t.to_text()));
                }
                Ok(d.clone())
            }
        }
    }
    fn label(&self, l: &str, line: usize) -> R<usize> {
        self.labels.get(l).copied().ok_or_else(|| format!("line {line}: no block {l}"))
    }
    fn read(mut self) -> R<Vec<Block>> {
        let f = self.f;
        let mut out: Vec<Block> = Vec::new();
        for (i, (n, t)) in f.params.iter().enumerate() {
            if !f.blocks.is_empty() {
                self.def(n, Op::Param(i), t.clone(), 0)?;
            }
        }
        for (bi, b) in f.blocks.iter().enumerate() {
            if self.labels.insert(b.label.clone(), bi).is_some() {
                return Err(format!("block {} is defined twice", b.label));
            }
            out.push(Block { name: Some(b.label.clone()), ..Block::default() });
        }
        // definitions
        let mut bools: BTreeMap<String, ()> = BTreeMap::new();
        for (bi, b) in f.blocks.iter().enumerate() {
            let mut ii = 0;
            let mut k = 0;
            while k < b.insts.len() {
                let i = &b.insts[k];
                let line = i.line;
                if b.insts.len() > k + 1 && matches!(i.raw, Raw::Br(_) | Raw::CondBr(..) | Raw::Ret(_)) {
                    return Err(format!("line {line}: the block goes on after its end"));
                }
                let ty = match &i.raw {
                    Raw::Phi(t, _) => {
                        if ii > 0 {
                            return Err(format!("line {line}: phi after other instructions"));
                        }
                        let n = out[bi].params.len();
                        self.def(&i.name, Op::BParam(bi, n), t.clone(), line)?;
                        out[bi].params.push((i.name.clone(), t.clone()));
                        k += 1;
                        continue;
                    }
                    Raw::Icmp(..) => {
                        let Some(t) = &i.name else { return Err(format!("line {line}: a comparison without a result")) };
                        if bools.insert(t.clone(), ()).is_some() {
                            return Err(format!("line {line}: {t} is defined twice"));
                        }
                        match b.insts.get(k + 1) {
                            Some(RawInst { name, raw: Raw::Zext(x), .. }) if x == t => {
                                self.def(name, Op::Inst(bi, ii), Ty::I32, line)?;
                            }
                            Some(RawInst { raw: Raw::CondBr(x, ..), .. }) if x == t => {}
                            _ => return Err(format!("line {line}: the result of a comparison is not used next")),
                        }
                        ii += 1;
                        k += 2;
                        continue;
                    }
                    Raw::Zext(_) | Raw::CondBr(..) => return Err(format!("line {line}: no comparison before this")),
                    Raw::Alloca(t) => t.ptr(),
                    Raw::Load(t, _) => t.clone(),
                    Raw::Gep(_, v, ix) => {
                        let Val::Name(_, t) = v else { return Err(format!("line {line}: address of a constant")) };
                        let Ty::Ptr(base) = t else { return Err(format!("line {line}: address of no pointer")) };
                        match (ix.len(), &**base) {
                            (1, _) => t.clone(),
                            (2, Ty::Arr(e, _)) => e.ptr(),
                            _ => return Err(format!("line {line}: {} indices into {}", ix.len(), t.to_text())),
                        }
                    }
                    Raw::Bin(..) => Ty::I32,
                    Raw::Call(t, ..) => t.clone(),
                    _ => Ty::Unit,
                };
                if ty == Ty::Unit {
                    if i.name.is_some() {
                        return Err(format!("line {line}: a result where there is none"));
                    }
                } else {
                    self.def(&i.name, Op::Inst(bi, ii), ty, line)?;
                }
                ii += 1;
                k += 1;
            }
        }
        if let Some(n) = bools.keys().find(|n| self.defs.contains_key(*n)) {
            return Err(format!("{n} is defined twice"));
        }
        // instructions
        for (bi, b) in f.blocks.iter().enumerate() {
            let mut k = out[bi].params.len();
            while k < b.insts.len() {
                let i = &b.insts[k];
                let (kind, mut name, step) = self.inst(b, k)?;
                let ty = if matches!(kind, Kind::Bin(..)) {
                    Ty::I32
                } else {
                    i.name.as_ref().and_then(|n| self.defs.get(n)).map_or(Ty::Unit, |d| d.1.clone())
                };
                if ty == Ty::Unit {
                    name = None;
                }
                out[bi].insts.push(Inst { name, ty, kind });
                k += step;
            }
        }
        // phis become arguments of the edges
        let mut edges: Vec<Vec<(usize, bool)>> = vec![vec![]; out.len()];
        for (bi, b) in out.iter().enumerate() {
            match b.insts.last().map(|i| &i.kind) {
                Some(Kind::Br(_, t, _, e, _)) => {
                    edges[*t].push((bi, true));
                    edges[*e].push((bi, false));
                }
                Some(Kind::Jump(t, _)) => edges[*t].push((bi, true)),
                Some(Kind::Ret(_)) => {}
                _ => return Err(format!("block {} has no end", f.blocks[bi].label)),
            }
        }
        for (bi, b) in f.blocks.iter().enumerate() {
            for i in &b.insts[..out[bi].params.len()] {
                let Raw::Phi(t, entries) = &i.raw else { return Err("phi expected".into()) };
                let mut left: Vec<(Op, usize)> = Vec::new();
                for (v, l) in entries {
                    let (o, ot) = self.op(v, i.line)?;
                    if ot != *t {
                        return Err(format!("line {}: phi value of another type", i.line));
                    }
                    left.push((o, self.label(l, i.line)?));
                }
                for (from, yes) in &edges[bi] {
                    let Some(at) = left.iter().position(|e| e.1 == *from) else {
                        return Err(format!("line {}: no value for an edge from {}", i.line, f.blocks[*from].label));
                    };
                    let (o, _) = left.remove(at);
                    match &mut out[*from].insts.last_mut().unwrap().kind {
                        Kind::Br(_, _, ta, _, ea) => if *yes { ta.push(o) } else { ea.push(o) },
                        Kind::Jump(_, a) => a.push(o),
                        _ => {}
                    }
                }
                if let Some((_, l)) = left.first() {
                    return Err(format!("line {}: a value for an edge from {} that does not exist", i.line, f.blocks[*l].label));
                }
            }
        }
        Ok(out)
    }
    fn inst(&self, b: &RawBlock, k: usize) -> R<(Kind, Option<String>, usize)> {
        let i = &b.insts[k];
        let line = i.line;
        let one = |kind| Ok((kind, i.name.clone(), 1));
        let int = |v: &Val| -> R<Op> {
            let (o, t) = self.op(v, line)?;
            if t == Ty::I32 { Ok(o) } else { Err(format!("line {line}: i32 expected")) }
        };
        match &i.raw {
            Raw::Alloca(_) => one(Kind::Alloc),
            Raw::Load(t, v) => {
                let (o, vt) = self.op(v, line)?;
                if vt != t.ptr() {
                    return Err(format!("line {line}: a {} is loaded from a {}", t.to_text(), vt.to_text()));
                }
                one(Kind::Load(o))
            }
            Raw::Store(v, d) => {
                let (o, t) = self.op(v, line)?;
                let (p, pt) = self.op(d, line)?;
                if pt != t.ptr() {
                    return Err(format!("line {line}: a {} is stored to a {}", t.to_text(), pt.to_text()));
                }
                one(Kind::Store(o, p))
            }
            Raw::Gep(t, v, ix) => {
                let (o, vt) = self.op(v, line)?;
                if vt != t.ptr() {
                    return Err(format!("line {line}: {} is not the target of {}", t.to_text(), vt.to_text()));
                }
                let last = int(&ix[ix.len() - 1])?;
                if ix.len() == 1 {
                    return one(Kind::GetPtr(o, last));
                }
                if int(&ix[0])? != Op::Const(Const::Int(0)) {
                    return Err(format!("line {line}: the first index is not 0"));
                }
                one(Kind::GetElemPtr(o, last))
            }
            Raw::Icmp(p, x, y) => {
                let (x, y) = (int(x)?, int(y)?);
                match &b.insts[k + 1] {
                    RawInst { raw: Raw::CondBr(_, t, e), .. } => {
                        if p != "ne" || y != Op::Const(Const::Int(0)) {
                            return Err(format!("line {line}: the condition is not compared with 0"));
                        }
                        Ok((Kind::Br(x, self.label(t, line)?, vec![], self.label(e, line)?, vec![]), None, 2))
                    }
                    n => {
                        let o = match p.as_str() {
                            "ne" => 0,
                            "eq" => 1,
                            "sgt" => 2,
                            "slt" => 3,
                            "sge" => 4,
                            "sle" => 5,
                            _ => return Err(format!("line {line}: unknown comparison {p}")),
                        };
                        Ok((Kind::Bin(o, x, y), n.name.clone(), 2))
                    }
                }
            }
            Raw::Bin(o, x, y) => {
                const LL: [&str; 11] = ["add", "sub", "mul", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr"];
                let o = 6 + LL.iter().position(|l| l == o).unwrap();
                one(Kind::Bin(o, int(x)?, int(y)?))
            }
            Raw::Br(l) => one(Kind::Jump(self.label(l, line)?, vec![])),
            Raw::Call(t, f, a) => {
                let Some(fi) = self.fnames.get(f) else { return Err(format!("line {line}: no function {f}")) };
                let callee = &self.raws[*fi];
                let mut ops = Vec::new();
                for v in a {
                    ops.push(self.op(v, line)?);
                }
                let want: Vec<&Ty> = callee.params.iter().map(|p| &p.1).collect();
                if callee.ret != *t || ops.iter().map(|o| &o.1).collect::<Vec<_>>() != want {
                    return Err(format!("line {line}: {f} is called with other types"));
                }
                one(Kind::Call(*fi, ops.into_iter().map(|o| o.0).collect()))
            }
            Raw::Ret(None) if self.f.ret == Ty::Unit => one(Kind::Ret(None)),
            Raw::Ret(Some(v)) => {
                let (o, t) = self.op(v, line)?;
                if t != self.f.ret {
                    return Err(format!("line {line}: returns a {}", t.to_text()));
                }
                one(Kind::Ret(Some(o)))
            }
            _ => Err(format!("line {line}: unexpected instruction")),
        }
    }
}
