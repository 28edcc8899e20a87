use super::s06::source;
use super::util::*;
use crate::core::{chance, cut, diff, draw, nontrivial, pick, probe, range};
use crate::model::BINOPS;
use crate::orch::Prop;
use crate::os::{self, os, Plan, CALM};
use crate::simio::{RPlan, SimReader};
use crate::{check, ev, sys};
use koopa::front::ast::{Ast, AstBox, AstKind};
use koopa::front::lexer::Lexer;
use koopa::front::parser::Parser;
use koopa::front::span::{Error, FileType, Span};
use koopa::front::token::{Keyword, Token, TokenKind};
use koopa::ir::BinaryOp;
use std::fmt::Write;
use std::io::{BufReader, Read};

pub static PROP: Prop = Prop {
    id: "S07",
    run,
    quick: 50000,
    thorough: 1_000_000,
    rule: "an execution counts when at least twenty tokens or two trees were compared; executions are distinct when their complete event logs differ",
    real: "koopa::front::{Lexer, Parser, ast, span, token}, used directly, the Rust standard library",
    stub: "readers passed to the lexers, open(2), read(2), write(2) on standard error",
};

pub(super) type At = (u32, u32);

/// A token as the language description has it; `None`: not a token.
struct Tok {
    what: Option<String>,
    from: At,
    to: At,
}
/// The places of all bytes, and of the end.
pub(super) fn places(b: &[u8]) -> Vec<At> {
    let (mut l, mut c) = (1, 0);
    let mut v = Vec::with_capacity(b.len() + 1);
    for x in b {
        if *x == b'\n' {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
        v.push((l, c));
    }
    v.push((l, c));
    v
}
const WORDS: [&str; 15] = [
    "i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump", "call", "ret",
    "fun", "decl",
];
fn reference(b: &[u8]) -> Vec<Tok> {
    let at = places(b);
    let ch = |i: usize| b.get(i).map(|c| *c as char);
    let run = |mut i: usize, f: &dyn Fn(char) -> bool| {
        while ch(i).is_some_and(f) {
            i += 1;
        }
        i
    };
    let mut out = Vec::new();
    let mut i = 0;
    while let Some(c) = ch(i) {
        let s = i;
        // where the token ends and what it is
        let (e, what) = if c.is_whitespace() {
            i += 1;
            continue;
        } else if c == '/' {
            match ch(i + 1) {
                Some('/') => {
                    i = run(i, &|c| c != '\n' && c != '\r');
                    continue;
                }
                Some('*') => match b[i + 2..].windows(2).position(|w| w == b"*/") {
                    Some(n) => {
                        i += n + 4;
                        continue;
                    }
                    None => (b.len(), None),
                },
                _ => (i + 1, None),
            }
        } else if c == '@' || c == '%' {
            let e = match ch(i + 1) {
                Some(d) if d.is_numeric() => match (c, d) {
                    ('@', _) => i + 1,
                    (_, '0') => i + 2,
                    _ => run(i + 1, &char::is_numeric),
                },
                _ => run(i + 1, &|c| c.is_alphanumeric() || c == '_'),
            };
            let name: String = b[i..e].iter().map(|c| *c as char).collect();
            (e, (e > i + 1).then(|| format!("symbol {name}")))
        } else if c.is_alphabetic() {
            let e = run(i, &char::is_alphanumeric);
            let w: String = b[i..e].iter().map(|c| *c as char).collect();
            let known = WORDS.contains(&w.as_str()) || BINOPS.contains(&w.as_str());
            (e, known.then(|| format!("word {w}")))
        } else if c.is_numeric() || c == '-' {
            let e = run(i + 1, &char::is_numeric);
            let w: String = b[i..e].iter().map(|c| *c as char).collect();
            (e, w.parse::<i64>().ok().map(|n| format!("int {n}")))
        } else {
            (i + 1, Some(format!("char {c:?}")))
        };
        i = e;
        if what.is_none() {
            // reading goes on at the next white space
            i = run(i, &|c| !c.is_whitespace());
        }
        out.push(Tok { what, from: at[s], to: at[e - 1] });
    }
    let end = at[b.len()];
    out.push(Tok { what: Some("end".into()), from: end, to: end });
    out
}
fn kind(k: &TokenKind) -> String {
    match k {
        TokenKind::Int(i) => format!("int {i}"),
        TokenKind::Symbol(s) => format!("symbol {s}"),
        TokenKind::Keyword(k) => {
            let n = match k {
                Keyword::I32 => 0,
                Keyword::Undef => 1,
                Keyword::ZeroInit => 2,
                Keyword::Global => 3,
                Keyword::Alloc => 4,
                Keyword::Load => 5,
                Keyword::Store => 6,
                Keyword::GetPtr => 7,
                Keyword::GetElemPtr => 8,
                Keyword::Br => 9,
                Keyword::Jump => 10,
                Keyword::Call => 11,
                Keyword::Ret => 12,
                Keyword::Fun => 13,
                Keyword::Decl => 14,
            };
            format!("word {}", WORDS[n])
        }
        TokenKind::BinaryOp(o) => format!("word {}", op(*o)),
        TokenKind::Other(c) => format!("char {c:?}"),
        TokenKind::End => "end".into(),
    }
}
fn op(o: BinaryOp) -> &'static str {
    match o {
        BinaryOp::NotEq => "ne",
        BinaryOp::Eq => "eq",
        BinaryOp::Gt => "gt",
        BinaryOp::Lt => "lt",
        BinaryOp::Ge => "ge",
        BinaryOp::Le => "le",
        BinaryOp::Add => "add",
        BinaryOp::Sub => "sub",
        BinaryOp::Mul => "mul",
        BinaryOp::Div => "div",
        BinaryOp::Mod => "mod",
        BinaryOp::And => "and",
        BinaryOp::Or => "or",
        BinaryOp::Xor => "xor",
        BinaryOp::Shl => "shl",
        BinaryOp::Shr => "shr",
        BinaryOp::Sar => "sar",
    }
}
fn span(from: At, to: At) -> String {
    format!("{}:{}-{}:{}", from.0, from.1, to.0, to.1)
}

/// A tree as the grammar has it.
struct N {
    what: String,
    from: At,
    to: At,
    kids: Vec<N>,
}
impl N {
    fn show(&self, depth: usize, out: &mut String) {
        let _ = writeln!(out, "{:depth$}{} {}", "", self.what, span(self.from, self.to));
        self.kids.iter().for_each(|k| k.show(depth + 1, out));
    }
}
struct P<'a> {
    t: &'a [Tok],
    i: usize,
    deep: u32,
}
type O<T> = Option<T>;
impl P<'_> {
    /// What the current token is; the text after `word`, `symbol`, `int`.
    fn is(&self, s: &str) -> bool {
        self.t[self.i].what.as_deref() == Some(s)
    }
    fn from(&self) -> At {
        self.t[self.i].from
    }
    fn last(&self) -> At {
        self.t[self.i - 1].to
    }
    /// Nothing is known to be right until the token after it is read.
    fn step(&mut self) -> O<()> {
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        self.t[self.i].what.as_ref().map(|_| ())
    }
    fn eat(&mut self, s: &str) -> O<()> {
        if self.is(s) { self.step() } else { None }
    }
    fn ch(&mut self, c: char) -> O<()> {
        self.eat(&format!("char {c:?}"))
    }
    fn is_ch(&self, c: char) -> bool {
        self.is(&format!("char {c:?}"))
    }
    fn of(&self, kind: &str) -> O<String> {
        self.t[self.i].what.as_ref()?.strip_prefix(kind)?.strip_prefix(' ').map(str::to_string)
    }
    fn sym(&mut self) -> O<String> {
        let s = self.of("symbol")?;
        self.step()?;
        Some(s)
    }
    fn n(&self, from: At, what: impl Into<String>, kids: Vec<N>) -> N {
        N { what: what.into(), from, to: self.last(), kids }
    }
    fn list<T>(&mut self, f: fn(&mut Self) -> O<T>) -> O<Vec<T>> {
        self.ch('(')?;
        let mut v = Vec::new();
        if !self.is_ch(')') {
            v.push(f(self)?);
            while self.is_ch(',') {
                self.step()?;
                v.push(f(self)?);
            }
        }
        self.ch(')')?;
        Some(v)
    }
    fn opt_list<T>(&mut self, f: fn(&mut Self) -> O<T>) -> O<Vec<T>> {
        if self.is_ch('(') { self.list(f) } else { Some(vec![]) }
    }
    fn ret(&mut self) -> O<Vec<N>> {
        if !self.is_ch(':') {
            return Some(vec![]);
        }
        self.step()?;
        Some(vec![self.ty()?])
    }
    fn deeper(&mut self) -> O<()> {
        self.deep += 1;
        if self.deep > 2000 {
            crate::core::harness_error("text too deep for the reference trees");
        }
        Some(())
    }
    fn ty(&mut self) -> O<N> {
        let from = self.from();
        self.deeper()?;
        let r = if self.is("word i32") {
            self.step()?;
            self.n(from, "i32", vec![])
        } else if self.is_ch('[') {
            self.step()?;
            let b = self.ty()?;
            self.ch(',')?;
            let n: i64 = self.of("int")?.parse().ok().filter(|n| *n > 0)?;
            self.step()?;
            self.ch(']')?;
            self.n(from, format!("array {n}"), vec![b])
        } else if self.is_ch('*') {
            self.step()?;
            let b = self.ty()?;
            self.n(from, "pointer", vec![b])
        } else if self.is_ch('(') {
            let mut k = self.list(Self::ty)?;
            let n = k.len();
            k.extend(self.ret()?);
            self.n(from, format!("function of {n}"), k)
        } else {
            return None;
        };
        self.deep -= 1;
        Some(r)
    }
    fn param(&mut self) -> O<(String, N)> {
        let n = self.sym()?;
        self.ch(':')?;
        Some((n, self.ty()?))
    }
    fn constant(&mut self, also: &str) -> O<N> {
        let from = self.from();
        let what = match (self.of("int"), self.of("word")) {
            (Some(i), _) => format!("int {}", i.parse::<i64>().ok()? as i32),
            (_, Some(w)) if w == "undef" || w == also => w,
            _ => return None,
        };
        self.step()?;
        Some(self.n(from, what, vec![]))
    }
    fn value(&mut self) -> O<N> {
        let from = self.from();
        match self.of("symbol") {
            Some(s) => {
                self.step()?;
                Some(self.n(from, format!("symbol {s}"), vec![]))
            }
            None => self.constant("undef"),
        }
    }
    fn init(&mut self) -> O<N> {
        let from = self.from();
        if !self.is_ch('{') {
            return self.constant("zeroinit");
        }
        self.deeper()?;
        self.step()?;
        let mut k = vec![self.init()?];
        while self.is_ch(',') {
            self.step()?;
            k.push(self.init()?);
        }
        self.ch('}')?;
        self.deep -= 1;
        Some(self.n(from, "aggregate", k))
    }
    fn call(&mut self) -> O<N> {
        let from = self.from();
        self.eat("word call")?;
        let f = self.sym()?;
        let k = self.list(Self::value)?;
        Some(self.n(from, format!("call {f}"), k))
    }
    fn rhs(&mut self) -> O<N> {
        let from = self.from();
        let w = self.of("word")?;
        if w == "call" {
            return self.call();
        }
        self.step()?;
        let (what, k) = match w.as_str() {
            "alloc" => (w, vec![self.ty()?]),
            "load" => (format!("load {}", self.sym()?), vec![]),
            "getptr" | "getelemptr" => {
                let s = self.sym()?;
                self.ch(',')?;
                (format!("{w} {s}"), vec![self.value()?])
            }
            _ if BINOPS.contains(&w.as_str()) => {
                let a = self.value()?;
                self.ch(',')?;
                (w, vec![a, self.value()?])
            }
            _ => return None,
        };
        Some(self.n(from, what, k))
    }
    /// A statement, and whether it ends the block.
    fn stmt(&mut self) -> O<(N, bool)> {
        let from = self.from();
        if let Some(s) = self.of("symbol") {
            self.step()?;
            self.ch('=')?;
            let v = self.rhs()?;
            return Some((self.n(from, format!("define {s}"), vec![v]), false));
        }
        let w = self.of("word")?;
        if w == "call" {
            return Some((self.call()?, false));
        }
        if !matches!(w.as_str(), "store" | "br" | "jump" | "ret") {
            return None;
        }
        self.step()?;
        let (what, k) = match w.as_str() {
            "store" => {
                let v = if self.of("symbol").is_some() { self.value()? } else { self.init()? };
                self.ch(',')?;
                (format!("store {}", self.sym()?), vec![v])
            }
            "br" => {
                let mut k = vec![self.value()?];
                self.ch(',')?;
                let t = self.sym()?;
                let ta = self.opt_list(Self::value)?;
                self.ch(',')?;
                let f = self.sym()?;
                let n = ta.len();
                k.extend(ta);
                k.extend(self.opt_list(Self::value)?);
                (format!("br {t} {n} {f}"), k)
            }
            "jump" => (format!("jump {}", self.sym()?), self.opt_list(Self::value)?),
            _ => (w.clone(), if self.from().0 == self.last().0 { vec![self.value()?] } else { vec![] }),
        };
        Some((self.n(from, what, k), w != "store"))
    }
    fn block(&mut self) -> O<N> {
        let from = self.from();
        let name = self.sym()?;
        let (names, mut k): (Vec<_>, Vec<_>) = self.opt_list(Self::param)?.into_iter().unzip();
        self.ch(':')?;
        loop {
            let (s, end) = self.stmt()?;
            k.push(s);
            if end {
                return Some(self.n(from, format!("block {name} {names:?}"), k));
            }
        }
    }
    fn item(&mut self) -> O<N> {
        let from = self.from();
        if self.is("end") {
            return Some(N { what: "end".into(), from, to: from, kids: vec![] });
        }
        let w = self.of("word").filter(|w| matches!(w.as_str(), "global" | "fun" | "decl"))?;
        self.step()?;
        let name = self.sym()?;
        let (what, k) = match w.as_str() {
            "global" => {
                self.ch('=')?;
                let from = self.from();
                self.eat("word alloc")?;
                let t = self.ty()?;
                self.ch(',')?;
                let i = self.init()?;
                (format!("global {name}"), vec![self.n(from, "memory", vec![t, i])])
            }
            "fun" => {
                let (names, mut k): (Vec<_>, Vec<_>) = self.list(Self::param)?.into_iter().unzip();
                k.extend(self.ret()?);
                let n = k.len();
                self.ch('{')?;
                while !self.is_ch('}') {
                    k.push(self.block()?);
                }
                if k.len() == n {
                    return None;
                }
                self.step()?;
                (format!("fun {name} {names:?} {n}"), k)
            }
            _ => {
                let mut k = self.list(Self::ty)?;
                let n = k.len();
                k.extend(self.ret()?);
                (format!("decl {name} of {n}"), k)
            }
        };
        Some(self.n(from, what, k))
    }
}
/// The trees of all items up to the first problem, and whether there is one.
fn trees(t: &[Tok]) -> (Vec<String>, bool) {
    let mut p = P { t, i: 0, deep: 0 };
    let mut v = Vec::new();
    if t[0].what.is_none() {
        return (v, true);
    }
    loop {
        let Some(n) = p.item() else { return (v, true) };
        let mut s = String::new();
        n.show(0, &mut s);
        v.push(s);
        if n.what == "end" {
            return (v, false);
        }
    }
}

pub(super) fn shown(a: &Ast) -> String {
    let mut s = String::new();
    show(a, 0, &mut s);
    s
}
fn show(a: &Ast, depth: usize, out: &mut String) {
    let names = |v: &[(String, AstBox)]| format!("{:?}", v.iter().map(|x| &x.0).collect::<Vec<_>>());
    let mut k: Vec<&AstBox> = Vec::new();
    let what = match &a.kind {
        AstKind::IntType(_) => "i32".into(),
        AstKind::ArrayType(x) => {
            k.push(&x.base);
            format!("array {}", x.len)
        }
        AstKind::PointerType(x) => {
            k.push(&x.base);
            "pointer".into()
        }
        AstKind::FunType(x) => {
            k.extend(&x.params);
            k.extend(&x.ret);
            format!("function of {}", x.params.len())
        }
        AstKind::SymbolRef(x) => format!("symbol {}", x.symbol),
        AstKind::IntVal(x) => format!("int {}", x.value),
        AstKind::UndefVal(_) => "undef".into(),
        AstKind::Aggregate(x) => {
            k.extend(&x.elems);
            "aggregate".into()
        }
        AstKind::ZeroInit(_) => "zeroinit".into(),
        AstKind::SymbolDef(x) => {
            k.push(&x.value);
            format!("define {}", x.name)
        }
        AstKind::GlobalDef(x) => {
            k.push(&x.value);
            format!("global {}", x.name)
        }
        AstKind::MemDecl(x) => {
            k.push(&x.ty);
            "alloc".into()
        }
        AstKind::GlobalDecl(x) => {
            k.extend([&x.ty, &x.init]);
            "memory".into()
        }
        AstKind::Load(x) => format!("load {}", x.symbol),
        AstKind::Store(x) => {
            k.push(&x.value);
            format!("store {}", x.symbol)
        }
        AstKind::GetPointer(x) => {
            k.push(&x.value);
            format!("getptr {}", x.symbol)
        }
        AstKind::GetElementPointer(x) => {
            k.push(&x.value);
            format!("getelemptr {}", x.symbol)
        }
        AstKind::BinaryExpr(x) => {
            k.extend([&x.lhs, &x.rhs]);
            op(x.op).into()
        }
        AstKind::Branch(x) => {
            k.push(&x.cond);
            k.extend(&x.targs);
            k.extend(&x.fargs);
            format!("br {} {} {}", x.tbb, x.targs.len(), x.fbb)
        }
        AstKind::Jump(x) => {
            k.extend(&x.args);
            format!("jump {}", x.target)
        }
        AstKind::FunCall(x) => {
            k.extend(&x.args);
            format!("call {}", x.fun)
        }
        AstKind::Return(x) => {
            k.extend(&x.value);
            "ret".into()
        }
        AstKind::FunDef(x) => {
            k.extend(x.params.iter().map(|p| &p.1));
            k.extend(&x.ret);
            let n = k.len();
            k.extend(&x.bbs);
            format!("fun {} {} {n}", x.name, names(&x.params))
        }
        AstKind::Block(x) => {
            k.extend(x.params.iter().map(|p| &p.1));
            k.extend(&x.stmts);
            format!("block {} {}", x.name, names(&x.params))
        }
        AstKind::FunDecl(x) => {
            k.extend(&x.params);
            k.extend(&x.ret);
            format!("decl {} of {}", x.name, x.params.len())
        }
        AstKind::End(_) => "end".into(),
        AstKind::Error(_) => "error".into(),
    };
    let _ = writeln!(out, "{:depth$}{what} {:?}", "", a.span);
    k.iter().for_each(|k| show(k, depth + 1, out));
}

enum Mode {
    Lex(Lexer<Box<dyn Read>>),
    Tree(Parser<Box<dyn Read>>),
    Over,
}
/// One reading of one text.
struct Job {
    id: usize,
    fails: bool,
    toks: Vec<Tok>,
    trees: (Vec<String>, bool),
    /// results so far
    n: usize,
    /// ends so far
    ends: u32,
    mode: Mode,
}
fn reader(b: &[u8], id: usize) -> (Box<dyn Read>, bool) {
    let mut fail_at = if chance(1, 3) { Some(draw(b.len() as u32 + 1) as usize) } else { None };
    if fail_at.is_some() && chance(1, 2) {
        // in or right after something that is no token
        let bad: Vec<_> = reference(b).iter().enumerate().filter(|(_, t)| t.what.is_none()).map(|(i, _)| i).collect();
        if !bad.is_empty() {
            let t = &reference(b)[bad[draw(bad.len() as u32) as usize]];
            let start = b.split(|c| *c == b'\n').take(t.from.0 as usize - 1).map(|l| l.len() + 1).sum::<usize>();
            fail_at = Some((start + t.from.1 as usize + draw(8) as usize).min(b.len()));
        }
    }
    if fail_at.is_none() && chance(1, 4) {
        let name = format!("in{id}.koopa");
        sys::fs_write(&name, b);
        let f = loop {
            match std::fs::File::open(&name) {
                Ok(f) => break f,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => crate::core::harness_error(&format!("{name}: {e}")),
            }
        };
        return if chance(1, 2) { (Box::new(f), false) } else { (Box::new(BufReader::with_capacity(range(1, 9) as usize, f)), false) };
    }
    let (r, _log) = SimReader::new(b, RPlan { fail_at, once: chance(1, 2), ..rplan() });
    let r: Box<dyn Read> = if chance(1, 4) { Box::new(BufReader::with_capacity(range(1, 9) as usize, r)) } else { Box::new(r) };
    (r, fail_at.is_some())
}
fn run() {
    any_heap();
    Span::reset(FileType::Buffer);
    let mut jobs = Vec::new();
    os().plan = Plan { short_r: pick(&[0, 1, 3]), intr_r: pick(&[0, 2, 20]), ..CALM };
    for id in 0..pick(&[1, 1, 1, 2, 3]) {
        let b = source();
        ev!("text {id}: {}", crate::core::show(&b));
        let (r, fails) = reader(&b, id);
        let toks = reference(&b);
        let mut j = Job { id, fails, trees: trees(&toks), toks, n: 0, ends: 0, mode: Mode::Over };
        let l = Lexer::new(r);
        if chance(2, 5) {
            j.mode = Mode::Lex(l);
        } else {
            let before = Span::error_num();
            match Parser::new(l) {
                Ok(p) => {
                    j.mode = Mode::Tree(p);
                    quiet(&j, before);
                }
                Err(e) => j.tree_failed(e, before),
            }
        }
        jobs.push(j);
    }
    while !jobs.is_empty() {
        let k = draw(jobs.len() as u32) as usize;
        // a while with the same one, then another
        let mut left = draw(40);
        loop {
            if matches!(jobs[k].mode, Mode::Over) {
                drop(jobs.swap_remove(k));
                break;
            }
            jobs[k].step();
            if left == 0 {
                break;
            }
            left -= 1;
        }
    }
    os().plan = CALM;
}
fn quiet(j: &Job, before: usize) {
    check!(Span::error_num() == before, "alarm", "text {}: a problem is counted where there is none, after {} results: {}", j.id, j.n, first_message());
}
/// Where the last problem was reported.
fn reported() -> O<String> {
    let t = os::stderr_text();
    os::stderr_clear();
    if t.len() >= os::ERRBUF {
        return None;
    }
    lossy(&t).lines().filter_map(|l| l.strip_prefix("  at <buffer>:")).next_back().map(str::to_string)
}
impl Job {
    fn step(&mut self) {
        let before = Span::error_num();
        os::stderr_clear();
        match std::mem::replace(&mut self.mode, Mode::Over) {
            Mode::Over => {}
            Mode::Lex(mut l) => {
                let r = l.next_token();
                self.mode = Mode::Lex(l);
                self.token(r, before);
            }
            Mode::Tree(mut p) => {
                let r = p.parse_next();
                self.mode = Mode::Tree(p);
                self.tree(r, before);
            }
        }
    }
    fn token(&mut self, r: Result<Token, Error>, before: usize) {
        let i = self.n.min(self.toks.len() - 1);
        let want = &self.toks[i];
        self.n += 1;
        if self.n == 20 {
            nontrivial();
        }
        let id = self.id;
        match r {
            Ok(t) => {
                quiet(self, before);
                let got = format!("{} {:?}", kind(&t.kind), t.span);
                match &want.what {
                    Some(w) => {
                        let w = format!("{w} {}", span(want.from, want.to));
                        check!(got == w, "token", "text {id}: token {i} is `{}`, the text has `{}`", cut(&got), cut(&w));
                    }
                    None => crate::fail!("token", "text {id}: token {i} is `{}`, the text has none at {:?}", cut(&got), want.from),
                }
                if t.kind == TokenKind::End {
                    check!(!self.fails, "end", "text {id}: the lexer reports the end after its reader failed");
                    self.ends += 1;
                    if self.ends == 3 {
                        probe("tokens_compared");
                        ev!("text {id}: {} tokens", self.n);
                        self.mode = Mode::Over;
                    }
                }
            }
            Err(e) if e.is_fatal() => {
                check!(self.fails, "fatal", "text {id}: fatal error without cause at token {i}: {}", first_message());
                ev!("text {id}: failed after {} tokens", self.n);
                self.mode = Mode::Over;
            }
            Err(_) => {
                check!(want.what.is_none(), "token", "text {id}: token {i} should be `{}`: {}", cut(want.what.as_deref().unwrap_or("")), first_message());
                check!(Span::error_num() == before + 1, "count", "text {id}: {} problems are counted for one token", Span::error_num() - before);
                if let Some(at) = reported() {
                    let w = format!("{}:{}", want.from.0, want.from.1);
                    check!(at == w, "place", "text {id}: token {i} is reported at {at}, not at {w}");
                }
                probe("bad_token_compared");
            }
        }
    }
    fn tree(&mut self, r: Result<AstBox, Error>, before: usize) {
        let a = match r {
            Ok(a) => a,
            Err(e) => return self.tree_failed(e, before),
        };
        let id = self.id;
        let i = self.n;
        let end = matches!(a.kind, AstKind::End(_));
        check!(!end || !self.fails, "end", "text {id}: the parser reports the end after its reader failed");
        match self.trees.0.get(i) {
            Some(want) => {
                quiet(self, before);
                let got = shown(&a);
                check!(got == *want, "tree", "text {id}: item {i} is another tree: {}", diff(want, &got));
                self.n += 1 - (end && self.ends < 2) as usize;
                self.ends += end as u32;
                if self.n == 2 {
                    nontrivial();
                }
                if end && self.ends == 3 {
                    probe("trees_compared");
                    ev!("text {id}: {} trees", self.n);
                    self.mode = Mode::Over;
                }
            }
            None => {
                check!(Span::error_num() > before, "missed", "text {id}: a problem in item {i} is not reported");
                ev!("text {id}: a problem in item {i}");
                self.mode = Mode::Over;
            }
        }
    }
    fn tree_failed(&mut self, e: Error, before: usize) {
        let (id, i) = (self.id, self.n);
        self.mode = Mode::Over;
        check!(Span::error_num() > before, "missed", "text {id}: an error is returned and not counted");
        if e.is_fatal() {
            check!(self.fails, "fatal", "text {id}: fatal error without cause in item {i}: {}", first_message());
        } else {
            check!(i >= self.trees.0.len() && self.trees.1, "tree", "text {id}: item {i} is rejected: {}", first_message());
        }
        ev!("text {id}: error in item {i}");
    }
}
