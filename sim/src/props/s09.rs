use super::s07::{places, shown};
use super::util::*;
use crate::core::{chance, diff, draw, nontrivial, pick, probe, range};
use crate::generate::{any_style, any_text, emit, Gen, SMALL};
use crate::model::BINOPS;
use crate::orch::Prop;
use crate::simio::{RPlan, SimReader};
use crate::{canon, check, ev, os, refparse};
use koopa::front::ast::{self, Ast, AstBox, AstKind};
use koopa::front::builder::Builder;
use koopa::front::lexer::Lexer;
use koopa::front::parser::Parser;
use koopa::front::span::{FileType, Pos, Span};

pub static PROP: Prop = Prop {
    id: "S09",
    run,
    quick: 40000,
    thorough: 1_000_000,
    rule: "an execution counts when trees were handed over in another order, as copies, with other builders in turn or after a failed read; executions are distinct when their complete event logs differ",
    real: "koopa::front::{Builder, ast, Lexer, Parser, Driver, span}, used directly, koopa::ir, the Rust standard library",
    stub: "readers passed to the lexers, write(2) on standard error",
};

/// Copies a tree through the constructors; one of its parts may be changed.
struct Copy {
    /// parts to go until the one that is changed
    left: Option<u32>,
    parts: u32,
    changed: bool,
    /// whether the copies stand somewhere else
    moved: bool,
}
impl Copy {
    fn hit(&mut self) -> bool {
        self.parts += 1;
        match &mut self.left {
            Some(0) => {
                self.left = None;
                self.changed = true;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }
    fn span(&self, s: Span) -> Span {
        if !self.moved {
            return s;
        }
        let mut p = Pos::new();
        (0..draw(4)).for_each(|_| p.update(pick(&['x', '\n'])));
        Span::new(p)
    }
    fn name(&mut self, s: &str) -> String {
        if self.hit() { format!("{s}x") } else { s.to_string() }
    }
    fn list(&mut self, v: &[AstBox]) -> Vec<AstBox> {
        let mut v: Vec<_> = v.iter().map(|a| self.tree(a)).collect();
        if v.len() > 1 && self.hit() {
            v.pop();
        }
        v
    }
    fn params(&mut self, v: &[(String, AstBox)]) -> Vec<(String, AstBox)> {
        v.iter().map(|(n, t)| (self.name(n), self.tree(t))).collect()
    }
    fn opt(&mut self, v: &Option<AstBox>) -> Option<AstBox> {
        let v = v.as_ref().map(|t| self.tree(t));
        if v.is_some() && self.hit() { None } else { v }
    }
    fn tree(&mut self, a: &Ast) -> AstBox {
        let s = self.span(a.span);
        match &a.kind {
            AstKind::IntType(_) => ast::IntType::new_boxed(s),
            AstKind::ArrayType(x) => {
                let n = x.len + self.hit() as usize;
                ast::ArrayType::new_boxed(s, self.tree(&x.base), n)
            }
            AstKind::PointerType(x) => {
                let b = self.tree(&x.base);
                if self.hit() { b } else { ast::PointerType::new_boxed(s, b) }
            }
            AstKind::FunType(x) => ast::FunType::new_boxed(s, self.list(&x.params), self.opt(&x.ret)),
            AstKind::SymbolRef(x) => ast::SymbolRef::new_boxed(s, self.name(&x.symbol)),
            AstKind::IntVal(x) => {
                let v = x.value.wrapping_add(self.hit() as i32);
                ast::IntVal::new_boxed(s, v)
            }
            AstKind::UndefVal(_) => if self.hit() { ast::ZeroInit::new_boxed(s) } else { ast::UndefVal::new_boxed(s) },
            AstKind::Aggregate(x) => ast::Aggregate::new_boxed(s, self.list(&x.elems)),
            AstKind::ZeroInit(_) => if self.hit() { ast::UndefVal::new_boxed(s) } else { ast::ZeroInit::new_boxed(s) },
            AstKind::SymbolDef(x) => ast::SymbolDef::new_boxed(s, self.name(&x.name), self.tree(&x.value)),
            AstKind::GlobalDef(x) => ast::GlobalDef::new_boxed(s, self.name(&x.name), self.tree(&x.value)),
            AstKind::MemDecl(x) => ast::MemDecl::new_boxed(s, self.tree(&x.ty)),
            AstKind::GlobalDecl(x) => ast::GlobalDecl::new_boxed(s, self.tree(&x.ty), self.tree(&x.init)),
            AstKind::Load(x) => ast::Load::new_boxed(s, self.name(&x.symbol)),
            AstKind::Store(x) => ast::Store::new_boxed(s, self.tree(&x.value), self.name(&x.symbol)),
            AstKind::GetPointer(x) => {
                let (n, v) = (self.name(&x.symbol), self.tree(&x.value));
                if self.hit() { ast::GetElementPointer::new_boxed(s, n, v) } else { ast::GetPointer::new_boxed(s, n, v) }
            }
            AstKind::GetElementPointer(x) => ast::GetElementPointer::new_boxed(s, self.name(&x.symbol), self.tree(&x.value)),
            AstKind::BinaryExpr(x) => {
                let at = canon::OPS.iter().position(|o| *o == x.op).unwrap();
                let op = canon::OPS[(at + self.hit() as usize) % BINOPS.len()];
                ast::BinaryExpr::new_boxed(s, op, self.tree(&x.lhs), self.tree(&x.rhs))
            }
            AstKind::Branch(x) => {
                let c = self.tree(&x.cond);
                let (t, ta) = (self.name(&x.tbb), self.list(&x.targs));
                let (f, fa) = (self.name(&x.fbb), self.list(&x.fargs));
                ast::Branch::new_boxed(s, c, t, ta, f, fa)
            }
            AstKind::Jump(x) => ast::Jump::new_boxed(s, self.name(&x.target), self.list(&x.args)),
            AstKind::FunCall(x) => ast::FunCall::new_boxed(s, self.name(&x.fun), self.list(&x.args)),
            AstKind::Return(x) => ast::Return::new_boxed(s, self.opt(&x.value)),
            AstKind::FunDef(x) => {
                ast::FunDef::new_boxed(s, self.name(&x.name), self.params(&x.params), self.opt(&x.ret), self.list(&x.bbs))
            }
            AstKind::Block(x) => ast::Block::new_boxed(s, self.name(&x.name), self.params(&x.params), self.list(&x.stmts)),
            AstKind::FunDecl(x) => ast::FunDecl::new_boxed(s, self.name(&x.name), self.list(&x.params), self.opt(&x.ret)),
            AstKind::End(_) => ast::End::new_boxed(s),
            AstKind::Error(_) => ast::Error::new_boxed(s),
        }
    }
}

/// The same tree, made by hand. Trees are compared on the way.
fn by_hand(a: &AstBox, moved: bool) -> AstBox {
    let mut c = Copy { left: None, parts: 0, changed: false, moved };
    let copy = c.tree(a);
    check!(copy == *a, "equal", "a copy of a tree differs from it: {}", shown(a));
    if c.parts > 0 && chance(1, 3) {
        let mut c = Copy { left: Some(draw(c.parts)), parts: 0, changed: false, moved };
        let other = c.tree(a);
        check!(!c.changed || (other != *a && copy != other), "equal", "different trees are equal: {} and {}", shown(a), shown(&other));
        probe("trees_differ");
    }
    copy
}

/// One builder and what it is given.
struct Lane {
    id: usize,
    bytes: Vec<u8>,
    /// where each place of the text is
    at: Vec<(u32, u32)>,
    parser: Option<Parser<SimReader>>,
    /// trees that wait, with the text each stands for
    trees: Vec<(AstBox, Vec<u8>)>,
    builder: Builder,
    text: Vec<u8>,
    errors: usize,
    warnings: usize,
    told: Option<Vec<String>>,
    /// the trees are the text's own, in its order
    plain: bool,
    /// there was something the parser did not know
    strange: bool,
    /// the reader may fail
    fails: bool,
    /// the parser gave up
    cut: bool,
    fed: usize,
}

fn text_of(l: &Lane, a: &Ast) -> Vec<u8> {
    let s = format!("{:?}", a.span);
    let n: Vec<u32> = s.split([':', '-']).map(|x| x.trim().parse().unwrap_or_else(|_| crate::core::harness_error(&format!("span {s}")))).collect();
    let find = |l0: u32, c: u32| l.at.binary_search(&(l0, c));
    match (find(n[0], n[1]), find(n[2], n[3])) {
        (Ok(a), Ok(b)) if a <= b => l.bytes[a..=b].to_vec(),
        _ => crate::fail!("span", "text {}: an item spans {s}, where the text has nothing", l.id),
    }
}

fn counts() -> (usize, usize) {
    (Span::error_num(), Span::warning_num())
}

impl Lane {
    /// The next tree of the parser; `None` at the end or if it gives up.
    fn parse(&mut self) -> Option<(AstBox, Vec<u8>)> {
        loop {
            let (before, w) = counts();
            let _ = reports();
            let r = self.parser.as_mut()?.parse_next();
            let n = counts().0 - before;
            check!(counts().1 == w, "count", "text {}: parsing counts a warning", self.id);
            self.told(n, 0);
            match r {
                Err(e) => {
                    self.parser = None;
                    check!(n > 0, "count", "text {}: a problem is not counted", self.id);
                    // what was read before the reader failed still stands
                    self.strange |= !e.is_fatal() || n > 1;
                    self.cut = true;
                    return None;
                }
                Ok(a) => {
                    self.strange |= n > 0;
                    if matches!(a.kind, AstKind::End(_) | AstKind::Error(_)) {
                        self.ignored(&a);
                        if matches!(a.kind, AstKind::End(_)) {
                            self.parser = None;
                            return None;
                        }
                        check!(n > 0, "count", "text {}: a problem is not counted", self.id);
                        continue;
                    }
                    let t = if self.strange { vec![] } else { text_of(self, &a) };
                    return Some((a, t));
                }
            }
        }
    }
    /// Problems that were counted must have been reported.
    fn told(&mut self, e: usize, w: usize) {
        match (reports(), &mut self.told) {
            (Some(r), Some(t)) => {
                let n = |k: &str| r.iter().filter(|l| l.starts_with(k)).count();
                check!((n("error: "), n("warning: ")) == (e, w), "count", "text {}: {e} errors and {w} warnings are counted, reported are: {}", self.id, r.join(" / "));
                t.extend(r);
            }
            _ => self.told = None,
        }
        self.errors += e;
        self.warnings += w;
    }
    /// A builder takes no notice of ends and errors.
    fn ignored(&mut self, a: &AstBox) {
        let before = counts();
        os::stderr_clear();
        self.builder.build_on(a);
        check!(counts() == before && os::stderr_text().is_empty(), "silent", "text {}: an end or an error is reported by the builder", self.id);
        probe("trees_ignored");
    }
    fn feed(&mut self, a: &AstBox, text: &[u8]) {
        let before = counts();
        let _ = reports();
        self.builder.build_on(a);
        let now = counts();
        let (e, w) = (now.0 - before.0, now.1 - before.1);
        self.told(e, w);
        self.text.extend_from_slice(text);
        self.text.push(b'\n');
        self.fed += 1;
    }
    fn step(&mut self) -> bool {
        if self.parser.is_some() {
            if let Some((a, t)) = self.parse() {
                if chance(1, 4) {
                    let c = by_hand(&a, false);
                    drop(a);
                    self.feed(&c, &t);
                    nontrivial();
                } else {
                    self.feed(&a, &t);
                }
                return true;
            }
        } else if !self.trees.is_empty() {
            let (a, t) = self.trees.remove(0);
            if chance(1, 6) {
                // what a builder ignores
                let s = a.span;
                let x = if chance(1, 2) { ast::End::new_boxed(s) } else { ast::Error::new_boxed(s) };
                self.ignored(&x);
            }
            if chance(1, 2) {
                let c = by_hand(&a, chance(1, 2));
                drop(a);
                self.feed(&c, &t);
            } else {
                self.feed(&a, &t);
            }
            nontrivial();
            return true;
        }
        false
    }
    /// Compares what was built with what the text so far says.
    fn finish(self) {
        let id = self.id;
        ev!("builder {id}: {} trees, {} errors, {} warnings", self.fed, self.errors, self.warnings);
        let text = if self.strange { &self.bytes } else { &self.text };
        if !self.strange {
            let r = refparse::read(text);
            match r.result {
                _ if r.ambiguous => return probe("oracle_skipped"),
                Ok((m, w)) => {
                    let found = self.errors - self.cut as usize;
                    check!(found == 0, "alarm", "text {id}: the trees are fine, but {found} problems are reported: {}", self.told.unwrap_or_default().join(" / "));
                    check!(self.warnings == w, "warnings", "text {id}: {} warnings instead of {w}", self.warnings);
                    let p = self.builder.program();
                    let (want, got) = (m.canon(), canon::canon(&p));
                    check!(want == got, "program", "text {id}: the trees give another program: {}", diff(&want, &got));
                    canon::check_audit(&p, "building trees");
                    probe("trees_built");
                }
                Err(e) => {
                    check!(self.errors > self.cut as usize, "missed", "text {id}: nothing is reported, but {e}");
                    probe("trees_rejected");
                    if chance(1, 2) {
                        drop(self.builder);
                    }
                }
            }
        } else if !self.plain || self.fails {
            return;
        }
        // the driver says the same
        os::stderr_clear();
        let (d, p) = parse_buf(text);
        drop(p);
        let mut told = reports();
        let mut mine = self.told;
        if d.errors > 20 || self.cut && self.fails {
            return;
        }
        check!((d.errors, d.warnings) == (self.errors, self.warnings), "driver", "text {id}: {} errors and {} warnings from the builder, the driver has {}", self.errors, self.warnings, d.brief());
        if !self.strange {
            // the text stands somewhere else
            let only = |v: &mut Option<Vec<String>>| v.iter_mut().for_each(|v| v.retain(|l| !l.starts_with("  at ")));
            only(&mut told);
            only(&mut mine);
        }
        same_reports("builder and driver", &told, &mine);
    }
}

fn lane(id: usize) -> Option<Lane> {
    let mut bytes = match draw(6) {
        0 => any_text().1.bytes,
        1..=3 => emit(&Gen::prog(SMALL), &any_style()).bytes,
        _ => {
            let mut m = Gen::prog(SMALL);
            spoil_meaning(&mut m);
            emit(&m, &any_style()).bytes
        }
    };
    if chance(1, 5) {
        bytes = damage(&bytes);
    }
    ev!("text {id}: {}", crate::core::show(&bytes));
    let fail_at = if chance(1, 6) { Some(draw(bytes.len() as u32 + 1) as usize) } else { None };
    let (r, _log) = SimReader::new(&bytes, RPlan { fail_at, ..rplan() });
    let parser = Parser::new(Lexer::new(r)).ok()?;
    if fail_at.is_some() {
        nontrivial();
        probe("trees_before_failure");
    }
    Some(Lane {
        id, at: places(&bytes)[..bytes.len()].to_vec(), bytes, parser: Some(parser), trees: vec![], builder: if chance(1, 2) { Builder::new() } else { Builder::default() },
        text: vec![], errors: 0, warnings: 0, told: Some(vec![]), plain: true, strange: false, fails: fail_at.is_some(), cut: false, fed: 0,
    })
}

fn run() {
    any_heap();
    Span::reset(FileType::Buffer);
    let mut lanes: Vec<Lane> = (0..pick(&[1, 1, 2, 2, 3])).filter_map(lane).collect();
    if lanes.len() > 1 {
        nontrivial();
    }
    for l in &mut lanes {
        if chance(1, 2) {
            // all trees first, then in some order, with some left out or twice
            let mut v = vec![];
            while let Some(x) = l.parse() {
                v.push(x);
            }
            l.trees = v;
            l.plain = false;
            let n = l.trees.len();
            if n > 0 && chance(1, 4) {
                for _ in 0..range(1, 3) {
                    let (a, b) = (draw(n as u32) as usize, draw(n as u32) as usize);
                    l.trees.swap(a, b);
                }
                probe("trees_reordered");
            }
            if n > 0 && chance(1, 8) {
                l.trees.remove(draw(n as u32) as usize);
            }
            if !l.trees.is_empty() && chance(1, 8) {
                let k = draw(l.trees.len() as u32) as usize;
                let (c, t) = (by_hand(&l.trees[k].0, false), l.trees[k].1.clone());
                let to = draw(l.trees.len() as u32 + 1) as usize;
                l.trees.insert(to, (c, t));
                probe("trees_twice");
            }
        }
    }
    while !lanes.is_empty() {
        let k = draw(lanes.len() as u32) as usize;
        if !lanes[k].step() {
            lanes.swap_remove(k).finish();
            Span::reset(FileType::Buffer);
        }
    }
}
