use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, sh, F};
use crate::orch::Prop;
use crate::simio::{SimWriter, WPlan};
use crate::{check, ev};
use koopa::back::{Generator, NameManager, Prefix, Visitor};
use koopa::ir::{BasicBlock, Function, Program, Value};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::io::{self, Write};
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "G06",
    run,
    quick: 40000,
    thorough: 2_000_000,
    rule: "an execution counts when a visitor asked for at least four names and two of the things it asked for wanted the same name, or the generator was used again after a failure; executions are distinct when their complete event logs differ",
    real: "koopa::back::{Generator, NameManager, Prefix}, the programs that are visited (koopa::ir), the Rust standard library",
    stub: "the visitor (asks for names in an order the seed decides), writers passed to the generators (which fail or panic), the heap",
};

/// What a visitor does, fixed before the run so that it can be repeated.
struct Script {
    steps: Vec<(u32, u32, u32)>,
    end: u32,
}
fn script() -> Rc<Script> {
    let n = range(3, 60);
    let bias = draw(4);
    let steps = (0..n).map(|_| {
        let k = draw(20);
        // some scripts stay in one place, others change scopes all the time
        let k = if bias == 3 && k < 6 { 0 } else { k };
        (k, draw(1 << 16), draw(1 << 16))
    });
    Rc::new(Script { steps: steps.collect(), end: draw(5) })
}

#[derive(PartialEq, Eq, Hash, Clone, Copy, Debug)]
enum Part {
    Global(Value),
    Func(Function),
    Local(Value),
    Block(BasicBlock),
}
/// Prefix in force: how names of things that have one start, how others do.
#[derive(Clone, Debug, PartialEq)]
struct Pre(String, String, Option<usize>);
impl Pre {
    fn base(&self, name: &str) -> String {
        let (head, rest) = name.split_at(1);
        let mut s = format!("{}{}", if head == "@" { &self.0 } else { &self.1 }, rest);
        if let Some(m) = self.2 {
            let mut n = m.min(s.len());
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
        }
        s
    }
    fn real(&self) -> Prefix {
        if *self == normal() {
            return Prefix::Default;
        }
        Prefix::Custom { named: self.0.clone(), temp: self.1.clone(), max_len: self.2.and_then(NonZeroUsize::new) }
    }
}
fn normal() -> Pre {
    Pre("@".into(), "%".into(), None)
}
fn prefixes() -> Vec<Pre> {
    let mut v = vec![normal()];
    for (n, t, m) in [
        ("@", "@$", Some(513)), ("%", "%$", None), ("g_", "t_", None), ("x", "x", None), ("", "", None), ("", "t", Some(6)), ("v", "v1", Some(3)),
        ("n", "n", Some(1)), ("\u{e9}", "\u{4e2d}", Some(2)), ("named", "temp", Some(8)), ("@", "%", Some(4)),
    ] {
        v.push(Pre(n.into(), t.into(), m));
    }
    v
}

/// The reference: which names belong to which part.
#[derive(Default)]
struct Book {
    /// names of global variables, functions, values of this function and temporaries
    names: HashMap<String, Option<Part>>,
    blocks: HashMap<String, Part>,
    given: HashMap<Part, Rc<String>>,
    /// temporary names of functions that were left
    old: HashSet<String>,
    /// names given out earlier in this function
    temps: Vec<String>,
    asked: u32,
    clash: bool,
}
impl Book {
    fn leave(&mut self) {
        let local = |p: &Part| matches!(p, Part::Local(_) | Part::Block(_));
        self.names.retain(|_, p| !p.as_ref().is_some_and(local));
        self.given.retain(|p, _| !local(p));
        self.blocks.clear();
        for t in self.temps.drain(..) {
            self.names.remove(&t);
            self.old.insert(t);
        }
    }
    fn got(&mut self, part: Part, own: Option<&str>, pre: &Pre, got: &Rc<String>) {
        self.asked += 1;
        if let Some(before) = self.given.get(&part) {
            check!(before == got, "unstable", "{part:?} was called {before} before and is now called {got}");
            return;
        }
        let is_block = matches!(part, Part::Block(_));
        let taken = |b: &Book, n: &str| if is_block { b.blocks.contains_key(n) } else { b.names.contains_key(n) };
        check!(!taken(self, got), "shared-name", "{part:?} (named {own:?}) is called {got}, which is the name of {:?} in the same scope", self.names.get(&**got));
        let temp = |pre: &Pre| got.strip_prefix(&*pre.1).is_some_and(|n| !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit()));
        match own {
            None => check!(temp(pre), "prefix", "a part without a name is called {got} under the prefix {pre:?}"),
            Some(own) => {
                let base = pre.base(own);
                if taken(self, &base) {
                    self.clash = true;
                    probe("name_collision");
                    check!(got.starts_with(&base) || temp(pre), "prefix", "a part named {own} is called {got} under the prefix {pre:?}");
                } else if is_block || !self.old.contains(&base) {
                    check!(**got == base, "renamed", "a part named {own} is called {got} under the prefix {pre:?}, although nothing else is called {base}");
                }
            }
        }
        self.given.insert(part, got.clone());
        if is_block {
            self.blocks.insert(got.to_string(), part);
        } else {
            self.names.insert(got.to_string(), Some(part));
        }
    }
    fn temp(&mut self, pre: &Pre, got: &Rc<String>, in_func: bool) {
        self.asked += 1;
        check!(!self.names.contains_key(&**got), "shared-name", "the temporary name {got} is the name of {:?}", self.names[&**got]);
        check!(got.starts_with(&pre.1), "prefix", "a temporary is called {got} under the prefix {pre:?}");
        self.names.insert(got.to_string(), None);
        if in_func {
            self.temps.push(got.to_string());
        }
    }
}

#[derive(Default)]
struct Asker {
    script: Option<Rc<Script>>,
    book: Rc<RefCell<Book>>,
}
impl<W: Write> Visitor<W> for Asker {
    type Output = u32;

    fn visit(&mut self, w: &mut W, nm: &mut NameManager, p: &Program) -> io::Result<u32> {
        let script = self.script.clone().unwrap();
        let mut book = self.book.borrow_mut();
        let book = &mut *book;
        *book = Book::default();
        let prefixes = prefixes();
        let mut pre = normal();
        let mut cur: Option<Function> = None;
        for &(k, a, b) in &script.steps {
            let (a, b) = (a as usize, b as usize);
            match k {
                0 | 1 => match cur.take() {
                    Some(_) => {
                        nm.exit_func_scope();
                        book.leave();
                        writeln!(w, "}}")?;
                    }
                    None if !p.func_layout().is_empty() => {
                        nm.enter_func_scope();
                        cur = Some(p.func_layout()[a % p.func_layout().len()]);
                        writeln!(w, "{{")?;
                    }
                    None => {}
                },
                2 => {
                    // entering twice or leaving twice is refused and changes nothing
                    if b % 4 == 0 {
                        let r = catch_unwind(AssertUnwindSafe(|| match cur {
                            Some(_) => nm.enter_func_scope(),
                            None => nm.exit_func_scope(),
                        }));
                        check!(r.is_err(), "scope", "a scope was entered or left twice");
                        fault(F::RejectedEdit);
                    }
                }
                3 => {
                    // a constant has no name
                    if let Some(f) = cur {
                        let d = p.func(f);
                        let insts = d.layout().bbs().iter().flat_map(|(_, n)| n.insts().iter().map(|(v, _)| *v));
                        let ops = insts.flat_map(|v| crate::canon::operands(d.dfg().value(v).kind()));
                        let c: Vec<_> = ops.filter(|v| !v.is_global()).map(|v| d.dfg().value(v)).filter(|v| v.kind().is_const()).collect();
                        if b % 4 == 0 && !c.is_empty() {
                            let v = c[a % c.len()];
                            check!(catch_unwind(AssertUnwindSafe(|| nm.value_name(v))).is_err(), "constant", "a constant got a name");
                            fault(F::RejectedEdit);
                        }
                    }
                }
                4 => {
                    pre = prefixes[a % prefixes.len()].clone();
                    if b % 3 == 0 {
                        pre = normal();
                    }
                    nm.set_prefix(pre.real());
                }
                5 | 6 => {
                    let t = nm.temp_value_name();
                    book.temp(&pre, &t, cur.is_some());
                    write!(w, "{t} ")?;
                }
                7 | 8 => {
                    let l = p.inst_layout();
                    if !l.is_empty() {
                        let v = l[a % l.len()];
                        let d = p.borrow_value(v);
                        let n = nm.value_name(&d);
                        book.got(Part::Global(v), d.name().as_deref(), &pre, &n);
                        write!(w, "{n} ")?;
                    }
                }
                9 | 10 => {
                    let l = p.func_layout();
                    if !l.is_empty() {
                        let f = l[a % l.len()];
                        let n = nm.func_name(p.func(f));
                        book.got(Part::Func(f), Some(p.func(f).name()), &pre, &n);
                        write!(w, "{n}() ")?;
                    }
                }
                19 if b % 2 == 0 => {
                    // everything in this function, in one of the orders of a printer
                    let Some(f) = cur else { continue };
                    let d = p.func(f);
                    let mut all = vec![];
                    let (mut late, first) = (vec![], a % 2 == 0);
                    all.extend(d.params().iter().map(|v| Part::Local(*v)));
                    for (bb, n) in d.layout().bbs() {
                        all.push(Part::Block(*bb));
                        let l = if first { &mut late } else { &mut all };
                        l.extend(d.dfg().bb(*bb).params().iter().map(|v| Part::Local(*v)));
                        l.extend(n.insts().iter().map(|(v, _)| Part::Local(*v)));
                    }
                    all.extend(late);
                    if a % 4 > 1 {
                        all.reverse();
                    }
                    for part in all {
                        let (own, n) = match part {
                            Part::Block(b) => (d.dfg().bb(b).name().clone(), nm.bb_name(d.dfg().bb(b))),
                            Part::Local(v) => (d.dfg().value(v).name().clone(), nm.value_name(d.dfg().value(v))),
                            _ => unreachable!(),
                        };
                        book.got(part, own.as_deref(), &pre, &n);
                        write!(w, "{n} ")?;
                    }
                }
                _ => {
                    let Some(f) = cur else { continue };
                    let d = p.func(f);
                    let bbs: Vec<_> = d.layout().bbs().iter().map(|(b, _)| *b).collect();
                    let mut local: Vec<Value> = d.params().to_vec();
                    if !bbs.is_empty() {
                        let bb = bbs[b % bbs.len()];
                        if k < 13 {
                            let n = nm.bb_name(d.dfg().bb(bb));
                            book.got(Part::Block(bb), d.dfg().bb(bb).name().as_deref(), &pre, &n);
                            write!(w, "{n}: ")?;
                            continue;
                        }
                        local.extend(d.dfg().bb(bb).params());
                        local.extend(d.layout().bbs().node(&bb).unwrap().insts().iter().map(|(v, _)| *v));
                    }
                    if !local.is_empty() {
                        let v = local[a % local.len()];
                        let d = d.dfg().value(v);
                        let n = nm.value_name(d);
                        book.got(Part::Local(v), d.name().as_deref(), &pre, &n);
                        write!(w, "{n} ")?;
                    }
                }
            }
        }
        match script.end {
            // some visitors give up by themselves
            0 => Err(io::Error::new(io::ErrorKind::Other, "the visitor gives up")),
            _ => Ok(book.asked),
        }
    }
}

fn run() {
    any_heap();
    let mut m = any_model();
    if chance(1, 2) {
        share_names(&mut m);
    }
    let mut progs = vec![crate::canon::build(&m)];
    if chance(1, 2) {
        let m = any_model();
        progs.push(crate::canon::build(&m));
    }
    let (w, log) = SimWriter::new(WPlan::default());
    let ctl = w.control();
    let book: Rc<RefCell<Book>> = Rc::default();
    let cell: Rc<RefCell<Option<Rc<Script>>>> = Rc::default();
    let mut g = Generator::with_visitor(w, Shared(Asker { script: None, book: book.clone() }, cell.clone()));
    let mut failed = false;
    let mut scripts: Vec<Rc<Script>> = vec![];
    for _ in 0..range(1, 5) {
        let s = if !scripts.is_empty() && chance(1, 2) { scripts[draw(scripts.len() as u32) as usize].clone() } else { script() };
        scripts.push(s.clone());
        let p = &progs[draw(progs.len() as u32) as usize];
        // alone, with a sink that takes everything
        let mut alone = Generator::with_visitor(Vec::new(), Asker { script: Some(s.clone()), book: Rc::default() });
        let want = alone.generate_on(p);
        let text = alone.writer();
        *cell.borrow_mut() = Some(s.clone());
        let start = log.borrow().got.len();
        log.borrow_mut().stopped = false;
        let calm = chance(3, 5);
        let plan = if calm {
            WPlan::default()
        } else {
            WPlan { stop_at: Some(start + draw(text.len() as u32 + 1) as usize), stop: draw(3), transient: true, ..wplan() }
        };
        ctl.set(Some(plan));
        let r = catch_unwind(AssertUnwindSafe(|| g.generate_on(p)));
        let l = log.borrow();
        let got = &l.got[start..];
        ev!("visit with {} steps: {} of {} bytes, stopped {}, {} asked", s.steps.len(), got.len(), text.len(), l.stopped, book.borrow().asked);
        check!(text.starts_with(got), "other-names", "the names differ from those a fresh generator gives: {}", crate::core::diff(&lossy(&text), &lossy(got)));
        match r {
            Err(_) => {
                check!(plan.stop == 2 && l.stopped && sh().panic.get().contains("the sink gives up"), "panic", "generation panicked: {}", sh().panic.get());
                fault(F::PanicSink);
                failed = true;
            }
            Ok(Err(e)) => {
                check!(l.stopped || s.end == 0, "result", "the visit failed without a reason: {e}");
                if !l.stopped {
                    check!(e.to_string() == "the visitor gives up", "result", "another error than the one of the visitor: {e}");
                    check!(got == &text[..], "result", "text is missing: {} of {} bytes", got.len(), text.len());
                }
                failed = true;
            }
            Ok(Ok(n)) => {
                check!(!l.stopped, "result", "the sink failed and the visit did not");
                check!(want.as_ref().is_ok_and(|w| *w == n), "result", "the visitor returned {n}, alone it returned {want:?}");
                check!(got == &text[..], "result", "text is missing: {} of {} bytes", got.len(), text.len());
            }
        }
        let b = book.borrow();
        if b.asked >= 4 && b.clash || failed && start != 0 {
            nontrivial();
        }
    }
}
fn any_model() -> crate::model::Prog {
    let mut c = crate::generate::any_cfg();
    c.shape = 0;
    let mut m = crate::generate::Gen::prog(c);
    // names that only the interface can give
    for f in &mut m.funcs {
        if !f.is_decl() && chance(1, 6) {
            f.name = pick(&["@f", "@0", "%1", "%f", "@\u{e9}t\u{e9}", "@x_0"]).into();
        }
    }
    m
}
/// The visitor in use, whose script changes between visits.
struct Shared(Asker, Rc<RefCell<Option<Rc<Script>>>>);
impl<W: Write> Visitor<W> for Shared {
    type Output = u32;
    fn visit(&mut self, w: &mut W, nm: &mut NameManager, p: &Program) -> io::Result<u32> {
        self.0.script = self.1.borrow().clone();
        self.0.visit(w, nm, p)
    }
}
