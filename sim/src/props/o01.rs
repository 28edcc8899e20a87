use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, sh, F};
use crate::generate::{Gen, SMALL};
use crate::orch::Prop;
use crate::{canon, check, ev};
use koopa::ir::builder_traits::*;
use koopa::ir::{Function, FunctionData, Program, Type, ValueKind};
use koopa::opt::{FunctionPass, ModulePass, Pass, PassManager};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "O01",
    run,
    quick: 45000,
    thorough: 1_500_000,
    rule: "an execution counts when a pass changed the program or panicked, or a manager ran more than once; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the passes (which change the program, panic, or run another manager), hash seeds",
};

#[derive(Clone, Debug)]
struct Spec {
    id: u32,
    module: bool,
    act: u32,
    /// panics in the n-th call of a run, before or after its edit
    panic: Option<(u32, bool)>,
    /// a module pass that runs a manager of its own
    nested: Vec<Spec>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Entry {
    pass: u32,
    /// name of the function when the pass saw it, or what a module pass saw
    saw: String,
    edited: bool,
}
type Log = Rc<RefCell<Vec<Entry>>>;

fn has_calls(p: &Program, f: Function) -> bool {
    p.funcs().values().any(|d| d.dfg().values().values().any(|v| matches!(v.kind(), ValueKind::Call(c) if c.callee() == f)))
}

thread_local! {
    /// Makes names of added functions differ from run to run.
    static ROUND: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
fn unused(what: &str, id: u32) -> String {
    format!("@{what}{id}r{}", ROUND.get())
}

fn edit_mod(s: &Spec, p: &mut Program) {
    match s.act % 6 {
        0 => {
            let n = unused("added", s.id);
            p.new_func_decl(n, vec![Type::get_i32()], Type::get_unit());
        }
        1 => {
            let n = unused("def", s.id);
            let f = p.new_func_def(n, vec![], Type::get_i32());
            let d = p.func_mut(f);
            let bb = d.dfg_mut().new_bb().basic_block(Some("%entry".into()));
            d.layout_mut().bbs_mut().push_key_back(bb).unwrap();
            let v = d.dfg_mut().new_value().integer(s.id as i32);
            let r = d.dfg_mut().new_value().ret(Some(v));
            d.layout_mut().bb_mut(bb).insts_mut().push_key_back(r).unwrap();
        }
        2 => {
            let f = p.func_layout().iter().rev().copied().find(|f| !has_calls(p, *f));
            if let Some(f) = f {
                p.remove_func(f);
            }
        }
        3 => {
            for d in p.funcs_mut().values_mut() {
                let n = format!("{}_m{}", d.name(), s.id);
                d.set_name(n);
            }
        }
        4 => {
            let v = p.new_value().integer(s.id as i32);
            p.new_value().global_alloc(v);
        }
        _ => {}
    }
}

fn edit_fn(s: &Spec, d: &mut FunctionData) {
    match s.act % 5 {
        0 => {
            let n = format!("{}_f{}", d.name(), s.id);
            d.set_name(n);
        }
        1 => {
            if let Some(bb) = d.layout().entry_bb() {
                let a = d.dfg_mut().new_value().alloc(Type::get_array(Type::get_i32(), 1 + s.id as usize));
                d.layout_mut().bb_mut(bb).insts_mut().push_key_front(a).unwrap();
            }
        }
        2 => {
            if let Some(bb) = d.layout().entry_bb() {
                d.dfg_mut().bb_mut(bb).set_name(Some(format!("%e{}", s.id)));
            }
        }
        3 => {
            if let Some(v) = d.params().first().copied() {
                d.dfg_mut().set_value_name(v, Some(format!("@p{}", s.id)));
            }
        }
        _ => {}
    }
}

/// The real pass. It counts its calls per run of the manager.
struct Sim {
    spec: Spec,
    log: Log,
    calls: Rc<RefCell<u32>>,
    calm: Rc<RefCell<bool>>,
}
impl Sim {
    fn enter(&self, saw: String) -> usize {
        let mut l = self.log.borrow_mut();
        l.push(Entry { pass: self.spec.id, saw, edited: false });
        *self.calls.borrow_mut() += 1;
        l.len() - 1
    }
    fn maybe_panic(&self, after: bool) {
        if let Some((n, when)) = self.spec.panic {
            if n == *self.calls.borrow() && when == after && !*self.calm.borrow() {
                fault(F::PanicPass);
                std::panic::panic_any("the pass gives up".to_string());
            }
        }
    }
}
fn all_names(p: &Program) -> String {
    p.func_layout().iter().map(|f| p.func(*f).name().to_string()).collect::<Vec<_>>().join(" ")
}
impl ModulePass for Sim {
    fn run_on(&mut self, p: &mut Program) {
        let i = self.enter(all_names(p));
        self.maybe_panic(false);
        edit_mod(&self.spec, p);
        self.log.borrow_mut()[i].edited = true;
        if !self.spec.nested.is_empty() {
            let mut m = manager(&self.spec.nested, &self.log, &self.calm).0;
            m.run_passes(p);
        }
        self.maybe_panic(true);
    }
}
impl FunctionPass for Sim {
    fn run_on(&mut self, f: Function, d: &mut FunctionData) {
        let _ = f;
        let i = self.enter(d.name().to_string());
        self.maybe_panic(false);
        edit_fn(&self.spec, d);
        self.log.borrow_mut()[i].edited = true;
        self.maybe_panic(true);
    }
}

type Counts = Vec<Rc<RefCell<u32>>>;
fn make(s: &Spec, log: &Log, calm: &Rc<RefCell<bool>>) -> (Pass, Rc<RefCell<u32>>) {
    let calls = Rc::new(RefCell::new(0));
    let p = Sim { spec: s.clone(), log: log.clone(), calls: calls.clone(), calm: calm.clone() };
    (if s.module { Pass::Module(Box::new(p)) } else { Pass::Function(Box::new(p)) }, calls)
}
fn manager(specs: &[Spec], log: &Log, calm: &Rc<RefCell<bool>>) -> (PassManager, Counts) {
    let (ps, cs): (Vec<_>, Vec<_>) = specs.iter().map(|s| make(s, log, calm)).unzip();
    (PassManager::from(ps), cs)
}

/// Does by hand what the manager has to do, on an equal program, and checks
/// the manager's log against it.
struct Shadow<'a> {
    log: &'a [Entry],
    at: usize,
    calm: bool,
}
impl Shadow<'_> {
    fn next(&mut self, pass: u32, what: &str) -> Entry {
        match self.log.get(self.at) {
            Some(e) if e.pass == pass => {
                self.at += 1;
                e.clone()
            }
            Some(e) => crate::fail!("order", "pass {} ran when {what} of pass {pass} was due", e.pass),
            None => crate::fail!("missing", "{what} of pass {pass} never happened"),
        }
    }
    /// True when the pass panicked.
    fn run(&mut self, specs: &[Spec], p: &mut Program) -> bool {
        for s in specs {
            let calm = self.calm;
            let stop = |calls: u32, after: bool| !calm && s.panic == Some((calls, after));
            if s.module {
                let (b, a) = (stop(1, false), stop(1, true));
                let e = self.next(s.id, "the run");
                let names = all_names(p);
                check!(e.saw == names, "effects", "module pass {} saw the functions {}, but the program holds {names}", s.id, e.saw);
                if b {
                    return true;
                }
                edit_mod(s, p);
                check!(e.edited, "log", "module pass {} did not finish its edit", s.id);
                if !s.nested.is_empty() && self.run(&s.nested, p) {
                    return true;
                }
                if a {
                    return true;
                }
            } else {
                let mut left: Vec<Function> = p.func_layout().to_vec();
                let all = left.len();
                for call in 1..=all as u32 {
                    let (b, a) = (stop(call, false), stop(call, true));
                    let e = self.next(s.id, "a run on a function");
                    let k = left.iter().position(|f| p.func(*f).name() == e.saw);
                    let Some(k) = k else {
                        crate::fail!("function", "function pass {} ran on {}, which is not among the {} functions left", s.id, e.saw, left.len())
                    };
                    let f = left.remove(k);
                    if b {
                        return true;
                    }
                    edit_fn(s, p.func_mut(f));
                    if a {
                        return true;
                    }
                }
            }
        }
        false
    }
}

fn any_specs(next: &mut u32, depth: u32) -> Vec<Spec> {
    let many = depth == 0 && chance(1, 60);
    if many {
        probe("many_passes");
    }
    (0..if many { range(10, 80) } else { range(1, 5) }).map(|_| {
        *next += 1;
        let id = *next;
        let module = chance(1, 2);
        let nested = if module && depth < 2 && chance(1, 5) { any_specs(next, depth + 1) } else { vec![] };
        let panic = if chance(1, if many { 100 } else { 6 }) { Some((if module { 1 } else { range(1, if chance(1, 8) { 200 } else { 4 }) }, chance(1, 2))) } else { None };
        Spec { id, module, act: draw(30), panic, nested }
    }).collect()
}

fn run() {
    any_heap();
    let mut next = 0;
    let mut specs = any_specs(&mut next, 0);
    let log: Log = Default::default();
    let calm = Rc::new(RefCell::new(false));
    let (mut m, mut counts) = manager(&specs, &log, &calm);
    let mut progs: Vec<(Program, Program)> = (0..range(1, 2)).map(|_| {
        let mut c = SMALL;
        c.funcs = pick(&[0, 1, 3, 6]);
        if specs.len() < 6 && chance(1, 80) {
            c.funcs = range(30, 300);
            c.blocks = 1;
            c.insts = 2;
            probe("crowd");
        }
        let m = Gen::prog(c);
        (canon::build(&m), canon::build(&m))
    }).collect();
    for round in 0..range(1, 4) {
        for _ in 0..draw(3) {
            // passes can be added between runs
            let more = any_specs(&mut next, 1);
            for s in more.into_iter().take(1) {
                let (p, c) = make(&s, &log, &calm);
                m.register(p);
                counts.push(c);
                specs.push(s);
            }
        }
        let k = draw(progs.len() as u32) as usize;
        ROUND.set(round);
        *calm.borrow_mut() = chance(1, 3);
        log.borrow_mut().clear();
        for c in &counts {
            *c.borrow_mut() = 0;
        }
        let (a, b) = &mut progs[k];
        let r = catch_unwind(AssertUnwindSafe(|| m.run_passes(a)));
        if r.is_err() {
            check!(sh().panic.get().contains("the pass gives up"), "panic", "panicked: {}", sh().panic.get());
            sh().panic.len = 0;
            probe("use_after_panic");
        }
        let l = log.borrow().clone();
        ev!("run {round} on {k}: {} calls, panicked {}", l.len(), r.is_err());
        let mut sd = Shadow { log: &l, at: 0, calm: *calm.borrow() };
        let stopped = sd.run(&specs, b);
        check!(stopped == r.is_err(), "panic", "the run {} although a pass {}", if r.is_err() { "panicked" } else { "went on" }, if stopped { "panicked" } else { "did not panic" });
        check!(sd.at == l.len(), "extra", "{} further calls of passes, the first of pass {}", l.len() - sd.at, l[sd.at].pass);
        let (x, y) = (canon::canon(a), canon::canon(b));
        check!(x == y, "program", "the program is not what the passes made of it: {}", crate::core::diff(&y, &x));
        canon::check_audit(a, "running passes");
        let (x, y) = (Form::Koopa.text(a), Form::Koopa.text(b));
        check!(x == y, "text", "the program prints differently: {}", crate::core::diff(&lossy(&y), &lossy(&x)));
        if !l.is_empty() {
            nontrivial();
        }
        if specs.iter().any(|s| s.module && s.act % 6 < 3) {
            probe("pass_changed_funcs");
        }
    }
}
