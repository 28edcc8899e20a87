use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, range};
use crate::generate::{any_style, emit, Gen, SMALL};
use crate::orch::Prop;
use crate::{canon, check, ev, sched};
use koopa::ir::builder_traits::*;
use koopa::ir::{BasicBlock, BinaryOp, Function, Program, Type, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "T01",
    run,
    quick: 4000,
    thorough: 1_000_000,
    rule: "an execution counts when at least two threads created handles and control moved between them while they did; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the thread scheduler (one thread at a time, control moves at heap calls, I/O, lock waits and between single instructions)",
};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum H {
    F(u64),
    B(u64),
    V(u64),
}
/// Handles as the numbers their equality is made of.
fn num<T: std::hash::Hash>(t: T) -> u64 {
    struct Id(u64);
    impl std::hash::Hasher for Id {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = self.0 << 8 | *x as u64;
            }
        }
        fn write_u32(&mut self, n: u32) {
            self.0 = n as u64;
        }
    }
    let mut h = Id(0);
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}
fn fun(out: &mut Vec<H>, f: Function) -> Function {
    out.push(H::F(num(f)));
    f
}
fn blk(out: &mut Vec<H>, b: BasicBlock) -> BasicBlock {
    out.push(H::B(num(b)));
    b
}
fn val(out: &mut Vec<H>, v: Value, global: bool) -> Value {
    out.push(H::V(num(v)));
    check!(v.is_global() == global, "kind", "a {} value counts as {}", if global { "global" } else { "local" }, if global { "local" } else { "global" });
    v
}

/// What one thread does.
enum Job {
    Globals(u32),
    Funcs(u32),
    Locals(u32),
    Blocks(u32),
    Parse(Vec<u8>),
    Build(crate::model::Prog),
}
fn any_job(tight: bool) -> Job {
    match draw(if tight { 10 } else { 13 }) {
        0..=2 => Job::Globals(if chance(1, 8) { range(40, 200) } else { range(1, 12) }),
        3 | 4 => Job::Funcs(if chance(1, 8) { range(40, 150) } else { range(1, 10) }),
        5..=7 => Job::Locals(if chance(1, 8) { range(40, 200) } else { range(1, 12) }),
        8 | 9 => Job::Blocks(if chance(1, 8) { range(40, 150) } else { range(1, 10) }),
        10 | 11 => Job::Parse(emit(&Gen::prog(SMALL), &any_style()).bytes),
        _ => Job::Build(Gen::prog(SMALL)),
    }
}

fn all_of(p: &Program, out: &mut Vec<H>) {
    for f in p.funcs().keys() {
        fun(out, *f);
    }
    for (f, d) in p.funcs() {
        let _ = f;
        for v in d.dfg().values().keys() {
            val(out, *v, false);
        }
        for b in d.dfg().bbs().keys() {
            blk(out, *b);
        }
    }
    for v in p.inst_layout() {
        val(out, *v, true);
    }
}

fn work(jobs: &[Job]) -> (Vec<H>, Vec<Program>) {
    let mut out = Vec::new();
    let mut keep = Vec::new();
    for j in jobs {
        let mut p = Program::new();
        match j {
            Job::Globals(n) => {
                for i in 0..*n {
                    sched::yield_point(sched::Y_IO);
                    let c = p.new_value().integer(i as i32);
                    val(&mut out, c, true);
                    if i % 3 == 0 {
                        let z = val(&mut out, p.new_value().zero_init(Type::get_i32()), true);
                        let g = p.new_value().global_alloc(z);
                        val(&mut out, g, true);
                    }
                }
            }
            Job::Funcs(n) => {
                for i in 0..*n {
                    sched::yield_point(sched::Y_IO);
                    let f = if i % 2 == 0 {
                        p.new_func_decl(format!("@f{i}"), vec![], Type::get_unit())
                    } else {
                        p.new_func_def(format!("@f{i}"), vec![Type::get_i32()], Type::get_unit())
                    };
                    fun(&mut out, f);
                    for v in p.func(f).params() {
                        val(&mut out, *v, false);
                    }
                }
            }
            Job::Locals(n) => {
                let f = fun(&mut out, p.new_func_def("@f".into(), vec![], Type::get_unit()));
                let d = p.func_mut(f).dfg_mut();
                for i in 0..*n {
                    sched::yield_point(sched::Y_IO);
                    let a = val(&mut out, d.new_value().integer(i as i32), false);
                    if i % 2 == 0 {
                        let b = d.new_value().binary(BinaryOp::Mul, a, a);
                        val(&mut out, b, false);
                    }
                }
            }
            Job::Blocks(n) => {
                let f = fun(&mut out, p.new_func_def("@f".into(), vec![], Type::get_unit()));
                let d = p.func_mut(f).dfg_mut();
                for i in 0..*n {
                    sched::yield_point(sched::Y_IO);
                    let b = if i % 2 == 0 { d.new_bb().basic_block(None) } else { d.new_bb().basic_block_with_params(None, vec![Type::get_i32()]) };
                    blk(&mut out, b);
                    let ps = d.bb(b).params().to_vec();
                    for v in ps {
                        val(&mut out, v, false);
                    }
                }
            }
            Job::Parse(t) => {
                let (s, q) = parse_buf(t);
                match q {
                    Some(q) => p = q,
                    None => crate::fail!("program", "a valid text is {}", s.brief()),
                }
                all_of(&p, &mut out);
            }
            Job::Build(m) => {
                p = canon::build(m);
                all_of(&p, &mut out);
            }
        }
        keep.push(p);
    }
    (out, keep)
}

fn run() {
    any_heap();
    let n = range(2, 5) as usize;
    // loops that do nothing but create handles, or whole programs
    let tight = chance(3, 4);
    let results: Rc<RefCell<Vec<(usize, Vec<H>)>>> = Default::default();
    let mut bodies: Vec<Box<dyn FnOnce()>> = Vec::new();
    for i in 0..n {
        let jobs: Vec<Job> = (0..range(1, 3)).map(|_| any_job(tight)).collect();
        let r = results.clone();
        bodies.push(Box::new(move || {
            let (h, keep) = work(&jobs);
            let _q = sched::quiet();
            r.borrow_mut().push((i, h));
            drop(_q);
            drop(keep);
        }));
    }
    if chance(1, 4) {
        // handles created before the threads start count as well
        let (h, keep) = work(&[any_job(tight)]);
        results.borrow_mut().push((99, h));
        std::mem::forget(keep);
    }
    let tune = if tight {
        sched::Tuning { gap: pick(&[5, 20, 80]), burst: pick(&[20, 80, 300]) }
    } else {
        sched::Tuning { gap: pick(&[100, 400, 1600]), burst: pick(&[20, 80, 300]) }
    };
    let panicked = sched::run(bodies, tune);
    check!(panicked.iter().all(|p| !p), "panic", "a thread panicked: {}", crate::core::sh().panic.get());
    let mut seen: BTreeMap<H, usize> = BTreeMap::new();
    let mut total = 0;
    for (i, hs) in results.borrow().iter() {
        for h in hs {
            total += 1;
            if let Some(j) = seen.insert(*h, *i) {
                crate::fail!("collision", "threads {j} and {i} both got a handle {}", match h { H::F(_) => "of one function", H::B(_) => "of one block", H::V(_) => "of one value" });
            }
        }
    }
    ev!("{total} handles");
    if crate::core::sh().faults[crate::core::F::Burst as usize] + crate::core::sh().faults[crate::core::F::Preempt as usize] > 0 {
        nontrivial();
    }
}
