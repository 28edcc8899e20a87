use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, sh, F};
use crate::generate::{any_style, emit, Gen, SMALL};
use crate::orch::Prop;
use crate::simio::{RPlan, SimReader};
use crate::{check, ev, os, sched};
use koopa::front::span::FileType;
use koopa::front::Driver;
use std::cell::RefCell;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "S05",
    run,
    quick: 26000,
    thorough: 1_500_000,
    rule: "an execution counts when at least two parsers overlapped on one thread; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "readers passed to the drivers (which create, run and drop other drivers, or panic)",
};

type D = Driver<Box<dyn Read>>;
struct World {
    texts: Vec<(Vec<u8>, Shape)>,
    pool: Vec<(usize, D)>,
    left: u32,
}
type W = Rc<RefCell<World>>;

fn any_source() -> Vec<u8> {
    let t = emit(&Gen::prog(SMALL), &any_style()).bytes;
    let mut t = if t.len() > 4000 { t[..4000].to_vec() } else { t };
    match draw(4) {
        0 | 1 => t,
        2 => damage(&t),
        _ => {
            // counted problems that do not end the parse
            for k in 0..range(1, 3) {
                let toks = tokens(&t);
                if !toks.is_empty() {
                    let e = toks[draw(toks.len() as u32) as usize].1;
                    t.splice(e..e, format!(" zq{k} ").bytes());
                }
            }
            t
        }
    }
}

fn run() {
    any_heap();
    let n = range(2, 4) as usize;
    let mut texts = Vec::new();
    for i in 0..n {
        let b = any_source();
        let b2 = b.clone();
        let alone = sched::fresh_thread(move || parse_buf(&b2).0);
        ev!("text {i} alone: {} {}", alone.brief(), crate::core::show(&b));
        texts.push((b, alone));
    }
    os::stderr_clear();
    let w: W = Rc::new(RefCell::new(World { texts, pool: vec![], left: range(3, 14) }));
    loop {
        if w.borrow().left == 0 {
            break;
        }
        step(&w, 0);
    }
    // whatever is left ends now
    loop {
        let d = w.borrow_mut().pool.pop();
        match d {
            Some((i, d)) => finish_one(&w, i, d, 0),
            None => break,
        }
    }
    // and one more parser on the same thread behaves as the first one would
    let (b, want) = w.borrow().texts[0].clone();
    same("after", "a parser after all others", &want, &parse_buf(&b).0);
}

fn reader(w: &W, i: usize, depth: u32) -> Box<dyn Read> {
    let b = w.borrow().texts[i].0.clone();
    let mut plan = RPlan { short: 0, ..rplan() };
    if plan.intr != 0 && plan.intr < 10 {
        plan.intr = 10;
    }
    if chance(1, 7) {
        plan.panic_at = Some(draw(b.len() as u32 + 1) as usize);
    }
    let (mut r, _log) = SimReader::new(&b, plan);
    if depth < 3 {
        for _ in 0..draw(3) {
            let at = pick(&[draw(b.len() as u32 + 1) as usize, b.len(), 0]);
            let w = w.clone();
            let let_through = chance(1, 4);
            r.hook(at, Box::new(move || {
                if w.borrow().left == 0 {
                    return;
                }
                fault(F::Nested);
                nontrivial();
                ev!("inside the reader of text {i} at {at}:");
                if let_through {
                    step(&w, depth + 1);
                } else {
                    let r = catch_unwind(AssertUnwindSafe(|| step(&w, depth + 1)));
                    if r.is_err() {
                        expected();
                    }
                }
                ev!("back in the reader of text {i}");
            }));
        }
    }
    Box::new(r)
}
/// Only the simulated readers may panic.
fn expected() {
    check!(sh().panic.get().contains("the reader gives up"), "panic", "panicked: {}", sh().panic.get());
    fault(F::Abandoned);
}

fn create(w: &W, depth: u32) -> Option<(usize, D)> {
    let i = draw(w.borrow().texts.len() as u32) as usize;
    let r = reader(w, i, depth);
    let ft = if chance(1, 4) { FileType::Stdin } else { FileType::Buffer };
    match catch_unwind(AssertUnwindSafe(|| Driver::new(ft, r))) {
        Ok(d) => Some((i, d)),
        Err(_) => {
            expected();
            None
        }
    }
}

fn step(w: &W, depth: u32) {
    w.borrow_mut().left -= 1;
    match draw(5) {
        0 | 1 => {
            if let Some((i, d)) = create(w, depth) {
                ev!("run a parser for text {i}");
                finish_one(w, i, d, depth);
            }
        }
        2 => {
            if let Some(x) = create(w, depth) {
                ev!("keep a parser for text {}", x.0);
                w.borrow_mut().pool.push(x);
            }
        }
        3 => {
            let n = w.borrow().pool.len() as u32;
            if n > 0 {
                let x = w.borrow_mut().pool.remove(draw(n) as usize);
                ev!("run the kept parser for text {}", x.0);
                nontrivial();
                finish_one(w, x.0, x.1, depth);
            }
        }
        _ => {
            let n = w.borrow().pool.len() as u32;
            if n > 0 {
                let x = w.borrow_mut().pool.remove(draw(n) as usize);
                ev!("drop the parser for text {}", x.0);
                fault(F::Abandoned);
                drop(x);
            }
        }
    }
}

fn finish_one(w: &W, i: usize, d: D, depth: u32) {
    let want = w.borrow().texts[i].1.clone();
    match catch_unwind(AssertUnwindSafe(|| finish(d).0)) {
        Ok(mut got) => {
            if depth > 0 {
                // the counters belong to the outer parser again
                got.errors = want.errors;
                got.warnings = want.warnings;
            }
            ev!("text {i}: {}", got.brief());
            same("isolation", &format!("the parser of text {i} among others"), &want, &got);
        }
        Err(e) => {
            expected();
            ev!("the parser of text {i} was abandoned by its reader");
            probe("use_after_panic");
            if depth > 0 && chance(1, 3) {
                std::panic::resume_unwind(e);
            }
        }
    }
}
