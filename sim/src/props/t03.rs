use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, probe, range};
use crate::orch::Prop;
use crate::{check, ev, sched};
use koopa::ir::Type;
use std::cell::RefCell;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "T03",
    run,
    quick: 16000,
    thorough: 2_000_000,
    rule: "an execution counts when the pointer size was set while another thread was computing a size or setting it, too; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the thread scheduler (one thread at a time, control moves at heap calls, lock waits and between single instructions)",
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Set(usize),
    Get(usize),
}
#[derive(Clone, Copy, Debug)]
struct Call {
    who: usize,
    start: u32,
    end: u32,
    act: Act,
}
#[derive(Default)]
struct Hist {
    now: u32,
    calls: Vec<Call>,
}

#[derive(Clone, Copy)]
enum Step {
    Set(usize),
    Size(u32),
}
const SIZES: [usize; 9] = [4, 8, 2, 16, 0x1_0000_0002, 0x2_0000_0001, 7, 1, 0];

/// Types whose size is a multiple of the pointer size, and others.
fn ty(k: u32) -> (Type, Option<usize>, usize) {
    let p = || Type::get_pointer(Type::get_i32());
    match k {
        0 => (p(), Some(1), 0),
        1 => (Type::get_pointer(Type::get_array(p(), 5)), Some(1), 0),
        2 => (Type::get_function(vec![p(), Type::get_i32()], Type::get_unit()), Some(1), 0),
        3 => (Type::get_array(p(), 3), Some(3), 0),
        4 => (Type::get_array(Type::get_array(p(), 4), 5), Some(20), 0),
        5 => (Type::get_array(Type::get_function(vec![], Type::get_i32()), 2), Some(2), 0),
        6 => (Type::get_i32(), None, 4),
        7 => (Type::get_unit(), None, 0),
        8 => (Type::get_array(Type::get_array(Type::get_i32(), 3), 7), None, 84),
        _ => (Type::get_array(Type::get_unit(), 9), None, 0),
    }
}

fn act(h: &Rc<RefCell<Hist>>, who: usize, s: Step) {
    let of = if let Step::Size(k) = s {
        let _q = sched::quiet();
        Some(ty(k))
    } else {
        None
    };
    let tick = || {
        let _q = sched::quiet();
        let mut x = h.borrow_mut();
        x.now += 1;
        x.now
    };
    let (start, a) = match s {
        Step::Set(v) => {
            let t = tick();
            sched::yield_point(sched::Y_IO);
            Type::set_ptr_size(v);
            (t, Act::Set(v))
        }
        Step::Size(_) => {
            let (t, per, fixed) = of.unwrap();
            let s = tick();
            sched::yield_point(sched::Y_IO);
            let n = t.size();
            match per {
                Some(m) => {
                    check!(n % m == 0, "torn", "the size of {t} is {n}, no multiple of {m}");
                    (s, Act::Get(n / m))
                }
                None => {
                    check!(n == fixed, "fixed", "the size of {t} is {n} instead of {fixed}");
                    return;
                }
            }
        }
    };
    let end = tick();
    let _q = sched::quiet();
    ev!("{who}: {a:?} in {start}..{end}");
    h.borrow_mut().calls.push(Call { who, start, end, act: a });
}

/// Is there an order of the calls, compatible with the times they took,
/// in which every size is the one set last?
fn linearizable(calls: &[Call], value: usize, done: u64, bad: &mut std::collections::BTreeSet<(u64, usize)>) -> bool {
    if done.count_ones() as usize == calls.len() {
        return true;
    }
    if bad.contains(&(done, value)) {
        return false;
    }
    let first_end = calls.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, c)| c.end).min().unwrap();
    for (i, c) in calls.iter().enumerate() {
        if done >> i & 1 == 1 || c.start > first_end {
            continue;
        }
        let next = match c.act {
            Act::Set(v) => v,
            Act::Get(v) if v == value => value,
            _ => continue,
        };
        if linearizable(calls, next, done | 1 << i, bad) {
            return true;
        }
    }
    bad.insert((done, value));
    false
}

fn any_step() -> Step {
    if chance(2, 5) { Step::Set(pick(&SIZES)) } else { Step::Size(draw(10)) }
}

fn run() {
    any_heap();
    let h: Rc<RefCell<Hist>> = Default::default();
    // the setting every process starts with
    let initial = size_of::<*const ()>();
    for _ in 0..draw(3) {
        act(&h, 99, any_step());
    }
    for _ in 0..range(1, 2) {
        let n = range(2, 4) as usize;
        let mut bodies: Vec<Box<dyn FnOnce()>> = Vec::new();
        for who in 0..n {
            let steps: Vec<Step> = (0..range(1, 5)).map(|_| any_step()).collect();
            let h = h.clone();
            bodies.push(Box::new(move || {
                for s in steps {
                    act(&h, who, s);
                }
            }));
        }
        let p = sched::run(bodies, sched::Tuning { gap: pick(&[1, 2, 4]), burst: pick(&[4, 10, 30]) });
        check!(p.iter().all(|p| !p), "panic", "a thread panicked: {}", crate::core::sh().panic.get());
        for _ in 0..draw(3) {
            act(&h, 99, any_step());
        }
    }
    let h = h.borrow();
    let race = h.calls.iter().any(|a| matches!(a.act, Act::Set(_)) && h.calls.iter().any(|b| b.who != a.who && a.start < b.end && b.start < a.end));
    if race {
        probe("ptr_size_race");
        nontrivial();
    }
    if !linearizable(&h.calls, initial, 0, &mut Default::default()) {
        let mut s = String::new();
        for c in &h.calls {
            s += &format!("thread {} {:?} during {}..{}; ", c.who, c.act, c.start, c.end);
        }
        crate::fail!("history", "no single variable that starts as {initial} explains: {s}");
    }
}
