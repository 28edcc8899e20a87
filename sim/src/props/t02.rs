use super::capi;
use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, range};
use crate::generate::{any_style, emit, Cfg, Gen, SMALL};
use crate::model::Prog;
use crate::orch::Prop;
use crate::os::{os, Plan, CALM};
use crate::{canon, check, ev, rawsim, sched, sys};
use koopa::front::Driver;
use koopa::ir::builder_traits::*;
use koopa::ir::{Function, FunctionData, Program, Type};
use koopa::opt::{FunctionPass, ModulePass, Pass, PassManager};
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "T02",
    run,
    quick: 1600,
    thorough: 500_000,
    rule: "an execution counts when at least two threads worked at the same time and control moved between them; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the thread scheduler (one thread at a time, control moves at heap calls, I/O, lock waits and between single instructions); open(2), read(2), write(2) and close(2)",
};

#[derive(Clone)]
enum Work {
    /// parse a text, maybe a damaged one, and print what it holds
    Text(Vec<u8>),
    /// the same through a file of the thread's own
    File(Vec<u8>),
    /// build through the interface, transform and print
    Build(Prog),
    /// transform with a pass manager
    Passes(Vec<u8>),
    /// through the C interface
    C(Vec<u8>),
    /// many types at once
    Types(u32),
}

fn any_work() -> Work {
    let text = || emit(&Gen::prog(SMALL), &any_style()).bytes;
    match draw(10) {
        0..=2 => Work::Text(if chance(2, 3) { damage(&text()) } else { text() }),
        3 | 4 => Work::File(if chance(1, 2) { damage(&text()) } else { text() }),
        5 => {
            let mut m = Gen::prog(Cfg { plain: chance(1, 2), ..SMALL });
            if chance(2, 3) {
                share_names(&mut m);
            }
            Work::Build(m)
        }
        6 | 7 => Work::Passes(text()),
        8 => Work::C(text()),
        _ => Work::Types(range(1, 20)),
    }
}

struct Rename(String);
impl ModulePass for Rename {
    fn run_on(&mut self, p: &mut Program) {
        for f in p.funcs_mut().values_mut() {
            let n = format!("{}_{}", f.name(), self.0);
            f.set_name(n);
        }
    }
}
struct Front(Rc<RefCell<usize>>);
impl FunctionPass for Front {
    fn run_on(&mut self, _: Function, d: &mut FunctionData) {
        *self.0.borrow_mut() += 1;
        let Some(bb) = d.layout().entry_bb() else { return };
        let a = d.dfg_mut().new_value().alloc(Type::get_array(Type::get_i32(), 3));
        d.dfg_mut().set_value_name(a, Some("%fresh".into()));
        d.layout_mut().bb_mut(bb).insts_mut().push_key_front(a).unwrap();
    }
}

fn shape(s: &Shape, o: &mut String) {
    let _ = write!(o, "{}: {}", s.brief(), s.canon);
}

fn work(who: usize, w: &Work) -> String {
    let mut o = String::new();
    match w {
        Work::Text(t) => {
            let (s, p) = parse_buf(t);
            shape(&s, &mut o);
            if let Some(p) = p {
                o += &lossy(&Form::Koopa.text(&p));
            }
        }
        Work::File(t) => {
            let name = format!("t{who}.koopa");
            sys::fs_write(&name, t);
            match Driver::from_path(&name) {
                Ok(d) => {
                    let (s, p) = finish(d);
                    shape(&s, &mut o);
                    if let Some(p) = p {
                        let out = format!("t{who}.out");
                        match Form::Llvm.to_path(&out, &p) {
                            Ok(()) => o += &lossy(&sys::fs_read(&out).unwrap_or_default()),
                            Err(e) => o += &e.to_string(),
                        }
                    }
                }
                Err(e) => o += &e.to_string(),
            }
        }
        Work::Build(m) => {
            let p = canon::build(m);
            o += &canon::canon(&p);
            for f in [Form::Koopa, Form::Llvm, Form::Koopa] {
                o += &lossy(&f.text(&p));
            }
        }
        Work::Passes(t) => {
            let (s, p) = parse_buf(t);
            shape(&s, &mut o);
            if let Some(mut p) = p {
                let n = Rc::new(RefCell::new(0));
                let mut m = PassManager::from(vec![Pass::Module(Box::new(Rename("r".into()))), Pass::Function(Box::new(Front(n.clone())))]);
                m.run_passes(&mut p);
                let _ = write!(o, "{} functions", n.borrow());
                o += &canon::canon(&p);
                if let Err(e) = canon::audit(&p) {
                    o += &e;
                }
            }
        }
        Work::C(t) => match capi::parse_str(t) {
            Err(c) => { let _ = write!(o, "error {c}"); }
            Ok(p) => {
                let r = unsafe { &*p };
                let (_, n) = capi::dump_len(false, r);
                let (c, b) = capi::dump_buf(false, r, n + 1);
                let _ = write!(o, "{c} {n} {}", lossy(&b));
                let bl = capi::new_builder();
                let raw = capi::build(bl, r);
                capi::delete(p);
                o += &rawsim::canon(&raw);
                match capi::convert(&raw) {
                    Ok(q) => {
                        o += &canon::canon(unsafe { &*q });
                        capi::delete(q);
                    }
                    Err(c) => { let _ = write!(o, "error {c}"); }
                }
                capi::delete_builder(bl);
            }
        },
        Work::Types(n) => {
            let mut ts: Vec<Type> = Vec::new();
            for i in 0..*n {
                let base = match ts.last() { Some(t) if i % 4 != 0 => t.clone(), _ => Type::get_i32() };
                let t = match i % 3 {
                    0 => Type::get_pointer(base),
                    1 => Type::get_array(base, 1 + i as usize % 3),
                    _ => Type::get_function(vec![base, Type::get_i32()], Type::get_unit()),
                };
                let again = match t.kind() {
                    koopa::ir::TypeKind::Pointer(b) => Type::get_pointer(b.clone()),
                    koopa::ir::TypeKind::Array(b, n) => Type::get_array(b.clone(), *n),
                    koopa::ir::TypeKind::Function(p, r) => Type::get_function(p.clone(), r.clone()),
                    _ => t.clone(),
                };
                let _ = write!(o, "{t} {} {};", t == again, ts.contains(&t));
                ts.push(t);
            }
        }
    }
    o
}

fn run() {
    any_heap();
    let n = range(2, 4) as usize;
    let mut jobs: Vec<Vec<Work>> = (0..n).map(|_| (0..range(1, 2)).map(|_| any_work()).collect()).collect();
    if chance(1, 3) {
        // all do the same, or part of it
        for i in 1..n {
            if chance(3, 4) {
                jobs[i] = jobs[0].clone();
            }
        }
    }
    let mut want: Vec<Vec<String>> = Vec::new();
    for (i, j) in jobs.iter().enumerate() {
        let j = j.clone();
        want.push(sched::fresh_thread(move || j.iter().map(|w| work(i, w)).collect()));
    }
    crate::os::stderr_clear();
    let got: Rc<RefCell<Vec<Vec<String>>>> = Rc::new(RefCell::new(vec![vec![]; n]));
    let mut bodies: Vec<Box<dyn FnOnce()>> = Vec::new();
    for (i, j) in jobs.iter().enumerate() {
        let (j, g) = (j.clone(), got.clone());
        bodies.push(Box::new(move || {
            for w in &j {
                let s = work(i, w);
                let _q = sched::quiet();
                g.borrow_mut()[i].push(s);
            }
        }));
    }
    os().plan = Plan { short_r: pick(&[0, 2]), intr_r: pick(&[0, 8]), short_w: pick(&[0, 3]), intr_w: pick(&[0, 8]), err_short: pick(&[0, 8]), err_intr: pick(&[0, 8]), ..CALM };
    let panicked = sched::run(bodies, sched::Tuning { gap: pick(&[100, 400, 1600]), burst: pick(&[30, 100, 300]) });
    os().plan = CALM;
    check!(panicked.iter().all(|p| !p), "panic", "a thread panicked only next to others: {}", crate::core::sh().panic.get());
    nontrivial();
    for i in 0..n {
        for (k, (a, b)) in want[i].iter().zip(&got.borrow()[i]).enumerate() {
            check!(a == b, "influence", "thread {i}, work {k}, got another result next to other threads: {}", crate::core::diff(a, b));
        }
        ev!("thread {i}: {}", want[i].len());
    }
}
