use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, sh, F};
use crate::orch::Prop;
use crate::simio::{SimWriter, WLog, WPlan};
use crate::{canon, check, ev};
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::ir::builder_traits::*;
use koopa::ir::{Program, Type};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub static PROP: Prop = Prop {
    id: "G03",
    run,
    quick: 32000,
    thorough: 1_000_000,
    rule: "an execution counts when one generator generated at least twice with a failure, an unwinding or a change of programs in between; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "writers passed to the generators (which fail or panic), the heap that reuses addresses",
};

enum Any {
    K(KoopaGenerator<SimWriter>),
    L(LlvmGenerator<SimWriter>),
}
impl Any {
    fn go(&mut self, p: &Program) -> std::io::Result<()> {
        match self {
            Any::K(g) => g.generate_on(p),
            Any::L(g) => g.generate_on(p),
        }
    }
}
struct One {
    form: Form,
    g: Any,
    log: Rc<RefCell<WLog>>,
    ctl: Rc<Cell<Option<WPlan>>>,
}
fn make(form: Form) -> One {
    let (w, log) = SimWriter::new(WPlan::default());
    let ctl = w.control();
    let g = match form {
        Form::Koopa => Any::K(KoopaGenerator::new(w)),
        Form::Llvm => Any::L(LlvmGenerator::new(w)),
    };
    One { form, g, log, ctl }
}

/// A change that renames, adds or removes parts without touching operands.
pub fn tweak(p: &mut Program) {
    let pick_fun = |p: &Program| {
        let l = p.func_layout();
        if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) }
    };
    let names = [None, Some("@renamed"), Some("%7"), Some("%0"), Some("@n1"), Some("%1_0"), Some("@x")];
    match draw(6) {
        0 => {
            let l = p.inst_layout().to_vec();
            if !l.is_empty() {
                let v = l[draw(l.len() as u32) as usize];
                p.set_value_name(v, pick(&names).map(String::from));
            }
        }
        1 | 2 => {
            if let Some(f) = pick_fun(p) {
                let d = p.func_mut(f);
                let bbs: Vec<_> = d.layout().bbs().iter().map(|(b, n)| (*b, n.insts().iter().map(|(v, _)| *v).collect::<Vec<_>>())).collect();
                if bbs.is_empty() {
                    return;
                }
                let (bb, insts) = &bbs[draw(bbs.len() as u32) as usize];
                if chance(1, 2) || insts.is_empty() {
                    d.dfg_mut().bb_mut(*bb).set_name(pick(&[Some("%blk"), Some("%0"), Some("%renamed_0"), None]).map(String::from));
                } else {
                    let v = insts[draw(insts.len() as u32) as usize];
                    d.dfg_mut().set_value_name(v, pick(&names).map(String::from));
                }
            }
        }
        3 => {
            let n = format!("@added{}", p.func_layout().len());
            let f = p.new_func_def(n, vec![Type::get_i32()], Type::get_i32());
            let d = p.func_mut(f);
            let bb = d.dfg_mut().new_bb().basic_block(Some("%e".into()));
            d.layout_mut().bbs_mut().push_key_back(bb).unwrap();
            let v = d.params()[0];
            let r = d.dfg_mut().new_value().ret(Some(v));
            d.layout_mut().bb_mut(bb).insts_mut().push_key_back(r).unwrap();
        }
        4 => {
            if let Some(f) = pick_fun(p) {
                let used = p.funcs().values().any(|d| d.dfg().values().values().any(|v| matches!(v.kind(), koopa::ir::ValueKind::Call(c) if c.callee() == f)));
                if !used {
                    p.remove_func(f);
                }
            }
        }
        _ => {
            let v = p.new_value().zero_init(Type::get_i32());
            let g = p.new_value().global_alloc(v);
            p.set_value_name(g, Some(format!("@glob{}", p.inst_layout().len())));
        }
    }
}

fn run() {
    any_heap();
    let both = chance(1, 4);
    let mut gens = vec![make(any_form())];
    if both {
        gens.push(make(any_form()));
    }
    let plain = gens.iter().any(|g| g.form == Form::Llvm);
    let form0 = if plain { Form::Llvm } else { Form::Koopa };
    let mut progs: Vec<Box<Program>> = vec![Box::new(any_program(form0).1)];
    let mut uses = 0;
    for _ in 0..range(2, 8) {
        match draw(8) {
            0 => {
                progs.push(Box::new(any_program(form0).1));
            }
            1 => {
                // the next program may get the addresses of this one
                let i = draw(progs.len() as u32) as usize;
                drop(progs.remove(i));
                let r0 = crate::alloc::heap().reused;
                progs.push(Box::new(any_program(form0).1));
                if crate::alloc::heap().reused > r0 {
                    probe("reused_address");
                }
                ev!("replaced program {i}");
            }
            2 => {
                let i = draw(progs.len() as u32) as usize;
                *progs[i] = any_program(form0).1;
                ev!("overwrote program {i}");
            }
            3 => {
                let i = draw(progs.len() as u32) as usize;
                tweak(&mut progs[i]);
                ev!("changed program {i}");
            }
            4 => {
                // a generator of another kind in between, which is then dropped
                let i = draw(progs.len() as u32) as usize;
                form0.text(&progs[i]);
            }
            _ => {}
        }
        let i = draw(progs.len() as u32) as usize;
        let k = draw(gens.len() as u32) as usize;
        let p = &progs[i];
        let want = gens[k].form.text(p);
        let before = canon::canon(p);
        let g = &mut gens[k];
        let calm = chance(3, 5);
        let start = g.log.borrow().got.len();
        g.log.borrow_mut().stopped = false;
        let plan = if calm {
            WPlan::default()
        } else {
            WPlan { stop_at: Some(start + draw(want.len() as u32 + 1) as usize), stop: draw(3), transient: true, ..wplan() }
        };
        g.ctl.set(Some(plan));
        let r = catch_unwind(AssertUnwindSafe(|| g.g.go(p)));
        let l = g.log.borrow();
        let got = &l.got[start..];
        ev!("{:?} on program {i}: stopped {} got {} of {} bytes", g.form, l.stopped, got.len(), want.len());
        match r {
            Err(_) => {
                check!(plan.stop == 2 && l.stopped && sh().panic.get().contains("the sink gives up"), "panic", "generation panicked: {}", sh().panic.get());
                fault(F::PanicSink);
                probe("use_after_panic");
            }
            Ok(r) => {
                check!(r.is_ok() != l.stopped, "result", "sink failed {} but the result is {r:?}", l.stopped);
                if !l.stopped {
                    check!(got == &want[..], "reuse", "a generator used before produces another text than a fresh one: {}", crate::core::diff(&lossy(&want), &lossy(got)));
                }
            }
        }
        check!(want.starts_with(got), "reuse", "a generator used before produces another text than a fresh one: {}", crate::core::diff(&lossy(&want), &lossy(got)));
        let after = canon::canon(p);
        check!(before == after, "changed", "generating changed the program: {}", crate::core::diff(&before, &after));
        uses += 1;
        if uses > 1 {
            nontrivial();
        }
    }
}
