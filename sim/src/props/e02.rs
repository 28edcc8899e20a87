use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, probe, sh, F};
use crate::exec::{self, End, Maker, Out};
use crate::generate;
use crate::model::Prog;
use crate::orch::Prop;
use crate::client::{const_fold::ConstantFolding, dce::DeadCodeElimination};
use crate::simio::SimWriter;
use crate::{canon, check, ev, llvmread, refparse};
use koopa::back::KoopaGenerator;
use koopa::front::Driver;
use koopa::ir::Program;
use koopa::opt::{Pass, PassManager};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "E02",
    run,
    quick: 40000,
    thorough: 1_500_000,
    rule: "an execution counts when the passes changed the program, and a call outside failed or a stream accepted or delivered bytes in pieces; executions are distinct when their complete event logs differ",
    real: "koopa crate: lexer, parser, ast, builder, IR, generators, pass manager; corrected copies of the passes of the opt example",
    stub: "the world the programs run in (called functions), readers and writers passed to the driver and generators, hash seeds",
};

fn manager() -> (PassManager, String) {
    let mut m = PassManager::new();
    let mut what = String::new();
    let n = if chance(2, 3) { 0 } else { 1 + draw(4) };
    let order: Vec<u32> = if n == 0 { vec![0, 1] } else { (0..n).map(|_| draw(2)).collect() };
    for k in order {
        m.register(Pass::Function(if k == 0 { Box::new(ConstantFolding::new()) } else { Box::new(DeadCodeElimination::new()) }));
        what += ["fold ", "dce "][k as usize];
    }
    (m, what)
}

/// Reads the saved text back, by the reference reader.
pub fn back(text: &[u8], what: &str) -> Prog {
    match refparse::read(text).result {
        Ok((p, _)) => p,
        Err(e) => crate::fail!("program", "{what} does not describe a program: {e}\n{}", lossy(text)),
    }
}

/// What is seen from outside has to agree as far as the first run has meaning.
pub fn agree(what: &str, want: &Out, got: &Out, show: &dyn Fn() -> String) {
    let whole = matches!(want.end, End::Value(_) | End::Outside | End::NoMain);
    let same = if whole { want.end == got.end && want.log == got.log && (want.outside.is_empty() || want.outside == got.outside) } else { got.log.starts_with(&want.log) };
    check!(same, "meaning", "{what}: ends with {:?} after {} calls instead of {:?} after {}; first difference at call {}: {:?} instead of {:?}\n{}",
        got.end, got.log.len(), want.end, want.log.len(),
        want.log.iter().zip(&got.log).take_while(|(a, b)| a == b).count(),
        want.log.iter().zip(&got.log).find(|(a, b)| a != b).map(|x| x.1), want.log.iter().zip(&got.log).find(|(a, b)| a != b).map(|x| x.0), show());
}

fn run() {
    any_heap();
    let (m, _) = Maker::prog(chance(1, 3));
    let style = generate::any_style();
    let text = generate::emit(&m, &style);
    let (reader, _) = crate::simio::SimReader::new(&text.bytes, rplan());
    let Ok(mut p) = Driver::new(koopa::front::span::FileType::Buffer, reader).generate_program() else { crate::fail!("program", "a valid text is rejected: {}", first_message()) };
    let before = canon::canon(&p);
    for round in 0..1 + draw(3) {
        let (mut pm, what) = manager();
        ev!("passes {what}");
        let r = catch_unwind(AssertUnwindSafe(|| pm.run_passes(&mut p)));
        if r.is_err() {
            crate::fail!("panic", "the passes {what}panic in round {round}: {}\n{}", sh().panic.get(), lossy(&text.bytes));
        }
        canon::check_audit(&p, "the optimised program");
    }
    let after = canon::canon(&p);
    let (w, log) = SimWriter::new(wplan());
    let r = KoopaGenerator::new(w).generate_on(&p);
    if let Err(e) = r {
        crate::fail!("error", "saving fails although no write failed: {e}");
    }
    let saved = log.borrow().got.clone();
    ev!("{}", crate::core::show(&saved));
    let m2 = back(&saved, "the optimised program");
    let llvm = if chance(1, 2) { Some(as_llvm(&p)) } else { None };
    let mut failed = false;
    for _ in 0..3 {
        let seed = draw(1 << 16) as u64;
        let fail = if chance(1, 3) { Some(draw(8) as usize) } else { None };
        let limit = pick(&[400, 2000]);
        let want = exec::run(&m, exec::world(seed, fail), limit);
        let got = exec::run(&m2, exec::world(seed, fail), limit);
        failed |= want.end == End::Outside;
        count(&want);
        let show = || format!("{}---- becomes\n{}", lossy(&text.bytes), lossy(&saved));
        agree("the optimised program", &want, &got, &show);
        if let Some((l, t)) = &llvm {
            let got = exec::run(l, exec::world(seed, fail), limit);
            agree("the optimised program as LLVM IR", &want, &got, &|| format!("{}---- becomes\n{t}", lossy(&text.bytes)));
        }
    }
    let pieces = [F::ShortRead, F::IntrRead, F::ShortWrite, F::IntrWrite].iter().any(|f| sh().faults[*f as usize] > 0);
    if before != after && (failed || pieces) {
        nontrivial();
    }
}

pub fn count(o: &Out) {
    probe(match o.end {
        End::Value(_) => "run_ends",
        End::Outside => "run_outside_fails",
        End::Endless => "run_endless",
        _ => "run_wild",
    });
    if !o.log.is_empty() {
        probe("run_heard");
    }
}

/// The program as LLVM IR, with its functions under the names they had.
pub fn as_llvm(p: &Program) -> (Prog, String) {
    let (w, log) = SimWriter::new(wplan());
    let r = Form::Llvm.onto(w, p);
    if let Err(e) = r {
        crate::fail!("error", "generating LLVM IR fails although no write failed: {e}");
    }
    let text = lossy(&log.borrow().got).to_string();
    match llvmread::read(&text) {
        Ok(p) => (p, text),
        Err(e) => crate::fail!("unreadable", "the LLVM text does not describe a program: {e}\n{text}"),
    }
}
