use super::e02::count;
use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, probe, sh, F};
use crate::exec::{self, End, Maker, V};
use crate::generate;
use crate::orch::Prop;
use crate::client::{interpreter::Interpreter, Memory, MEMORY, WORLD};
use crate::{check, ev};
use koopa::back::Generator;
use koopa::front::Driver;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "E03",
    run,
    quick: 40000,
    thorough: 1_500_000,
    rule: "an execution counts when a call outside or the loading of libraries failed, a stream delivered its bytes in pieces, or the program was run again after a failure; executions are distinct when their complete event logs differ",
    real: "koopa crate: lexer, parser, ast, builder, IR, generator framework and name manager; a visitor and the way it calls C functions (corrected copies of the interpreter example)",
    stub: "the crate libloading, the functions in the libraries, readers passed to the driver, hash seeds",
};

fn run() {
    any_heap();
    let (mut m, long) = Maker::prog(chance(1, 3));
    if chance(1, 12) {
        let i = m.funcs.iter().position(|f| f.name == "@main").unwrap();
        m.funcs[i].name = "@other".into();
    }
    let text = generate::emit(&m, &generate::any_style());
    let (reader, _) = crate::simio::SimReader::new(&text.bytes, rplan());
    let Ok(p) = Driver::new(koopa::front::span::FileType::Buffer, reader).generate_program() else { crate::fail!("program", "a valid text is rejected: {}", first_message()) };
    let libs = if chance(2, 3) { 1 } else { 1 + draw(4) as usize };
    let mut g = Generator::with_visitor(std::io::sink(), Interpreter::new((0..libs).map(|k| format!("lib{k}.so")).collect()));
    let mut failed = false;
    if libs > 1 {
        probe("run_libraries");
    }
    for _ in 0..1 + draw(3) {
        let seed = draw(1 << 16) as u64;
        let fail = if chance(1, 3) { Some(draw(8) as usize) } else { None };
        let no_libs = if chance(1, 12) { Some(draw(libs as u32) as usize) } else { None };
        let world = || {
            let mut w = exec::world(seed, fail);
            w.c = true;
            w
        };
        let limit = if long && chance(1, 2) { 600_000 } else { pick(&[400, 2000]) };
        let want = exec::run(&m, world(), limit);
        count(&want);
        if want.steps > 100_000 && want.end != End::Endless {
            probe("run_long");
        }
        ev!("{:?} after {} steps, {:?}", want.end, want.steps, want.log);
        if matches!(want.end, End::Endless | End::Wild("undefined number" | "undefined pointer" | "part of an undefined array" | "beside an object" | "local value outside" | "dead object")) {
            // it need not return
            continue;
        }
        let mut w = world();
        w.no_libs = no_libs;
        MEMORY.with(|x| *x.borrow_mut() = Some(Memory::new(&w)));
        WORLD.with(|x| *x.borrow_mut() = Some(w));
        let r = catch_unwind(AssertUnwindSafe(|| g.generate_on(&p)));
        let w = WORLD.with(|x| x.borrow_mut().take().unwrap());
        let (cells, whole) = MEMORY.with(|x| x.borrow_mut().take().unwrap()).cells();
        let show = || format!("\n{}", lossy(&text.bytes));
        let r = match r {
            Ok(r) => r.map_err(|e| e.to_string()),
            Err(_) if matches!(want.end, End::Wild(_)) && no_libs.is_none() => {
                // what has no meaning may end anyhow, but not early
                check!(w.log == want.log, "calls", "calls {:?} instead of {:?}{}", w.log, want.log, show());
                failed = true;
                continue;
            }
            Err(_) => crate::fail!("panic", "the interpreter panics: {}; the program ends with {:?}{}", sh().panic.get(), want.end, show()),
        };
        check!(w.unloaded == w.loaded.len(), "libraries", "{} libraries were loaded, {} unloaded{}", w.loaded.len(), w.unloaded, show());
        if let Some(k) = no_libs {
            check!(r == Err(format!("invalid library: library {k} cannot be loaded")), "libraries", "a missing library is answered by {r:?}{}", show());
            check!(w.log.is_empty(), "calls", "calls {:?} without libraries", w.log);
            failed = true;
            nontrivial();
            continue;
        }
        if let End::Wild(_) = want.end {
            check!(w.log.starts_with(&want.log), "calls", "calls {:?} instead of {:?}{}", w.log, want.log, show());
            continue;
        }
        check!(w.log == want.log, "calls", "calls {:?} instead of {:?}{}", w.log, want.log, show());
        let ok = match (&want.end, &r) {
            (End::Value(V::Int(a)), Ok(b)) => a == b,
            (End::Value(V::Int(_)), _) => false,
            (End::Value(_), Err(e)) => e == "function '@main' must return an integer",
            (End::Outside, Err(e)) => e.starts_with("external function '") && e.ends_with("' not found"),
            (End::Crowded, Err(e)) => e == "argument number exceeded in external function call",
            (End::NoMain, Err(e)) => e == "function '@main' not found",
            (End::BadAccess, Err(e)) => e == "accessing to null pointer" || e.starts_with("pointer calculation out of bounds"),
            _ => false,
        };
        check!(whole, "outside", "memory beside the objects of the library was written{}", show());
        check!(cells == want.outside, "outside", "the memory of the library holds {cells:?} instead of {:?}{}", want.outside, show());
        check!(ok, "result", "the interpreter returns {r:?}, the program ends with {:?}{}", want.end, show());
        if failed || want.end == End::Outside || sh().faults[F::ShortRead as usize] + sh().faults[F::IntrRead as usize] > 0 {
            nontrivial();
        }
        failed |= r.is_err();
    }
}
