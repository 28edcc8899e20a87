use super::e02::{agree, as_llvm, back, count};
use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, probe, sh, F};
use crate::exec::{self, End, Out, V};
use crate::orch::Prop;
use crate::client::brainfuck::{self, Fail};
use crate::client::{const_fold::ConstantFolding, dce::DeadCodeElimination, interpreter::Interpreter, World, WORLD};
use crate::simio::{RPlan, SimReader, SimWriter, WPlan};
use crate::{canon, check, ev};
use koopa::back::Generator;
use koopa::front::{span::FileType, Driver};
use koopa::opt::{Pass, PassManager};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "E01",
    run,
    quick: 40000,
    thorough: 300_000,
    rule: "an execution counts when a stream failed, was interrupted or moved bytes in pieces, or a call of the compiled program failed; executions are distinct when their complete event logs differ",
    real: "koopa crate: IR, generators, lexer, parser, builder, pass manager; corrected copies of the compiler, the passes and the interpreter of the examples",
    stub: "readers and writers, @putchar and @getchar, hash seeds",
};

fn code(depth: u32, out: &mut Vec<u8>) {
    for _ in 0..draw(7) {
        match draw(16) {
            0..=4 => out.extend(std::iter::repeat_n(b'+', 1 + draw(5) as usize)),
            5 => out.push(b'-'),
            6 | 7 => out.push(b'>'),
            8 => out.push(b'<'),
            9 | 10 => out.push(b'.'),
            11 => out.push(b','),
            12 => out.extend(pick(&[b"a b\n".as_slice(), b"\0", b"\xff\xfe", b"(\r\n)"])),
            13 if depth > 0 => {
                // ends after a while
                out.extend(b"[-");
                if chance(1, 2) {
                    out.push(b'>');
                    code(depth - 1, out);
                    out.push(b'<');
                } else {
                    code(0, out);
                }
                out.push(b']');
            }
            14 if depth > 0 => {
                out.push(b'[');
                code(depth - 1, out);
                out.push(b']');
            }
            _ => out.extend(pick(&[b"[-]".as_slice(), b"[->+<]", b"[>+<-]>", b"[.-]", b",[.,]", b"[]"])),
        }
    }
}

/// What the source does, run directly.
fn direct(src: &[u8], mut w: World, limit: u32) -> Out {
    let src: Vec<u8> = src.iter().copied().filter(|c| b"><+-.,[]".contains(c)).collect();
    let mut open = vec![];
    let mut other = vec![0; src.len()];
    for (i, c) in src.iter().enumerate() {
        match c {
            b'[' => open.push(i),
            b']' => {
                let j = open.pop().unwrap();
                (other[i], other[j]) = (j, i);
            }
            _ => {}
        }
    }
    let mut cells = vec![0i32; 65536];
    let (mut at, mut i, mut steps) = (0usize, 0, 0);
    let end = loop {
        let Some(c) = src.get(i) else { break End::Value(V::Int(0)) };
        steps += 1;
        if steps > limit {
            break End::Endless;
        }
        match c {
            b'>' if at == 65535 => break End::BadAccess,
            b'>' => at += 1,
            b'<' if at == 0 => break End::BadAccess,
            b'<' => at -= 1,
            b'+' => cells[at] = cells[at].wrapping_add(1),
            b'-' => cells[at] = cells[at].wrapping_sub(1),
            b'.' => {
                if w.call("@putchar", &[cells[at].to_string()]).is_err() {
                    break End::Outside;
                }
            }
            b',' => match w.call("@getchar", &[]) {
                Ok(v) => cells[at] = v,
                Err(()) => break End::Outside,
            },
            b'[' if cells[at] == 0 => i = other[i],
            b']' => i = other[i] - 1,
            _ => {}
        }
        i = i.wrapping_add(1);
    };
    Out { end, log: w.log, steps, outside: vec![] }
}

/// The first problem of the source: the place of a `]` too many, or its end.
fn balanced(src: &[u8]) -> Result<(), Option<usize>> {
    let mut n = 0;
    for (i, c) in src.iter().enumerate() {
        match c {
            b'[' => n += 1,
            b']' if n == 0 => return Err(Some(i)),
            b']' => n -= 1,
            _ => {}
        }
    }
    if n == 0 { Ok(()) } else { Err(None) }
}

fn run() {
    any_heap();
    let mut src = vec![];
    code(3, &mut src);
    if chance(1, 4) && !src.is_empty() {
        // a bracket too many or too few
        let at = draw(src.len() as u32) as usize;
        if chance(1, 2) {
            src.insert(at, pick(b"[]"));
        } else {
            src.remove(at);
        }
    }
    if chance(1, 10) {
        let n = pick(&[8190, 8192, 8200, 20000]);
        let at = draw(src.len() as u32 + 1) as usize;
        src.splice(at..at, std::iter::repeat_n(b' ', n));
    }
    // to the end of the cells
    let far = chance(1, 250);
    if far {
        src = b"+[>+.]".to_vec();
        if chance(1, 2) {
            src.splice(0..0, *b">>-<");
        }
        probe("run_long");
    }
    // many blocks
    let large = !far && chance(1, 250);
    if large {
        src.clear();
        let n = pick(&[100, 254, 255, 256, 257, 500, 1030]);
        if chance(1, 3) {
            src.extend(std::iter::repeat_n(b'[', n).chain(std::iter::repeat_n(b']', n)));
        } else {
            let part = pick(&[b"+[-]".as_slice(), b",[-]", b"[]", b".[+.]", b"[[-]>]"]);
            src.extend(part.repeat(n));
        }
        probe("many_loops");
    }
    ev!("{}", crate::core::show(&src));
    let fail_at = if chance(1, 4) { Some(draw(src.len() as u32 + 1) as usize) } else { None };
    let (r, rlog) = SimReader::new(&src, RPlan { fail_at, intr_before: chance(1, 4), ..rplan() });
    let p = match catch_unwind(AssertUnwindSafe(|| brainfuck::compile(r))) {
        Ok(p) => p,
        Err(_) => crate::fail!("panic", "the compiler panics: {}", sh().panic.get()),
    };
    let read = fail_at.map_or(&src[..], |n| &src[..n]);
    let want = match balanced(read) {
        Err(Some(_)) => Err(Fail::Parse),
        _ if fail_at.is_some() => {
            check!(rlog.borrow().failed, "swallowed", "the source was not read to the failure at {fail_at:?}");
            Err(Fail::Io(std::io::ErrorKind::Other))
        }
        Err(None) => Err(Fail::Parse),
        Ok(()) => Ok(()),
    };
    let p = match (want, p) {
        (Ok(()), Ok(p)) => p,
        (Err(Fail::Parse), Err(Fail::Parse)) => {
            probe("parse_rejected");
            if pieces() {
                nontrivial();
            }
            return;
        }
        (Err(Fail::Io(_)), Err(Fail::Io(_))) => {
            nontrivial();
            return;
        }
        (w, Ok(_)) => crate::fail!("accepted", "the source is accepted, expected {w:?}: {}", crate::core::show(&src)),
        (w, Err(e)) => crate::fail!("rejected", "the source is rejected with {e:?}, expected {w:?}: {}", crate::core::show(&src)),
    };
    canon::check_audit(&p, "the compiled program");
    // the text, on a sink that may fail
    let llvm = chance(1, 2);
    let mut full = vec![];
    check!(brainfuck::emit(&p, &mut full, llvm).is_ok(), "error", "emitting into memory fails");
    let stop_at = if chance(1, 4) { Some(draw(full.len() as u32) as usize) } else { None };
    let (w, wlog) = SimWriter::new(WPlan { stop_at, stop: draw(2), transient: chance(1, 2), ..wplan() });
    let r = match catch_unwind(AssertUnwindSafe(|| brainfuck::emit(&p, w, llvm))) {
        Ok(r) => r,
        Err(_) => crate::fail!("panic", "emitting panics: {}", sh().panic.get()),
    };
    let got = wlog.borrow().got.clone();
    check!(full.starts_with(&got), "prefix", "the sink does not hold a prefix of the text");
    if wlog.borrow().stopped {
        nontrivial();
        check!(matches!(r, Err(Fail::Io(_))), "swallowed", "the sink failed but emitting ends with {r:?}");
    } else {
        check!(r.is_ok() && got == full, "spurious", "emitting ends with {r:?}, {} of {} bytes", got.len(), full.len());
    }
    // what the text means
    let model = if llvm {
        as_llvm(&p).0
    } else {
        back(&full, "the emitted text")
    };
    let text = Form::Koopa.text(&p);
    let Ok(mut loaded) = Driver::new(FileType::Buffer, &text[..]).generate_program() else {
        crate::fail!("unreadable", "the emitted program cannot be loaded: {}", first_message())
    };
    let fail = if chance(1, 4) { Some(draw(8) as usize) } else { None };
    let seed = draw(1 << 16) as u64;
    let want = direct(&src, exec::world(seed, fail), if far { 1_000_000 } else if large { 30_000 } else { 2000 });
    count(&want);
    if want.end == End::Outside || pieces() {
        nontrivial();
    }
    if want.end == End::Endless {
        return;
    }
    let limit = if far || large { 4_000_000 } else { 100_000 };
    let same = |what: &str, got: &Out| {
        agree(what, &want, got, &|| crate::core::show(&src));
        check!(want.end == got.end, "meaning", "{what}: ends with {:?} instead of {:?}: {}", got.end, want.end, crate::core::show(&src));
    };
    same(if llvm { "the program as LLVM IR" } else { "the program" }, &exec::run(&model, exec::world(seed, fail), limit));
    if chance(1, 2) {
        same("the interpreted program", &interpret(&loaded, exec::world(seed, fail)));
    } else {
        let mut pm = PassManager::new();
        pm.register(Pass::Function(Box::new(ConstantFolding::new())));
        pm.register(Pass::Function(Box::new(DeadCodeElimination::new())));
        if catch_unwind(AssertUnwindSafe(|| pm.run_passes(&mut loaded))).is_err() {
            crate::fail!("panic", "the passes panic: {}", sh().panic.get());
        }
        canon::check_audit(&loaded, "the optimised program");
        let m = back(&Form::Koopa.text(&loaded), "the optimised program");
        // it may leave out steps that fail
        agree("the optimised program", &want, &exec::run(&m, exec::world(seed, fail), limit), &|| crate::core::show(&src));
    }
}

fn pieces() -> bool {
    [F::ShortRead, F::IntrRead, F::ShortWrite, F::IntrWrite].iter().any(|f| sh().faults[*f as usize] > 0)
}

fn interpret(p: &koopa::ir::Program, w: World) -> Out {
    WORLD.with(|x| *x.borrow_mut() = Some(w));
    let mut g = Generator::with_visitor(std::io::sink(), Interpreter::new(vec!["lib0.so".into()]));
    let r = catch_unwind(AssertUnwindSafe(|| g.generate_on(p)));
    let w = WORLD.with(|x| x.borrow_mut().take().unwrap());
    let end = match r {
        Err(_) => crate::fail!("panic", "the interpreter panics: {}", sh().panic.get()),
        Ok(Ok(i)) => End::Value(V::Int(i)),
        Ok(Err(e)) => {
            let e = e.to_string();
            match () {
                _ if e.starts_with("external function '") && e.ends_with("' not found") => End::Outside,
                _ if e.starts_with("pointer calculation out of bounds") => End::BadAccess,
                _ => crate::fail!("result", "the interpreter fails: {e}"),
            }
        }
    };
    Out { end, log: w.log, steps: 0, outside: vec![] }
}
