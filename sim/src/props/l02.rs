use super::capi::{self, *};
use super::util::*;
use crate::alloc::heap;
use crate::core::{chance, draw, nontrivial, pick, probe, range};
use crate::orch::Prop;
use crate::os::{os, set_stdin, Plan, CALM};
use crate::{check, ev, generate, sys};

pub static PROP: Prop = Prop {
    id: "L02",
    run,
    quick: 9000,
    thorough: 1_000_000,
    rule: "an execution counts when a history of calls of the C interface was repeated with at least one failing call; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "open(2), read(2), write(2) and close(2) on files and the standard streams, which also account for descriptors; the heap, which accounts for memory; the C caller",
};

const FILES: [&str; 3] = ["in.koopa", "out.txt", "raw.txt"];

/// Programs without instructions.
const NO_FUNCS: [&str; 4] = [
    "", "decl @f(i32): i32\n", "global @a = alloc [i32, 3], {1, 2, 3}\n", "global @a = alloc i32, zeroinit\nglobal @b = alloc [[i32, 2], 2], {{1, 2}, undef}\n",
];

enum Op {
    Parse(From, Vec<u8>),
    BadPath(bool, Vec<u8>),
    Delete(u32),
    ToFile(bool, u32),
    ToRaw(bool, u32),
    ToStr(bool, u32, usize),
    ToStdout(bool, u32),
    Builder,
    Build(u32, u32),
    Convert(u32),
    /// builder, program, which mistake
    Malformed(u32, u32, u32),
    DropBuilder(u32),
}

fn any_op(stdin: &mut bool) -> Op {
    let llvm = chance(1, 3);
    let who = draw(4);
    match draw(18) {
        0..=4 => {
            let t = if chance(1, 5) { pick(&NO_FUNCS).as_bytes().to_vec() } else { generate::any_text().1.bytes };
            let b = if chance(1, 2) { damage(&t) } else { t };
            let from = match draw(6) {
                0..=2 => From::File,
                3 => From::Raw,
                4 if !*stdin => { *stdin = true; From::Stdin }
                _ => From::Str,
            };
            Op::Parse(from, b)
        }
        5 => Op::BadPath(chance(1, 2), pick(&[&b"\xff"[..], b"", b".", b"no/dir", b"in.koopa/x"]).to_vec()),
        6 | 7 => Op::Delete(who),
        8 => Op::ToFile(llvm, who),
        9 => Op::ToRaw(llvm, who),
        10 => Op::ToStr(llvm, who, pick(&[0, 1, 100, 1 << 16])),
        11 => Op::ToStdout(llvm, who),
        12 => Op::Builder,
        13 => Op::Build(draw(3), who),
        14 => Op::Convert(draw(3)),
        15 | 16 => Op::Malformed(draw(3), who, draw(1 << 16)),
        _ => Op::DropBuilder(draw(3)),
    }
}

fn calm() -> Plan {
    CALM
}
fn wild() -> Plan {
    Plan {
        short_r: pick(&[0, 1]), intr_r: pick(&[0, 0, 6]), err_r: pick(&[0, 1, 2, 8]), short_w: pick(&[0, 2]), intr_w: pick(&[0, 0, 4]),
        err_w: pick(&[0, 1, 5, 40]), open_err: pick(&[0, 0, 2, 4]), close_err: pick(&[0, 0, 1, 2]), err_short: pick(&[0, 4]), err_intr: pick(&[0, 4]), ..CALM
    }
}

/// One pass over the history; everything handed out is given back at the end.
fn round(ops: &[Op], plan: fn() -> Plan, stdin: bool, kept: &mut [Option<(bool, i32)>; 2]) {
    let mut progs: Vec<P> = Vec::with_capacity(64);
    let mut builders: Vec<(*mut libkoopa_sim::RawProgramBuilder, Vec<libkoopa_sim::RawProgram<'static>>)> = Vec::with_capacity(16);
    let mut failed = false;
    for o in ops {
        crate::os::stderr_clear();
        if let Op::Parse(_, b) = o {
            sys::fs_write(FILES[0], b);
            sys::fs_write(FILES[2], b);
        }
        let fds = sys::open_fds(60);
        crate::os::counters_reset();
        let one = |k: u32| progs.get(k as usize % progs.len().max(1)).map(|p| unsafe { &**p });
        let p = plan();
        let mut code = 0;
        let mut given = 0;
        match o {
            Op::Parse(from, b) => {
                // the standard input serves once per process
                let from = if *from == From::Stdin && !stdin { From::Str } else { *from };
                let r = match from {
                    From::File => { os().plan = p; parse_file(FILES[0].as_bytes()) }
                    From::Str => { os().plan = p; parse_str(b) }
                    From::Raw => {
                        let fd = hand_over(FILES[2], 0);
                        given = 1;
                        os().plan = p;
                        parse_raw(fd)
                    }
                    From::Stdin => {
                        set_stdin(Box::leak(b.clone().into_boxed_slice()));
                        os().plan = p;
                        parse_stdin()
                    }
                };
                match r { Ok(x) => progs.push(x), Err(c) => code = c }
            }
            Op::BadPath(read, path) => {
                os().plan = p;
                if *read {
                    code = parse_file(path).err().unwrap_or(0);
                } else if let Some(x) = one(0) {
                    code = dump_file(false, x, path);
                }
            }
            Op::Delete(k) => {
                if !progs.is_empty() {
                    let x = progs.remove(*k as usize % progs.len());
                    os().plan = p;
                    delete(x);
                }
            }
            Op::ToFile(l, k) => if let Some(x) = one(*k) { os().plan = p; code = dump_file(*l, x, FILES[1].as_bytes()) },
            Op::ToRaw(l, k) => if let Some(x) = one(*k) {
                let fd = hand_over(FILES[1], sys::O_WRONLY | sys::O_CREAT | sys::O_TRUNC);
                given = 1;
                os().plan = p;
                code = dump_raw(*l, x, fd)
            },
            Op::ToStr(l, k, n) => if let Some(x) = one(*k) { os().plan = p; code = dump_buf(*l, x, *n).0 },
            Op::ToStdout(l, k) => if let Some(x) = one(*k) { os().plan = p; code = dump_stdout(*l, x) },
            Op::Builder => if builders.len() < 3 { builders.push((new_builder(), Vec::with_capacity(64))) },
            Op::Build(b, k) => if !builders.is_empty() {
                if let Some(x) = one(*k) {
                    let b = *b as usize % builders.len();
                    let r = capi::build(builders[b].0, x);
                    builders[b].1.push(r);
                }
            },
            Op::Convert(b) => if !builders.is_empty() {
                if let Some(r) = builders[*b as usize % builders.len()].1.last() {
                    match convert(r) { Ok(x) => progs.push(x), Err(c) => code = c }
                }
            },
            Op::Malformed(b, k, seed) => if !builders.is_empty() {
                if let Some(x) = one(*k) {
                    let b = *b as usize % builders.len();
                    let mut r = capi::build(builders[b].0, x);
                    let mut s = *seed;
                    super::l01::spoil(&mut r, &mut |n| {
                        s = s.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                        (s >> 8) % n
                    });
                    match convert(&r) { Ok(x) => progs.push(x), Err(c) => code = c }
                }
            },
            Op::DropBuilder(b) => if !builders.is_empty() {
                let (b, _) = builders.remove(*b as usize % builders.len());
                delete_builder(b);
            },
        }
        os().plan = CALM;
        failed |= code != 0;
        let now = sys::open_fds(60);
        ev!("call: {code}, {} descriptors", now.len());
        check!(os().double_close == 0, "double-close", "a descriptor was closed again, code {code}");
        // a descriptor handed over is no concern of this property
        let left: Vec<i32> = now.iter().copied().filter(|f| !fds.contains(f)).collect();
        check!(left.len() <= given, "descriptor", "after a call that returned {code}, descriptor {} is still open", left[0]);
        check!(fds.iter().all(|f| now.contains(f)), "descriptor", "a call that returned {code} closed a descriptor it did not open");
        if given == 1 {
            // it ends the same way whatever the outcome is
            let open = !left.is_empty();
            let first = kept[matches!(o, Op::ToRaw(..)) as usize].get_or_insert((open, code));
            check!(first.0 == open, "handed-over", "the descriptor handed over is {} after a call that returned {code}, it was {} after one that returned {}",
                if open { "open" } else { "closed" }, if open { "closed" } else { "open" }, first.1);
        }
        for f in left {
            unsafe { sys::sc3(sys::SYS_CLOSE, f as i64, 0, 0) };
        }
        if progs.len() > 6 {
            delete(progs.remove(0));
        }
    }
    for p in progs {
        delete(p);
    }
    for (b, _) in builders {
        delete_builder(b);
    }
    if failed && !stdin {
        nontrivial();
        probe("rejected_edit");
    }
}

fn settle() {
    // a last parser leaves the same traces behind every time
    if let Ok(p) = parse_str(b"decl @f()\n") {
        delete(p);
    }
}

fn run() {
    any_heap();
    unlink(&FILES);
    os().out_mode = true;
    let mut stdin = false;
    let n = range(2, 14);
    let mut ops: Vec<Op> = (0..n).map(|_| any_op(&mut stdin)).collect();
    ops.insert(0, Op::Parse(From::File, generate::any_text().1.bytes));
    // the standard streams have buffers of their own
    let _ = (std::io::stdout().lock(), std::io::stdin().lock());
    // everything that stays for good (interned types, standard streams) is
    // obtained in the first pass
    let mut kept = [None; 2];
    round(&ops, calm, true, &mut kept);
    settle();
    for k in 0..range(1, 3) {
        let (bytes, blocks) = (heap().live_bytes, heap().live_blocks);
        round(&ops, wild, false, &mut kept);
        settle();
        let (b, l) = (heap().live_bytes, heap().live_blocks);
        ev!("pass {k}: {blocks} -> {l} blocks");
        check!(b == bytes && l == blocks, "leak", "after everything was given back, {} blocks ({} bytes) more are in use", l as i64 - blocks as i64, b as i64 - bytes as i64);
    }
}
