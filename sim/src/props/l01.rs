use super::capi::{self, *};
use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, F};
use crate::orch::Prop;
use crate::os::{os, set_stdin, stdout_text, Plan, CALM};
use crate::{canon, check, ev, generate, sys};
use koopa::ir::Program;
use libkoopa_sim::{RawBasicBlockData, RawFunctionData, RawProgram, RawSlice, RawSliceItemKind as SK, RawTypeKind, RawValueData, RawValueKind};
use std::os::raw::c_char;

pub static PROP: Prop = Prop {
    id: "L01",
    run,
    quick: 24000,
    thorough: 1_000_000,
    rule: "an execution counts when at least one call of the C interface had to fail or met an injected fault; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "open(2), read(2), write(2) and close(2) on files and the standard streams; the C caller, played by the scenario through the exported functions",
};

const FILES: [&str; 3] = ["in.koopa", "out.txt", "raw.txt"];

struct State {
    progs: Vec<P>,
    stdin_used: bool,
    stdout_broken: bool,
    stdout: Vec<u8>,
}

fn some(s: &State) -> &'static Program {
    unsafe { &*s.progs[draw(s.progs.len() as u32) as usize] }
}

fn input() -> Vec<u8> {
    let (_, t) = generate::any_text();
    let b = if chance(1, 3) { damage(&t.bytes) } else { t.bytes };
    // a C string ends at the first null byte
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    b[..n].to_vec()
}

fn run() {
    any_heap();
    unlink(&FILES);
    let mut s = State { progs: vec![], stdin_used: false, stdout_broken: false, stdout: vec![] };
    os().out_mode = true;
    let first = if chance(1, 150) {
        // a text of some hundred thousand bytes
        let c = generate::Cfg { funcs: 2, blocks: 30, insts: 300, ..generate::SMALL };
        generate::emit(&generate::Gen::prog(c), &generate::any_style()).bytes
    } else {
        generate::any_text().1.bytes
    };
    match parse_str(&first) {
        Ok(p) => s.progs.push(p),
        Err(c) => crate::fail!("code", "parsing a valid string gives {c}: {}", first_message()),
    }
    for _ in 0..range(2, 9) {
        match draw(14) {
            0..=4 => parse(&mut s),
            5 | 6 => to_file(&mut s),
            7..=9 => to_buffer(&mut s),
            10 => to_stdout(&mut s),
            11 => nul_name(&s),
            _ => raw(&mut s),
        }
    }
    for p in s.progs {
        delete(p);
    }
}

fn read_plan() -> Plan {
    Plan {
        short_r: pick(&[0, 1, 3]), intr_r: pick(&[0, 0, 6]), err_r: pick(&[0, 0, 1, 2, 8]), err_on: 1,
        open_err: pick(&[0, 0, 0, 2, 4]), close_err: pick(&[0, 0, 1]), ..CALM
    }
}

fn parse(s: &mut State) {
    let mut b = input();
    let (want, _) = parse_buf(&b);
    let from = match draw(7) { 0..=2 => From::File, 3 | 4 => From::Str, 5 => From::Raw, _ if !s.stdin_used => From::Stdin, _ => From::Str };
    let mut expect = if want.end == "ok" { SUCCESS } else { PROGRAM };
    let mut path = FILES[0].as_bytes().to_vec();
    match from {
        From::File => {
            sys::fs_write(FILES[0], &b);
            match draw(8) {
                0 => {
                    fault(F::BadPath);
                    path = pick(&[&b"in.koopa\xff"[..], b"\xc3", b"\x80in", b"in\xed\xa0\x80"]).to_vec();
                    expect = UTF8;
                }
                1 => {
                    fault(F::BadPath);
                    path = pick(&[&b"nowhere.koopa"[..], b"", b"no/dir/x", b"in.koopa/x"]).to_vec();
                    expect = FILE;
                }
                2 => {
                    // a directory opens, but cannot be read
                    fault(F::BadPath);
                    path = b".".to_vec();
                    expect = PROGRAM;
                }
                _ => path = alias(FILES[0]).into_bytes(),
            }
        }
        From::Str => {
            if chance(1, 5) {
                fault(F::BadPath);
                let at = draw(b.len() as u32 + 1) as usize;
                b.insert(at, pick(&[0xffu8, 0x80, 0xc0, 0xf8]));
            }
            if std::str::from_utf8(&b).is_err() {
                expect = UTF8;
            }
        }
        From::Raw => sys::fs_write(FILES[2], &b),
        From::Stdin => {
            s.stdin_used = true;
            set_stdin(Box::leak(b.clone().into_boxed_slice()));
        }
    }
    crate::os::counters_reset();
    crate::os::stderr_clear();
    os().plan = read_plan();
    if from == From::Raw {
        os().plan.open_err = 0;
    }
    let got = match from {
        From::File => parse_file(&path),
        From::Str => parse_str(&b),
        From::Raw => {
            let fd = hand_over(FILES[2], 0);
            parse_raw(fd)
        }
        From::Stdin => {
            os().first_fd = 0;
            parse_stdin()
        }
    };
    os().plan = CALM;
    if from == From::File && os().opened == 0 && os().open_failed > 0 && expect != UTF8 {
        expect = FILE;
        probe("load_failed");
    } else if os().read_failed > 0 && from != From::Str {
        expect = PROGRAM;
        probe("load_failed");
    }
    let code = got.err().unwrap_or(SUCCESS);
    ev!("parse {from:?} {} bytes: {code}, expected {expect}", b.len());
    if expect != SUCCESS || os().read_failed > 0 {
        nontrivial();
    }
    check!(code == expect, "code", "parsing ({from:?}) returns {code} instead of {expect}: {}", first_message());
    if let Ok(p) = got {
        let c = canon::canon(unsafe { &*p });
        check!(c == want.canon, "program", "parsing ({from:?}) hands out another program: {}", crate::core::diff(&want.canon, &c));
        s.progs.push(p);
        if s.progs.len() > 3 {
            delete(s.progs.remove(0));
        }
    }
}

fn write_plan() -> Plan {
    Plan {
        short_w: pick(&[0, 1, 3]), intr_w: pick(&[0, 0, 6]), err_w: pick(&[0, 0, 1, 4, 30]),
        open_err: pick(&[0, 0, 0, 2]), close_err: pick(&[0, 0, 1]), ..CALM
    }
}

fn text_of(llvm: bool, p: &Program) -> Vec<u8> {
    if llvm { Form::Llvm.text(p) } else { Form::Koopa.text(p) }
}

fn to_file(s: &mut State) {
    let p = some(s);
    let llvm = chance(1, 3);
    let want = text_of(llvm, p);
    let handle = chance(1, 3);
    let name = if handle { FILES[2] } else { FILES[1] };
    sys::fs_write(name, b"old content");
    let mut path = name.as_bytes().to_vec();
    let mut ours = handle;
    let mut expect = SUCCESS;
    if !handle {
        match draw(7) {
            0 => {
                fault(F::BadPath);
                path = pick(&[&b"out\xff"[..], b"\xf0\x9f", b"\xbf"]).to_vec();
                expect = UTF8;
            }
            1 => {
                fault(F::BadPath);
                path = pick(&[&b""[..], b"no/dir/x", b".", b"out.txt/x"]).to_vec();
                expect = FILE;
            }
            _ => {
                path = alias(name).into_bytes();
                ours = true;
            }
        }
    }
    crate::os::counters_reset();
    let fd = if handle { hand_over(name, sys::O_WRONLY | sys::O_CREAT | sys::O_TRUNC) } else { -1 };
    os().plan = write_plan();
    let code = if handle { dump_raw(llvm, p, fd) } else { dump_file(llvm, p, &path) };
    os().plan = CALM;
    if !handle && expect != UTF8 && os().open_failed > 0 {
        expect = FILE;
    } else if os().write_failed > 0 {
        expect = IO;
        probe("save_failed");
    }
    ev!("dump to {}: {code}, expected {expect}", if handle { "descriptor" } else { "file" });
    if expect != SUCCESS {
        nontrivial();
    }
    check!(code == expect, "code", "dumping returns {code} instead of {expect}");
    if ours {
        let now = sys::fs_read(name).unwrap_or_default();
        match code {
            SUCCESS => check!(now == want, "content", "success, but the file holds something else: {}", crate::core::diff(&lossy(&want), &lossy(&now))),
            FILE => check!(now == b"old content", "content", "the file could not be opened, but was changed"),
            _ => check!(want.starts_with(&now), "content", "the file holds no prefix of the text: {}", crate::core::diff(&lossy(&want), &lossy(&now))),
        }
    }
}

fn to_buffer(s: &mut State) {
    let p = some(s);
    let llvm = chance(1, 3);
    let want = text_of(llvm, p);
    let (c, n) = dump_len(llvm, p);
    ev!("length: {c} {n}");
    check!(c == SUCCESS && n == want.len(), "length", "asking for the length gives {c} and {n} for a text of {} bytes", want.len());
    let full = want.len() + 1;
    for _ in 0..range(1, 3) {
        let len = match draw(6) {
            0 => full,
            1 => full - 1,
            2 => draw(full as u32) as usize,
            3 => 0,
            4 => full + 1 + draw(50) as usize,
            _ => full,
        };
        let (c, b) = dump_buf(llvm, p, len);
        ev!("buffer of {len}/{full}: {c}");
        if len < full {
            fault(F::SmallBuffer);
            nontrivial();
            check!(c == SHORT, "code", "dumping {full} bytes into a buffer of {len} gives {c}");
        } else {
            check!(c == SUCCESS, "code", "dumping {full} bytes into a buffer of {len} gives {c}");
            check!(b == want, "content", "the buffer holds something else: {}", crate::core::diff(&lossy(&want), &lossy(&b)));
        }
    }
}

fn to_stdout(s: &mut State) {
    if s.stdout_broken {
        return;
    }
    let p = some(s);
    let llvm = chance(1, 3);
    let want = text_of(llvm, p);
    crate::os::counters_reset();
    os().plan = write_plan();
    let code = dump_stdout(llvm, p);
    os().plan = CALM;
    let expect = if os().write_failed > 0 { IO } else { SUCCESS };
    ev!("dump to stdout: {code}, expected {expect}");
    check!(code == expect, "code", "dumping to the standard output returns {code} instead of {expect}");
    let now = stdout_text();
    let mut all = s.stdout.clone();
    all.extend_from_slice(&want);
    if code == SUCCESS {
        check!(now == all, "content", "the standard output got something else: {}", crate::core::diff(&lossy(&all), &lossy(&now)));
    } else {
        nontrivial();
        // the standard library keeps what it could not write
        s.stdout_broken = true;
        check!(all.starts_with(&now), "content", "the standard output got no prefix of the text");
    }
    s.stdout = now;
}

/// A name with a null byte cannot be handed out as a C string.
fn nul_name(s: &State) {
    let mut p = crate::canon::build(&generate::Gen::prog(generate::SMALL));
    p.new_func_decl("@a\0b".into(), vec![], koopa::ir::Type::get_unit());
    fault(F::NulByte);
    nontrivial();
    let llvm = chance(1, 3);
    let (c, _) = dump_len(llvm, &p);
    check!(c == NUL, "code", "asking for the length of a text with a null byte gives {c}");
    let (c, _) = dump_buf(llvm, &p, 1 + draw(4000) as usize);
    check!(c == NUL, "code", "dumping a text with a null byte gives {c}");
    ev!("null byte in a name: {c}, {} programs", s.progs.len());
}

fn choose<T: Copy>(d: &mut dyn FnMut(u32) -> u32, l: &[T]) -> T {
    l[d(l.len() as u32) as usize]
}

unsafe fn list<T>(s: &RawSlice) -> Vec<*mut T> {
    unsafe { (0..s.len as usize).map(|i| *(s.buffer as *const *mut T).add(i)).collect() }
}

/// Converts raw programs, also ones a C program got wrong.
fn raw(s: &mut State) {
    let p = some(s);
    let before = canon::canon(p);
    let b = new_builder();
    let mut raw = capi::build(b, p);
    let expect = if chance(1, 4) { SUCCESS } else { spoil(&mut raw, &mut draw) };
    let got = convert(&raw);
    let code = got.err().unwrap_or(SUCCESS);
    ev!("convert: {code}, expected {expect}");
    if expect != SUCCESS {
        nontrivial();
    }
    check!(code == expect, "code", "converting a raw program returns {code} instead of {expect}");
    if let Ok(q) = got {
        let c = canon::canon(unsafe { &*q });
        check!(c == before, "program", "converting gives another program: {}", crate::core::diff(&before, &c));
        delete(q);
    }
    delete_builder(b);
}

/// Makes one mistake in a raw program; returns the code it must give.
pub fn spoil(raw: &mut RawProgram, d: &mut dyn FnMut(u32) -> u32) -> i32 {
    static mut EXTRA: [*const RawValueData; 64] = [std::ptr::null(); 64];
    struct Word(RawTypeKind);
    unsafe impl Sync for Word {}
    static I32: Word = Word(RawTypeKind::Int32);
    static BAD: &[u8] = b"@a\xff\0";
    unsafe {
        let mut kinds: Vec<(*mut RawSlice, u32)> = vec![(&mut raw.values, 4), (&mut raw.funcs, 2)];
        let mut names: Vec<*mut *const c_char> = vec![];
        let funcs: Vec<*mut RawFunctionData> = list(&raw.funcs);
        let mut defs = vec![];
        for v in list::<RawValueData>(&raw.values) {
            names.push(&mut (*v).name);
            if let RawValueKind::GlobalAlloc(g) = &mut (*v).kind {
                if let RawValueKind::Aggregate(a) = &mut (*(g.init as *mut RawValueData)).kind {
                    kinds.push((&mut a.elems, 4));
                }
            }
        }
        for f in &funcs {
            if let RawTypeKind::Function(ps, _) = &mut *((**f).ty as *mut RawTypeKind) {
                kinds.push((ps, 1));
            }
            kinds.push((&mut (**f).params, 4));
            names.push(&mut (**f).name);
            if (**f).bbs.len == 0 {
                continue;
            }
            kinds.push((&mut (**f).bbs, 3));
            defs.push(*f);
            for p in list::<RawValueData>(&(**f).params) {
                names.push(&mut (*p).name);
            }
            for b in list::<RawBasicBlockData>(&(**f).bbs) {
                names.push(&mut (*b).name);
                kinds.push((&mut (*b).params, 4));
                kinds.push((&mut (*b).insts, 4));
                for v in list::<RawValueData>(&(*b).params) {
                    names.push(&mut (*v).name);
                }
                for v in list::<RawValueData>(&(*b).insts) {
                    names.push(&mut (*v).name);
                    match &mut (*v).kind {
                        RawValueKind::Branch(x) => {
                            kinds.push((&mut x.true_args, 4));
                            kinds.push((&mut x.false_args, 4));
                        }
                        RawValueKind::Jump(x) => kinds.push((&mut x.args, 4)),
                        RawValueKind::Call(x) => kinds.push((&mut x.args, 4)),
                        RawValueKind::Store(x) => {
                            if let RawValueKind::Aggregate(a) = &mut (*(x.value as *mut RawValueData)).kind {
                                kinds.push((&mut a.elems, 4));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        match d(7) {
            0 | 1 => {
                let (p, right) = choose(d, &kinds);
                let wrong = (right + 1 + d(4)) % 5;
                (*p).kind = match wrong { 0 => SK::Unknown, 1 => SK::Type, 2 => SK::Function, 3 => SK::BasicBlock, _ => SK::Value };
                KIND
            }
            2 if !funcs.is_empty() => {
                (*choose(d, &funcs)).name = std::ptr::null();
                NULL
            }
            3 if !funcs.is_empty() => {
                (*choose(d, &funcs)).ty = &I32.0;
                TYPE
            }
            4 => {
                let with: Vec<_> = defs.iter().copied().filter(|f| (**f).params.len > 0).collect();
                if with.is_empty() {
                    return SUCCESS;
                }
                (*choose(d, &with)).params.len -= 1;
                PARAMS
            }
            5 => {
                // one parameter too many
                let with: Vec<_> = defs.iter().copied().filter(|f| (1..64).contains(&(**f).params.len)).collect();
                if with.is_empty() {
                    return SUCCESS;
                }
                let f = choose(d, &with);
                let own: Vec<*mut RawValueData> = list(&(*f).params);
                for (i, p) in own.iter().chain(&own[..1]).enumerate() {
                    EXTRA[i] = *p;
                }
                (*f).params.buffer = &raw const EXTRA as *const _;
                (*f).params.len += 1;
                PARAMS
            }
            6 if !names.is_empty() => {
                *choose(d, &names) = BAD.as_ptr() as *const c_char;
                UTF8
            }
            _ => SUCCESS,
        }
    }
}
