use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, F};
use crate::generate::{any_style, any_text, emit, Gen, SMALL};
use crate::orch::Prop;
use crate::os::{self, os, Plan, CALM};
use crate::simio::{RPlan, SimReader};
use crate::{check, ev, sys};
use std::io::{BufReader, Read};

pub static PROP: Prop = Prop {
    id: "S06",
    run,
    quick: 20000,
    thorough: 1_000_000,
    rule: "an execution counts when at least one problem was reported; executions are distinct when their complete event logs differ",
    real: "koopa::front, koopa::ir and koopa::back in two builds: with the front-end logger and without it (feature no-front-logger), the Rust standard library",
    stub: "readers passed to the drivers, lexers and parsers, open(2), read(2), write(2) on standard error",
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    /// the whole driver on a reader
    Drive,
    /// the whole driver on a file
    Path,
    /// only the lexer, to the end
    Lex,
    /// only lexer and parser, up to the first failure
    Tree,
}
/// What one build makes of a text.
#[derive(Default, Debug)]
struct Out {
    end: &'static str,
    errors: usize,
    warnings: usize,
    /// program, tokens or trees
    what: String,
    /// messages of the errors that were returned (only without the logger)
    msgs: Vec<String>,
}

macro_rules! side {
    ($m:ident, $k:ident, $msg:expr) => {
        mod $m {
            use super::*;
            use $k::back::KoopaGenerator;
            use $k::front::ast::AstKind;
            use $k::front::lexer::Lexer;
            use $k::front::parser::Parser;
            use $k::front::span::{Error, FileType, Span};
            use $k::front::token::TokenKind;
            use $k::front::Driver;

            fn ft(n: u32) -> FileType {
                match n {
                    0 => FileType::Buffer,
                    1 => FileType::Stdin,
                    _ => FileType::File("in.koopa".into()),
                }
            }
            fn finish<R: Read>(d: Driver<R>) -> Out {
                let r = d.generate_program();
                let mut o = Out { errors: Span::error_num(), warnings: Span::warning_num(), ..Out::default() };
                match r {
                    Ok(p) => {
                        o.end = "ok";
                        let mut g = KoopaGenerator::new(Vec::new());
                        g.generate_on(&p).expect("writing into memory");
                        o.what = lossy(&g.writer());
                    }
                    Err(e) => {
                        o.end = kind(&e);
                        o.msgs = text(e);
                    }
                }
                o
            }
            fn kind(e: &Error) -> &'static str {
                if e.is_fatal() { "fatal" } else { "rejected" }
            }
            fn text(e: Error) -> Vec<String> {
                let f: fn(Error) -> Vec<String> = $msg;
                f(e)
            }
            pub fn run<R: Read>(how: How, file: u32, r: R) -> Out {
                let mut o = Out { end: "ok", ..Out::default() };
                match how {
                    How::Path => match Driver::from_path("in.koopa") {
                        Ok(d) => return finish(d),
                        Err(_) => o.end = "unopened",
                    },
                    How::Drive => return finish(Driver::new(ft(file), r)),
                    How::Lex => {
                        Span::reset(ft(file));
                        let mut l = Lexer::new(r);
                        let mut ends = 0;
                        while ends < 3 {
                            match l.next_token() {
                                Ok(t) => {
                                    if t.kind == TokenKind::End {
                                        ends += 1;
                                    }
                                    o.what += &format!("{} {:?} {:?}\n", t.kind, t.kind, t.span);
                                }
                                Err(e) => {
                                    o.end = kind(&e);
                                    o.what += &format!("{}\n", o.end);
                                    o.msgs.extend(text(e));
                                    if o.end == "fatal" {
                                        break;
                                    }
                                }
                            }
                        }
                        o.errors = Span::error_num();
                        o.warnings = Span::warning_num();
                    }
                    How::Tree => {
                        Span::reset(ft(file));
                        let mut step = |p: &mut Parser<R>| -> Result<bool, Error> {
                            let a = p.parse_next()?;
                            o.what += &format!("{a:?}\n");
                            Ok(!matches!(a.kind, AstKind::End(_)))
                        };
                        let all = || {
                            let mut p = Parser::new(Lexer::new(r))?;
                            while step(&mut p)? {}
                            Ok(())
                        };
                        if let Err(e) = all() {
                            o.end = kind(&e);
                            o.msgs = text(e);
                        }
                        o.errors = Span::error_num();
                        o.warnings = Span::warning_num();
                    }
                }
                o
            }
        }
    };
}
side!(loud, koopa, |_| vec![]);
side!(quiet, koopa_quiet, |e| match e {
    Error::Normal(s) | Error::Fatal(s) => vec![s],
});

/// The problems on the error stream as the messages they should have become.
fn printed() -> Option<Vec<String>> {
    let t = os::stderr_text();
    os::stderr_clear();
    if t.len() >= os::ERRBUF {
        probe("oracle_skipped");
        return None;
    }
    let t = lossy(&t);
    let lines: Vec<&str> = t.lines().collect();
    let mut v = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        if let Some(m) = l.strip_prefix("error: ") {
            match lines.get(i + 1).and_then(|n| n.strip_prefix("  at ")) {
                Some(place) => v.push(format!("{place}: {m}")),
                None => v.push(m.to_string()),
            }
        }
    }
    v.iter_mut().for_each(failure);
    Some(v)
}
/// The two ways the reader words its failure.
fn failure(m: &mut String) {
    *m = m.replace("Input/output error (os error 5)", "simulated failure");
}

/// Something that separates words: mostly a blank.
fn space() -> u8 {
    if chance(3, 4) { b' ' } else { pick(b"\t\n\x0b\x0c\r\x85\xa0") }
}
pub fn source() -> Vec<u8> {
    let mut b = match draw(5) {
        0 => return any_text().1.bytes,
        1 | 2 => emit(&Gen::prog(SMALL), &any_style()).bytes,
        3 => {
            let mut m = Gen::prog(SMALL);
            spoil_meaning(&mut m);
            emit(&m, &any_style()).bytes
        }
        _ => damage(&any_text().1.bytes),
    };
    if chance(1, 2) {
        // many problems, some of them right at the start
        for k in 0..pick(&[1u32, 2, 3, 8, 30]) {
            let toks = tokens(&b);
            let at = match toks.len() {
                0 => 0,
                _ if chance(1, 6) => 0,
                n => toks[draw(n as u32) as usize].1,
            };
            let word = pick(&["zq", "99999999999999999999", "@1", "%", "@", "-", "/x", "\u{b2}", "i33", "add", "/*", "\0"]);
            let mut new = vec![space()];
            new.extend(word.bytes());
            if word == "zq" {
                new.extend(k.to_string().bytes());
            }
            new.push(space());
            b.splice(at..at, new);
        }
    }
    b
}

fn run() {
    any_heap();
    let b = source();
    ev!("text {}", crate::core::show(&b));
    for _ in 0..range(1, 3) {
        let how = pick(&[How::Drive, How::Drive, How::Path, How::Lex, How::Lex, How::Tree]);
        let file = draw(3);
        let once = chance(1, 2);
        let fail_at = if how != How::Path && chance(1, 4) { Some(draw(b.len() as u32 + 1) as usize) } else { None };
        unlink(&["in.koopa"]);
        if how == How::Path && !chance(1, 12) || how != How::Path && chance(1, 2) {
            sys::fs_write("in.koopa", &b);
        } else {
            fault(F::FileRemoved);
        }
        let one = |quiet: bool| {
            os::stderr_clear();
            os::counters_reset();
            let (r, _log) = SimReader::new(&b, RPlan { fail_at, once, ..rplan() });
            os().plan = Plan { short_r: pick(&[0, 1, 3]), intr_r: pick(&[0, 2, 20]), ..CALM };
            let buffered = chance(1, 4);
            let mut o = match (quiet, buffered) {
                (false, false) => loud::run(how, file, r),
                (false, true) => loud::run(how, file, BufReader::with_capacity(7, r)),
                (true, false) => quiet::run(how, file, r),
                (true, true) => quiet::run(how, file, BufReader::with_capacity(7, r)),
            };
            os().plan = CALM;
            o.msgs.iter_mut().for_each(failure);
            ev!("{how:?} quiet {quiet}: {} with {} errors and {} warnings", o.end, o.errors, o.warnings);
            o
        };
        let (l, q, msgs);
        if chance(1, 2) {
            l = one(false);
            msgs = printed();
            q = one(true);
        } else {
            q = one(true);
            check_silent(how);
            l = one(false);
            msgs = printed();
            os::stderr_clear();
            os::counters_reset();
        }
        check_silent(how);
        check!(l.end == q.end && l.errors == q.errors && l.warnings == q.warnings, "outcome",
            "{how:?}: {} with {} errors and {} warnings; without the logger {} with {} errors and {} warnings",
            l.end, l.errors, l.warnings, q.end, q.errors, q.warnings);
        check!(l.what == q.what, "result", "{how:?}: another result without the logger: {}", crate::core::diff(&l.what, &q.what));
        if l.errors > 0 {
            nontrivial();
        }
        let Some(msgs) = msgs else { continue };
        check!(msgs.len() == l.errors, "count", "{how:?}: {} problems are counted, {} are printed", l.errors, msgs.len());
        match how {
            How::Lex => {
                check!(q.msgs == msgs, "message", "the lexer returns other messages than the logger prints: {}", crate::core::diff(&msgs.join("\n"), &q.msgs.join("\n")));
            }
            _ => {
                for m in &q.msgs {
                    // a text rejected after recovering from its problems has no message of its own
                    let fine = match m.is_empty() {
                        true => q.end == "rejected" && !msgs.is_empty() && how != How::Tree,
                        false => msgs.last() == Some(m),
                    };
                    check!(fine, "message", "{how:?}: the error says `{m}`, the last problem printed is {:?}", msgs.last());
                }
            }
        }
    }
}
fn check_silent(how: How) {
    let t = os::stderr_text();
    check!(t.is_empty(), "noise", "the build without the logger prints: {}", first_message());
    let own = (how == How::Path) as u32;
    check!(os().rd_opens <= own, "opens", "the build without the logger opened {} files", os().rd_opens);
}
