use super::s04::Diag;
use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, F};
use crate::generate::{any_style, emit, Gen, SMALL};
use crate::orch::Prop;
use crate::os::{self, os, Plan, CALM};
use crate::{check, ev, sys};
use std::fmt::Arguments;

pub static PROP: Prop = Prop {
    id: "S08",
    run,
    quick: 60000,
    thorough: 2_000_000,
    rule: "an execution counts when a problem was reported after the source file or the counters had changed; executions are distinct when their complete event logs differ",
    real: "koopa::front::span in two builds: with the front-end logger and without it (feature no-front-logger), the Rust standard library",
    stub: "the caller that makes spans and reports through them, open(2), read(2) and the fate of the source file, write(2) on standard error",
};

/// The interface of one build.
trait Log {
    type Pos: Copy;
    type Span: Copy;
    const LOUD: bool;
    fn pos() -> Self::Pos;
    fn step(p: &mut Self::Pos, c: char);
    fn pos_text(p: &Self::Pos) -> String;
    fn span(p: Self::Pos) -> Self::Span;
    fn text(s: &Self::Span) -> String;
    fn update(s: Self::Span, p: Self::Pos, way: bool) -> Self::Span;
    fn update_span(s: Self::Span, t: Self::Span, way: bool) -> Self::Span;
    fn same_line(s: &Self::Span, t: &Self::Span) -> bool;
    fn reset(file: Option<&str>, stdin: bool);
    /// Reports, and returns whether the error is fatal, and its text.
    fn log(what: What, at: Option<&Self::Span>, m: Arguments) -> Option<(bool, String)>;
    fn global();
    fn nums() -> (usize, usize);
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Error,
    Fatal,
    Warning,
}
struct Loud;
struct Quiet;
macro_rules! log {
    ($name:ident, $k:ident, $loud:expr, $msg:expr) => {
        impl Log for $name {
            type Pos = $k::front::span::Pos;
            type Span = $k::front::span::Span;
            const LOUD: bool = $loud;
            fn pos() -> Self::Pos {
                if chance(1, 2) { Self::Pos::new() } else { Self::Pos::default() }
            }
            fn step(p: &mut Self::Pos, c: char) {
                p.update(c);
            }
            fn pos_text(p: &Self::Pos) -> String {
                p.to_string()
            }
            fn span(p: Self::Pos) -> Self::Span {
                Self::Span::new(p)
            }
            fn text(s: &Self::Span) -> String {
                format!("{s:?}")
            }
            fn update(mut s: Self::Span, p: Self::Pos, way: bool) -> Self::Span {
                if way {
                    return s.into_updated(p);
                }
                s.update(p);
                s
            }
            fn update_span(mut s: Self::Span, t: Self::Span, way: bool) -> Self::Span {
                if way {
                    return s.into_updated_span(t);
                }
                s.update_span(t);
                s
            }
            fn same_line(s: &Self::Span, t: &Self::Span) -> bool {
                s.is_in_same_line_as(t)
            }
            fn reset(file: Option<&str>, stdin: bool) {
                use $k::front::span::FileType::*;
                Self::Span::reset(match file {
                    Some(f) => File(f.into()),
                    None if stdin => Stdin,
                    None => Buffer,
                });
            }
            fn log(what: What, at: Option<&Self::Span>, m: Arguments) -> Option<(bool, String)> {
                type S = $k::front::span::Span;
                let e = match (what, at) {
                    (What::Error, Some(s)) => s.log_error(m),
                    (What::Fatal, Some(s)) => s.log_fatal_error(m),
                    (What::Warning, Some(s)) => { s.log_warning(m); return None }
                    (What::Error, None) => S::log_raw_error(m),
                    (What::Fatal, None) => S::log_raw_fatal_error(m),
                    (What::Warning, None) => { S::log_raw_warning(m); return None }
                };
                let fatal = e.is_fatal();
                let f: fn($k::front::span::Error) -> String = $msg;
                Some((fatal, f(e)))
            }
            fn global() {
                Self::Span::log_global();
            }
            fn nums() -> (usize, usize) {
                (Self::Span::error_num(), Self::Span::warning_num())
            }
        }
    };
}
log!(Loud, koopa, true, |_| String::new());
log!(Quiet, koopa_quiet, false, |e| match e {
    koopa_quiet::front::span::Error::Normal(s) | koopa_quiet::front::span::Error::Fatal(s) => s,
});

const NAMES: [&str; 3] = ["in.koopa", "in put:1.koopa", "in-\u{e9}\u{4e2d}.koopa"];

fn source() -> Vec<u8> {
    let mut b = match draw(4) {
        0 => emit(&Gen::prog(SMALL), &any_style()).bytes,
        1 => {
            let mut b = vec![];
            for _ in 0..range(1, 14) {
                for _ in 0..draw(30) {
                    match draw(12) {
                        0 => b.push(b'\t'),
                        1 => b.push(b'\r'),
                        2 => b.extend("\u{e9}\u{4e2d}".bytes()),
                        3 => b.push(128 + draw(128) as u8),
                        4 => b.push(draw(32) as u8),
                        n => b.push(b'a' + n as u8),
                    }
                }
                b.extend(pick(&["\n", "\n", "\n", "\r\n", "\n\n", "\t\n"]).bytes());
            }
            b
        }
        2 => {
            // around the numbers where one digit more is needed
            let n = pick(&[7usize, 8, 9, 10, 97, 98, 99, 998, 999, 1000]);
            let mut b = "x\n".repeat(n).into_bytes();
            b.extend(emit(&Gen::prog(SMALL), &any_style()).bytes);
            b
        }
        _ => (0..draw(300)).map(|_| pick(b"ab\n\n\t 1")).collect(),
    };
    if chance(1, 10) {
        let at = draw(b.len() as u32 + 1) as usize;
        b.splice(at..at, vec![pick(b"y\t "); pick(&[200usize, 3000, 9000])]);
    }
    b
}
fn message() -> String {
    match draw(5) {
        0 => String::new(),
        1 => "expected {}, found '%s' \u{4e2d}\t".into(),
        2 => "m".repeat(range(1, 3000) as usize),
        _ => format!("problem {}", draw(1000)),
    }
}
/// Line and column after the first `n` bytes.
fn after(b: &[u8], n: usize) -> (usize, usize) {
    let line = 1 + b[..n].iter().filter(|c| **c == b'\n').count();
    (line, n - b[..n].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1))
}

/// A span and what it covers.
#[derive(Clone, Copy)]
struct Known<S> {
    s: S,
    from: (usize, usize),
    to: (usize, usize),
}
fn scenario<L: Log>() {
    let b = source();
    let name = if draw(3) < 2 { NAMES[0] } else { pick(&NAMES) };
    unlink(&NAMES);
    sys::fs_write(name, &b);
    ev!("text {}", crate::core::show(&b));
    os::counters_reset();
    // places, in order
    let mut offs: Vec<usize> = vec![];
    for _ in 0..range(2, 9) {
        let o = draw(b.len() as u32 + 1) as usize;
        offs.push(o);
        if chance(1, 2) {
            offs.push((o + draw(40) as usize).min(b.len()));
        }
    }
    offs.sort();
    let mut marks = Vec::new();
    let mut p = L::pos();
    let mut at = 0;
    for o in offs {
        while at < o {
            L::step(&mut p, b[at].into());
            at += 1;
        }
        let lc = after(&b, o);
        check!(L::pos_text(&p) == format!("{}:{}", lc.0, lc.1), "position", "after {o} bytes the position is {}, not {lc:?}", L::pos_text(&p));
        marks.push((p, lc));
    }
    let mut spans: Vec<Known<L::Span>> = marks.iter().map(|m| Known { s: L::span(m.0), from: m.1, to: m.1 }).collect();
    // what the file holds now, if anything
    let mut disk = Some(b.clone());
    let (mut errors, mut warnings) = (0usize, 0usize);
    let mut file = Some(name);
    let mut label = name.to_string();
    L::reset(file, false);
    let (mut changed, mut told) = (false, false);
    for _ in 0..range(4, 30) {
        let k = spans[draw(spans.len() as u32) as usize];
        if chance(1, 1000) {
            // very many reports
            let n = range(100, 700);
            for _ in 0..n {
                let what = pick(&[What::Error, What::Fatal, What::Warning, What::Warning]);
                L::log(what, None, format_args!("again"));
                if what == What::Warning { warnings += 1 } else { errors += 1 }
                os::stderr_clear();
            }
            ev!("{n} reports");
            probe("many_reports");
        }
        match draw(16) {
            0 | 1 => {
                let m = marks[draw(marks.len() as u32) as usize];
                if m.1 < k.from {
                    continue;
                }
                let n = Known { s: L::update(k.s, m.0, chance(1, 2)), to: m.1, ..k };
                spans.push(n);
            }
            2 | 3 => {
                let o = spans[draw(spans.len() as u32) as usize];
                if o.to < k.from {
                    continue;
                }
                let n = Known { s: L::update_span(k.s, o.s, chance(1, 2)), to: o.to, ..k };
                spans.push(n);
            }
            4 => {
                let o = spans[draw(spans.len() as u32) as usize];
                let want = k.to.0 == o.from.0;
                check!(L::same_line(&k.s, &o.s) == want, "same-line", "{} and {}: the second starts in the line where the first ends: {want}, which is denied", L::text(&k.s), L::text(&o.s));
            }
            5 => {
                // another file, or the same, or none; counting starts again
                let kind = draw(4);
                file = if kind < 2 { Some(name) } else { None };
                L::reset(file, kind == 2);
                label = match kind { 0 | 1 => name, 2 => "<stdin>", _ => "<buffer>" }.to_string();
                (errors, warnings) = (0, 0);
                changed = true;
                ev!("reset to {label}");
            }
            6 => {
                sys::fs_unlink(name);
                disk = match draw(4) {
                    0 => {
                        fault(F::FileRemoved);
                        None
                    }
                    1 => {
                        fault(F::FileTruncated);
                        Some(b[..draw(b.len() as u32 + 1) as usize].to_vec())
                    }
                    2 => {
                        fault(F::FileRewritten);
                        Some(source())
                    }
                    _ => Some(b.clone()),
                };
                if let Some(d) = &disk {
                    sys::fs_write(name, d);
                }
                changed = true;
                ev!("the file is another one: {}", disk.is_some());
            }
            7 => {
                os::stderr_clear();
                quake();
                L::global();
                os().plan = CALM;
                let t = lossy(&os::stderr_text());
                let mut want = vec![];
                for (n, w) in [(errors, "error"), (warnings, "warning")] {
                    if n > 0 {
                        want.push(format!("{n} {w}{}", if n > 1 { "s" } else { "" }));
                    }
                }
                let want = if L::LOUD { format!("{} emitted\n", want.join(" and ")) } else { String::new() };
                check!(t == want, "summary", "the summary of {errors} errors and {warnings} warnings is `{t}`");
            }
            n => {
                let what = pick(&[What::Error, What::Error, What::Fatal, What::Warning]);
                let raw = n == 8;
                let m = message();
                os::stderr_clear();
                let faulty = quake();
                let r = L::log(what, if raw { None } else { Some(&k.s) }, format_args!("{m}"));
                os().plan = CALM;
                if what == What::Warning { warnings += 1 } else { errors += 1 }
                told |= changed;
                ev!("{what:?} {} with {} bytes of text", if raw { "anywhere".into() } else { L::text(&k.s) }, m.len());
                match (&r, what) {
                    (None, What::Warning) => {}
                    (Some((f, _)), _) => check!(*f == (what == What::Fatal), "fatal", "the error of a {what:?} is fatal: {f}"),
                    _ => unreachable!(),
                }
                let t = os::stderr_text();
                if t.len() >= os::ERRBUF {
                    probe("oracle_skipped");
                    continue;
                }
                let place = format!("{label}:{}:{}", k.from.0, k.from.1);
                if !L::LOUD {
                    check!(t.is_empty(), "loud", "a build without the logger prints `{}`", lossy(&t));
                    if let Some((_, text)) = r {
                        let want = if raw { m } else { format!("{place}: {m}") };
                        check!(text == want, "text", "the error carries `{}`, not `{}`", crate::core::cut(&text), crate::core::cut(&want));
                    }
                    continue;
                }
                let Ok(t) = String::from_utf8(t) else { crate::fail!("utf8", "diagnostics are not UTF-8") };
                ev!("{t}");
                let head = format!("{}: {m}\n", if what == What::Warning { "warning" } else { "error" });
                let Some(rest) = t.strip_prefix(&head) else { crate::fail!("message", "the report `{}` does not start with `{}`", crate::core::cut(&t), crate::core::cut(&head)) };
                if raw {
                    check!(rest.is_empty(), "message", "a report without a place goes on with `{}`", crate::core::cut(rest));
                    continue;
                }
                let Some(rest) = rest.strip_prefix(&format!("  at {place}\n")) else { crate::fail!("position", "the report goes on with `{}`, not with `  at {place}`", crate::core::cut(rest)) };
                let lines: Vec<&str> = rest.split('\n').collect();
                check!(lines.len() >= 2 && lines[lines.len() - 2..].iter().all(|l| l.is_empty()), "format", "the report does not end with an empty line");
                let quote = &lines[..lines.len() - 2];
                if faulty {
                    continue;
                }
                let d = match (file, &disk) {
                    (Some(_), Some(d)) if k.from.1 > 0 && k.to.1 > 0 => d,
                    _ => {
                        check!(quote.is_empty(), "quote", "source is quoted where there is none: `{}`", crate::core::cut(quote.first().unwrap_or(&"")));
                        continue;
                    }
                };
                check!(!quote.is_empty(), "no-quote", "the lines of {} are not quoted", L::text(&k.s));
                let diag = Diag { b: d, name, intact: true, lexical: false };
                let (line, end) = diag.quote(quote, k.from.0, k.from.1);
                probe("quoted_span_checked");
                let single = k.from.0 == k.to.0;
                check!(single == (quote.len() == 3), "quote", "{} lines are shown for {}", quote.len(), L::text(&k.s));
                let shown = diag.shown(k.to.0, k.to.1).max(single as usize);
                check!((line, end) == (k.to.0, shown), "extent", "the extent of {} ends at {:?} instead of {:?} (line, displayed column)", L::text(&k.s), (line, end), (k.to.0, shown));
                if !single {
                    // nothing is left out in silence
                    let mut last = k.from.0;
                    for l in &quote[3..] {
                        let n: String = l.trim_start_matches(['.', ' ', '|']).chars().take_while(|c| c.is_ascii_digit()).collect();
                        let numbered = l.trim_start_matches(['.', ' ']).starts_with(|c: char| c.is_ascii_digit()) || l.starts_with('.');
                        let Ok(n) = n.parse::<usize>() else { continue };
                        if numbered {
                            check!(n == last + 1 || l.starts_with('.'), "left-out", "line {n} is shown after line {last}, and no dots between");
                            last = n;
                        }
                    }
                }
            }
        }
        for k in spans.iter().rev().take(1) {
            let want = format!("{}:{}-{}:{}", k.from.0, k.from.1, k.to.0, k.to.1);
            check!(L::text(&k.s) == want, "span", "a span is {} instead of {want}", L::text(&k.s));
        }
        check!(L::nums() == (errors, warnings), "counts", "{:?} errors and warnings are counted, {errors} and {warnings} were reported", L::nums());
        os::stderr_clear();
    }
    if told {
        nontrivial();
    }
}
/// Trouble for one report; true if what it shows cannot be known.
fn quake() -> bool {
    let mut plan = CALM;
    if chance(1, 2) {
        plan.err_short = pick(&[1, 3, 20]);
        plan.err_intr = pick(&[0, 2, 20]);
        plan.short_r = pick(&[0, 0, 1, 4]);
        plan.intr_r = pick(&[0, 0, 3, 40]);
    }
    let bad = chance(1, 8);
    if bad {
        plan = Plan { open_err: pick(&[0, 1, 2]), err_r: pick(&[0, 1, 2, 10]), ..plan };
    }
    os().plan = plan;
    bad
}

fn run() {
    any_heap();
    if chance(2, 3) { scenario::<Loud>() } else { scenario::<Quiet>() }
}
