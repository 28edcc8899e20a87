use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, range, F};
use crate::generate::{any_style, any_text, emit, Gen, SMALL};
use crate::orch::Prop;
use crate::os::{self, os, Plan, CALM};
use crate::simio::SimReader;
use crate::{check, ev, sys};
use koopa::front::span::FileType;
use koopa::front::Driver;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "S04",
    run,
    quick: 22000,
    thorough: 2_000_000,
    rule: "an execution counts when at least one problem was reported for a source file; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "open(2), read(2) and the fate of the source file, write(2) on standard error, readers passed to the driver",
};

const NAMES: [&str; 3] = ["in.koopa", "in put:1.koopa", "in-\u{e9}\u{4e2d}.koopa"];

struct Fate {
    at: u32,
    kind: u32,
    path: &'static str,
    data: Vec<u8>,
    done: bool,
}
static mut FATE: Option<Fate> = None;
fn fate() -> &'static mut Option<Fate> {
    unsafe { &mut *std::ptr::addr_of_mut!(FATE) }
}
fn on_open(n: u32) {
    let Some(f) = fate() else { return };
    if n < f.at || f.done {
        return;
    }
    f.done = true;
    // the parser may still hold the old file, so the new one replaces it
    sys::fs_unlink(f.path);
    match f.kind {
        0 => fault(F::FileRemoved),
        1 => {
            sys::fs_write(f.path, &f.data);
            fault(F::FileTruncated);
        }
        _ => {
            sys::fs_write(f.path, &f.data);
            fault(F::FileRewritten);
        }
    }
    ev!("the source file changes before open {n} (kind {})", f.kind);
}

fn any_fate(at: u32, path: &'static str, b: &[u8]) -> Fate {
    let kind = draw(5);
    let data = match kind {
        0 => vec![],
        1 => b[..draw(b.len() as u32 + 1) as usize].to_vec(),
        2 => damage(b),
        3 => {
            // other bytes altogether
            let n = draw(400);
            (0..n).map(|_| if chance(1, 6) { b'\n' } else { draw(256) as u8 }).collect()
        }
        _ => match draw(4) {
            0 => vec![b'\n'; 5000],
            1 => vec![b'x'; 70_000],
            2 => b.iter().flat_map(|c| [*c, b'\t']).collect(),
            _ => b.iter().map(|c| if *c == b'\n' { b'\r' } else { *c | 0x80 }).collect(),
        },
    };
    Fate { at, kind, path, data, done: false }
}

/// A text with problems at known places.
fn source() -> (Vec<u8>, Vec<(usize, usize)>, bool) {
    let t = if chance(1, 2) { emit(&Gen::prog(SMALL), &any_style()) } else { any_text().1 };
    let mut b = t.bytes;
    let mut words = Vec::new();
    match draw(4) {
        0 => (b, words, true),
        1 => (damage(&b), words, false),
        2 => {
            // words that no parser can accept
            for k in 0..range(1, 6) {
                let toks = tokens(&b);
                if toks.is_empty() {
                    break;
                }
                let e = toks[draw(toks.len() as u32) as usize].1;
                b.splice(e..e, format!(" zq{k} ").bytes());
            }
            for (s, e) in tokens(&b) {
                if b[s..e].starts_with(b"zq") {
                    words.push((s, e));
                }
            }
            if chance(1, 6) {
                // far to the right
                let at = words.first().map_or(0, |w| w.0);
                let n = pick(&[80usize, 1000, 66_000]);
                let c = if chance(1, 2) { b' ' } else { probe("far_down"); b'\n' };
                b.splice(at..at, vec![c; n]);
                for w in &mut words {
                    w.0 += n;
                    w.1 += n;
                }
            }
            (b, words, true)
        }
        _ => {
            // names, keywords and signs in the wrong places
            for _ in 0..range(1, 4) {
                let toks = tokens(&b);
                if toks.len() < 2 {
                    break;
                }
                let i = 1 + draw(toks.len() as u32 - 1) as usize;
                let (s, e) = toks[i];
                let part = match draw(3) {
                    0 => vec![],
                    _ => {
                        let (s, e) = toks[draw(toks.len() as u32) as usize];
                        b[s..e].to_vec()
                    }
                };
                fault(F::Move);
                let mut part2 = vec![b' '];
                part2.extend(part);
                part2.push(b' ');
                b.splice(s..e, part2);
            }
            (b, words, true)
        }
    }
}

fn run() {
    any_heap();
    let (b, words, lexical) = source();
    ev!("text {}", crate::core::show(&b));
    let (base, _) = parse_buf(&b);
    ev!("in a buffer: {}", base.brief());
    let calm_msgs = String::from_utf8_lossy(&os::stderr_text()).into_owned();
    os::stderr_clear();
    // every report reads the file again and shows a line of it, which is slow for long ones
    if (base.errors + base.warnings) * b.len() > 30_000_000 {
        probe("oracle_skipped");
        return;
    }
    let name = if draw(3) < 2 { NAMES[0] } else { pick(&NAMES) };
    unlink(&NAMES);
    sys::fs_write(name, &b);
    os::counters_reset();
    let from_path = chance(1, 2);
    let trouble = chance(1, 2);
    let mut plan = CALM;
    if chance(1, 2) {
        plan.err_short = pick(&[1, 3, 20]);
        plan.err_intr = pick(&[0, 2, 20]);
    }
    plan.short_r = pick(&[0, 0, 1, 4]);
    plan.intr_r = pick(&[0, 0, 3, 40]);
    *fate() = None;
    if trouble {
        if chance(2, 3) {
            let at = 1 + draw(4) + from_path as u32;
            *fate() = Some(any_fate(at, name, &b));
            os().on_open = Some(on_open);
        }
    }
    let disk = trouble && fate().is_none() || trouble && chance(1, 4);
    let (open_err, err_r) = if disk { (pick(&[0, 1, 2, 5]), pick(&[0, 1, 2, 10])) } else { (0, 0) };
    let got = if from_path {
        os().plan = plan;
        let d = match Driver::from_path(name) {
            Ok(d) => d,
            Err(e) => crate::fail!("open", "cannot open an intact file: {e}"),
        };
        os().plan.open_err = open_err;
        os().plan.err_r = err_r;
        os().plan.err_on = 2;
        finish(d).0
    } else {
        os().plan = Plan { open_err, err_r, ..plan };
        let (r, _log) = SimReader::new(&b, rplan());
        finish(Driver::new(FileType::File(name.into()), r)).0
    };
    os().plan = CALM;
    os().on_open = None;
    let changed = fate().as_ref().is_some_and(|f| f.done);
    *fate() = None;
    ev!("from a file: {}", got.brief());
    same("outcome", "reporting problems in a file", &base, &got);
    let text = os::stderr_text();
    if text.len() >= os::ERRBUF {
        probe("oracle_skipped");
        return;
    }
    let text = match String::from_utf8(text) {
        Ok(t) => t,
        Err(_) => crate::fail!("utf8", "diagnostics are not UTF-8"),
    };
    ev!("{text}");
    if got.errors + got.warnings > 0 {
        nontrivial();
    }
    let intact = !changed && open_err == 0 && err_r == 0;
    let diag = Diag { b: &b, name, intact, lexical };
    let found = diag.read(&text, &got);
    if lexical {
        diag.extents(&found);
    }
    // the same problems at the same places as without a file
    let strip = |t: &str, n: &str| -> Vec<String> {
        t.lines().filter(|l| l.starts_with("error: ") || l.starts_with("warning: ") || l.starts_with("  at "))
            .map(|l| l.replace(n, "F")).collect()
    };
    check!(strip(&calm_msgs, "<buffer>") == strip(&text, name), "messages",
        "the problems reported for a file differ from those reported for a buffer: {}",
        crate::core::diff(&strip(&calm_msgs, "<buffer>").join("\n"), &strip(&text, name).join("\n")));
    let cut_off = got.errors > 20;
    if cut_off {
        probe("too_many_errors");
    }
    if !words.is_empty() && !cut_off {
        for (s, e) in &words {
            if *s < tokens(&b)[0].1 {
                continue;
            }
            let (l, c) = line_col(&b, *s);
            let w = String::from_utf8_lossy(&b[*s..*e]).into_owned();
            // parsing may stop early, but it never skips what it has read
            let reached = found.iter().map(|f| (f.line, f.col)).max();
            if !text.contains(" emitted\n") && reached < Some((l, c)) {
                continue;
            }
            let hit = found.iter().find(|f| f.line == l && f.col == c && f.msg.contains(&w));
            match hit {
                None => crate::fail!("position", "no problem reported at {l}:{c} for the impossible word {w}"),
                Some(h) => check!(!intact || h.quoted.is_some(), "no-quote", "the line of the problem at {l}:{c} is not quoted"),
            }
        }
    }
}

/// Line and column of the byte at `at`.
fn line_col(b: &[u8], at: usize) -> (usize, usize) {
    let line = 1 + b[..at].iter().filter(|c| **c == b'\n').count();
    let start = b[..at].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    (line, at - start + 1)
}

struct Found {
    line: usize,
    col: usize,
    msg: String,
    /// line and displayed width of the end of the quoted extent
    quoted: Option<(usize, usize)>,
}
pub struct Diag<'a> {
    pub b: &'a [u8],
    pub name: &'a str,
    pub intact: bool,
    pub lexical: bool,
}
fn display(l: &[u8]) -> String {
    String::from_utf8_lossy(l).replace('\t', "  ")
}
impl Diag<'_> {
    fn line(&self, n: usize) -> &[u8] {
        let l = self.b.split(|c| *c == b'\n').nth(n - 1).unwrap_or(b"");
        l.strip_suffix(b"\r").unwrap_or(l)
    }
    /// Where the marker column of byte column `col` is displayed.
    pub fn shown(&self, line: usize, col: usize) -> usize {
        let l = self.line(line);
        display(&l[..l.len().min(col)]).chars().count()
    }
    fn read(&self, text: &str, got: &Shape) -> Vec<Found> {
        let lines: Vec<&str> = text.split('\n').collect();
        let nlines = self.b.iter().filter(|c| **c == b'\n').count() + 1;
        let mut starts: BTreeSet<(usize, usize)> = tokens(self.b).iter().map(|t| line_col(self.b, t.0)).collect();
        let (l, c) = line_col(self.b, self.b.len());
        starts.insert((l, c - 1));
        let mut found = Vec::new();
        let (mut errors, mut warnings) = (0, 0);
        let mut i = 0;
        let mut summary = None;
        while i < lines.len() {
            let l = lines[i];
            let (is_err, msg) = match (l.strip_prefix("error: "), l.strip_prefix("warning: ")) {
                (Some(m), _) => (true, m),
                (_, Some(m)) => (false, m),
                _ => {
                    if l.ends_with(" emitted") {
                        summary = Some(l);
                    } else if !l.is_empty() {
                        // a message can contain control characters but no line ends
                        crate::fail!("format", "unexpected line in the diagnostics: {}", crate::core::cut(l));
                    }
                    i += 1;
                    continue;
                }
            };
            if is_err { errors += 1 } else { warnings += 1 }
            i += 1;
            let Some(at) = lines.get(i).and_then(|l| l.strip_prefix("  at ")) else {
                check!(msg.contains("aborted"), "format", "problem without a place: {msg}");
                continue;
            };
            i += 1;
            let Some(rest) = at.strip_prefix(self.name).and_then(|r| r.strip_prefix(':')) else {
                crate::fail!("file-name", "the problem is reported in `{at}` instead of {}", self.name)
            };
            let mut it = rest.split(':').map(|x| x.parse::<usize>());
            let (line, col) = match (it.next(), it.next(), it.next()) {
                (Some(Ok(a)), Some(Ok(b)), None) => (a, b),
                _ => crate::fail!("format", "no line and column in `{at}`"),
            };
            let full = self.b.split(|c| *c == b'\n').nth(line.max(1) - 1).unwrap_or(b"").len();
            check!(line >= 1 && line <= nlines && col <= full, "position",
                "position {line}:{col} lies outside the text ({nlines} lines, {full} columns in that line)");
            if self.lexical {
                check!(starts.contains(&(line, col)), "position", "position {line}:{col} of `{msg}` is not the start of a token");
            }
            let q0 = i;
            while i < lines.len() && !lines[i].is_empty() {
                i += 1;
            }
            let quote = &lines[q0..i];
            let mut quoted = None;
            if quote.is_empty() {
                probe("diag_no_quote");
            } else if self.intact {
                probe("quoted_line_checked");
                quoted = Some(self.quote(quote, line, col));
            }
            found.push(Found { line, col, msg: msg.into(), quoted });
        }
        check!(errors == got.errors, "counts", "{errors} errors were reported but {} counted", got.errors);
        check!(warnings == got.warnings, "counts", "{warnings} warnings were reported but {} counted", got.warnings);
        if let Some(s) = summary {
            let plural = |n: usize, w: &str| if n == 1 { format!("1 {w}") } else { format!("{n} {w}s") };
            let want = match (errors, warnings) {
                (e, 0) => plural(e, "error"),
                (0, w) => plural(w, "warning"),
                (e, w) => format!("{} and {}", plural(e, "error"), plural(w, "warning")),
            };
            check!(s == format!("{want} emitted"), "summary", "summary `{s}` for {errors} errors and {warnings} warnings");
        }
        found
    }
    pub fn quote(&self, q: &[&str], line: usize, col: usize) -> (usize, usize) {
        let bar = |s: &str| s.find('|');
        check!(q.len() >= 3, "quote", "quoted source with {} lines", q.len());
        let width = q[0].len().saturating_sub(2);
        check!(bar(q[0]) == Some(width + 1), "quote", "unexpected first line `{}`", q[0]);
        let askew = q.iter().find(|r| bar(r) != Some(width + 1));
        check!(askew.is_none(), "quote", "quoted lines and markers are not aligned: `{}`", crate::core::cut(askew.unwrap_or(&"")));
        let text = display(self.line(line));
        let single = q.len() == 3 && q[2].contains('^') && !q[2].contains("_^") && q[1] == format!("{line:width$} | {text}");
        if single {
            probe("diag_single_line");
            let marker = q[2].get(width + 3..).unwrap_or("");
            let lead = marker.find('^').unwrap_or(0);
            check!(marker[lead..].chars().all(|c| c == '^'), "quote", "unexpected marker `{}`", q[2]);
            let want = self.shown(line, col).saturating_sub(1);
            check!(lead == want, "marker", "marker in column {lead} instead of {want} for {line}:{col}");
            return (line, lead + marker[lead..].len());
        }
        probe("diag_multi_line");
        check!(q[1] == format!("{line:width$} |   {text}"), "quote",
            "quoted line `{}` is not line {line}: `{}`", crate::core::cut(q[1]), crate::core::cut(&text));
        let us = q[2].get(width + 3..).unwrap_or("").trim_start();
        let want = self.shown(line, col);
        check!(us.len() == want + 1 && us.ends_with('^') && us[..want].bytes().all(|c| c == b'_'), "marker",
            "marker `{}` does not point at column {col}", crate::core::cut(q[2]));
        let mut last = line;
        for l in &q[3..] {
            let mut l = *l;
            // a row of dots can precede the line it skips to
            if let Some(r) = l.strip_prefix(&*".".repeat(width)) {
                l = r.strip_prefix(" | |").unwrap_or(r).trim_start_matches(' ').trim_start();
            }
            let head = l.trim_start();
            let digits: String = head.chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(n) = digits.parse::<usize>() {
                check!(n > last, "quote", "line {n} is quoted after line {last}");
                last = n;
                let want = format!("{digits} | | {}", display(self.line(n)));
                check!(head == want, "quote", "quoted line `{}` is not line {n}: `{}`", crate::core::cut(head), crate::core::cut(&want));
            }
        }
        check!(last > line, "quote", "the last quoted line is {last}");
        let end = q[q.len() - 1].get(width + 4..).unwrap_or("").trim_start_matches([' ', '|']);
        check!(end.ends_with('^') && end[..end.len() - 1].bytes().all(|c| c == b'_'), "quote", "unexpected last marker `{}`", q[q.len() - 1]);
        (last, end.len() - 1)
    }
    /// The marked extent is that of the token or construct the problem is about.
    fn extents(&self, found: &[Found]) {
        let toks = tokens(self.b);
        let text = |i: usize| toks.get(i).map_or("", |t| std::str::from_utf8(&self.b[t.0..t.1]).unwrap_or("?"));
        let at = |l: usize, c: usize| toks.iter().position(|t| line_col(self.b, t.0) == (l, c));
        let shown_end = |i: usize| {
            let (l, c) = line_col(self.b, toks[i].1 - 1);
            (l, self.shown(l, c))
        };
        let line = |i: usize| line_col(self.b, toks[i.min(toks.len() - 1)].0).0;
        let syntax = found.iter().any(|f| of_token(&f.msg) || f.msg.contains("array length must"));
        for f in found {
            let Some(end) = f.quoted else { continue };
            let Some(i) = at(f.line, f.col) else { continue };
            let to = if of_token(&f.msg) {
                i
            } else if syntax {
                // what follows a syntax error may not be a construct at all
                let ok = (i..toks.len()).any(|k| shown_end(k) == end);
                check!(ok, "extent", "the extent of `{}` at {}:{} does not end where a token ends", f.msg, f.line, f.col);
                continue;
            } else {
                Extent { text: &text, line: &line }.of(i, &f.msg)
            };
            probe("extent_checked");
            check!(to < toks.len(), "extent", "the extent of `{}` at {}:{} has no end", f.msg, f.line, f.col);
            let ok = shown_end(to) == end;
            check!(ok, "extent", "the extent of `{}` at {}:{} ends at {:?} instead of {:?} (line, displayed column)",
                f.msg, f.line, f.col, end, shown_end(to));
        }
    }
}
/// Problems that concern one token.
fn of_token(m: &str) -> bool {
    let kinds = ["integer '", "symbol '", "keyword '", "binary operator '", "character '", "end of file"];
    m.starts_with("invalid keyword/operator") || m.starts_with("invalid symbol") || m.starts_with("invalid integer literal")
        || m.split_once(", found ").is_some_and(|(_, k)| kinds.iter().any(|x| k.starts_with(x)))
}
/// Finds the last token of the construct that starts at a token.
struct Extent<'a, 't> {
    text: &'a dyn Fn(usize) -> &'t str,
    line: &'a dyn Fn(usize) -> usize,
}
impl Extent<'_, '_> {
    fn t(&self, i: usize) -> &str {
        (self.text)(i)
    }
    fn of(&self, i: usize, msg: &str) -> usize {
        match self.t(i) {
            "global" => self.init(self.ty(i + 4) + 2),
            "fun" => {
                let mut k = i;
                let mut depth = 0;
                loop {
                    match self.t(k) {
                        "{" => depth += 1,
                        "}" if depth == 1 => return k,
                        "}" => depth -= 1,
                        "" => return k,
                        _ => {}
                    }
                    k += 1;
                }
            }
            "decl" => self.ty(i + 2),
            "{" | "undef" | "zeroinit" => self.init(i),
            "i32" | "[" | "*" | "(" => self.ty(i),
            s if s.starts_with(['@', '%']) && msg.starts_with("basic block '") => {
                let mut k = i + 1;
                if self.t(k) == "(" {
                    k = self.list(k) + 1;
                }
                k += 1;
                loop {
                    let end = matches!(self.t(k), "br" | "jump" | "ret" | "");
                    k = self.stmt(k);
                    if end {
                        return k;
                    }
                    k += 1;
                }
            }
            _ => self.stmt(i),
        }
    }
    fn stmt(&self, i: usize) -> usize {
        match self.t(i) {
            "alloc" => self.ty(i + 1),
            "load" => i + 1,
            "store" => self.init(i + 1) + 2,
            "getptr" | "getelemptr" => i + 3,
            "call" => self.list(i + 2),
            "jump" => self.target(i + 1),
            "br" => self.target(self.target(i + 3) + 2),
            "ret" => if self.t(i + 1) != "" && (self.line)(i) == (self.line)(i + 1) { i + 1 } else { i },
            s if s.starts_with(['@', '%']) => if self.t(i + 1) == "=" { self.stmt(i + 2) } else { i },
            s if s.starts_with(|c: char| c.is_ascii_lowercase()) => i + 3,
            _ => i,
        }
    }
    fn target(&self, i: usize) -> usize {
        if self.t(i + 1) == "(" { self.list(i + 1) } else { i }
    }
    /// The bracket that closes the one at `i`.
    fn list(&self, i: usize) -> usize {
        let mut depth = 0;
        let mut k = i;
        loop {
            match self.t(k) {
                "(" | "[" | "{" => depth += 1,
                ")" | "]" | "}" => depth -= 1,
                "" => return k,
                _ => {}
            }
            if depth == 0 {
                return k;
            }
            k += 1;
        }
    }
    fn init(&self, i: usize) -> usize {
        self.list(i)
    }
    fn ty(&self, i: usize) -> usize {
        match self.t(i) {
            "*" => self.ty(i + 1),
            "(" => {
                let k = self.list(i);
                if self.t(k + 1) == ":" { self.ty(k + 2) } else { k }
            }
            _ => self.list(i),
        }
    }
}
