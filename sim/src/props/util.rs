//! Parts shared by the scenarios.
use crate::canon;
use crate::core::{chance, draw, fault, pick, probe, range, F};
use crate::generate::{self, Text};
use crate::model::Prog;
use crate::simio::RPlan;
use crate::{alloc, os, sys};
use koopa::front::span::{FileType, Span};
use koopa::front::Driver;
use koopa::ir::Program;
use std::io::Read;

pub fn any_heap() {
    let p = draw(256);
    if p != 0 {
        fault(F::HeapPolicy);
    }
    alloc::set_policy(p);
}

/// What one parser run produced.
#[derive(PartialEq, Clone, Debug)]
pub struct Shape {
    /// "ok", "rejected" or "fatal"
    pub end: &'static str,
    pub errors: usize,
    pub warnings: usize,
    pub canon: String,
}
impl Shape {
    pub fn brief(&self) -> String {
        format!("{} with {} errors and {} warnings", self.end, self.errors, self.warnings)
    }
}
pub fn finish<R: Read>(d: Driver<R>) -> (Shape, Option<Program>) {
    let r = d.generate_program();
    let (errors, warnings) = (Span::error_num(), Span::warning_num());
    match r {
        Ok(p) => (Shape { end: "ok", errors, warnings, canon: canon::canon(&p) }, Some(p)),
        Err(e) => (Shape { end: if e.is_fatal() { "fatal" } else { "rejected" }, errors, warnings, canon: String::new() }, None),
    }
}
pub fn parse_buf(b: &[u8]) -> (Shape, Option<Program>) {
    finish(Driver::new(FileType::Buffer, b))
}
pub fn same(class: &str, what: &str, want: &Shape, got: &Shape) {
    if want.end != got.end || want.errors != got.errors || want.warnings != got.warnings {
        crate::fail!(class, "{what}: expected {}, got {}", want.brief(), got.brief());
    }
    if want.canon != got.canon {
        crate::fail!(class, "{what}: another program: {}", crate::core::diff(&want.canon, &got.canon));
    }
}
/// Parses a text that is known to be valid.
pub fn must_parse(p: &Prog, t: &Text) -> Program {
    let (s, prog) = parse_buf(&t.bytes);
    match prog {
        Some(x) => x,
        None => crate::fail!("program", "a valid text is {}: {}", s.brief(), first_message()),
    }
    .also(|x| {
        let want = p.canon();
        let got = canon::canon(x);
        crate::check!(want == got, "program", "parsed another program: {}", crate::core::diff(&want, &got));
    })
}
pub trait Also: Sized {
    fn also(self, f: impl FnOnce(&Self)) -> Self {
        f(&self);
        self
    }
}
impl<T> Also for T {}

pub fn first_message() -> String {
    let t = os::stderr_text();
    String::from_utf8_lossy(&t).lines().take(6).collect::<Vec<_>>().join(" / ")
}

/// The problems reported on the error stream since the last call: messages and
/// places, in order, without file names and quoted lines. `None` if too many.
pub fn reports() -> Option<Vec<String>> {
    let t = os::stderr_text();
    os::stderr_clear();
    if t.len() >= os::ERRBUF {
        probe("oracle_skipped");
        return None;
    }
    let place = |l: &str| {
        let mut it = l.rsplitn(3, ':');
        let (c, n) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
        format!("  at {n}:{c}")
    };
    Some(lossy(&t).lines().filter_map(|l| match () {
        _ if l.starts_with("  at ") => Some(place(l)),
        _ if l.starts_with("error: ") || l.starts_with("warning: ") => Some(l.to_string()),
        _ => None,
    }).collect())
}
pub fn same_reports(what: &str, want: &Option<Vec<String>>, got: &Option<Vec<String>>) {
    if let (Some(w), Some(g)) = (want, got) {
        crate::check!(w == g, "messages", "{what}: other problems or places: {}", crate::core::diff(&w.join("\n"), &g.join("\n")));
    }
}

pub fn rplan() -> RPlan {
    RPlan { intr: pick(&[0, 2, 5, 20, 200]), short: pick(&[0, 1, 2, 10]), ..RPlan::default() }
}

pub fn unlink(names: &[&str]) {
    for n in names {
        sys::fs_unlink(n);
    }
}

const BITS: [&str; 58] = [
    "fun", "decl", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump", "call", "ret", "undef", "zeroinit",
    "i32", "unit", "add", "ne", "sar", "(", ")", "{", "}", "[", "]", ",", ":", "=", "*", "%entry", "@main", "@x", "%0", "0", "1",
    "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999", "//", "/*", "*/", "/", "@", "%", "-", "\n",
    "\r\n", "\t", " ", ";", "\"", "%x:", "jump %x", "ret 0", "_",
];

/// A rough split of the text into tokens: (start, end).
pub fn tokens(b: &[u8]) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut i = 0;
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < b.len() {
        let s = i;
        if b[i].is_ascii_whitespace() || b[i] == 11 {
            i += 1;
            continue;
        }
        if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
            continue;
        }
        if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            i += 2;
            while i + 1 < b.len() && !(b[i] == b'*' && b[i + 1] == b'/') {
                i += 1;
            }
            i = (i + 2).min(b.len());
            continue;
        }
        i += 1;
        if matches!(b[s], b'@' | b'%' | b'-') || word(b[s]) {
            while i < b.len() && word(b[i]) {
                i += 1;
            }
        }
        out.push((s, i));
    }
    out
}

/// Applies what a faulty channel does to a text.
pub fn damage(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = range(1, 3) + if chance(1, 8) { range(0, 20) } else { 0 };
    for _ in 0..n {
        damage_once(&mut v);
    }
    v
}
fn pos(v: &[u8]) -> usize {
    draw(v.len() as u32 + 1) as usize
}
pub fn damage_once(v: &mut Vec<u8>) {
    let toks = tokens(v);
    let tok = |toks: &[(usize, usize)]| toks[draw(toks.len() as u32) as usize];
    let kind = draw(21);
    if toks.is_empty() && kind >= 7 {
        let at = pos(v);
        let s = pick(&BITS);
        v.splice(at..at, s.bytes());
        fault(F::Insert);
        return;
    }
    match kind {
        0 => {
            let at = pos(v);
            v.truncate(at);
            fault(F::Truncate);
        }
        1 => {
            if !v.is_empty() {
                let at = draw(v.len() as u32) as usize;
                v[at] ^= 1 << draw(8);
                fault(F::Flip);
            }
        }
        2 => {
            let at = pos(v);
            let end = (at + 1 + draw(if chance(1, 3) { 200 } else { 8 }) as usize).min(v.len());
            v.drain(at.min(end)..end);
            fault(F::Drop);
        }
        3 => {
            let at = pos(v);
            let end = (at + 1 + draw(if chance(1, 3) { 300 } else { 30 }) as usize).min(v.len());
            let part = v[at.min(end)..end].to_vec();
            let to = if chance(1, 2) { end } else { pos(v) };
            v.splice(to..to, part);
            fault(F::Dup);
        }
        4 => {
            let at = pos(v);
            let end = (at + 1 + draw(60) as usize).min(v.len());
            let part: Vec<u8> = v.drain(at.min(end)..end).collect();
            let to = pos(v);
            v.splice(to..to, part);
            fault(F::Move);
        }
        5 => {
            let at = pos(v);
            v.insert(at, if chance(1, 4) { draw(256) as u8 } else { pick(b"{}()[],:=*@%-/ \n\r\t0a_") });
            fault(F::Insert);
        }
        6 => {
            let (_, o) = generate::any_text();
            let (i, j) = (pos(v), draw(o.bytes.len() as u32 + 1) as usize);
            v.truncate(i);
            v.extend_from_slice(&o.bytes[j..]);
            fault(F::Splice);
        }
        7 => {
            // a token is lost
            let (s, e) = tok(&toks);
            v.drain(s..e);
            fault(F::Drop);
        }
        8 => {
            // a token arrives twice
            let (s, e) = tok(&toks);
            let mut part = vec![b' '];
            part.extend_from_slice(&v[s..e]);
            v.splice(e..e, part);
            fault(F::Dup);
        }
        9 | 10 => {
            // a token arrives in another's place
            let ((a, b), (s, e)) = (tok(&toks), tok(&toks));
            let part = v[s..e].to_vec();
            v.splice(a..b, part);
            fault(F::Move);
        }
        11 | 12 => {
            // a name turns into another name
            let syms: Vec<(usize, usize)> = toks.iter().copied().filter(|t| matches!(v[t.0], b'@' | b'%')).collect();
            if !syms.is_empty() {
                let ((a, b), (s, e)) = (tok(&syms), tok(&syms));
                let part = v[s..e].to_vec();
                v.splice(a..b, part);
                fault(F::Move);
            }
        }
        13 => {
            let (a, b) = tok(&toks);
            let s = pick(&BITS);
            v.splice(a..b, s.bytes());
            fault(F::Flip);
        }
        14 => {
            let (_, b) = tok(&toks);
            let s = format!(" {} ", pick(&BITS));
            v.splice(b..b, s.into_bytes());
            fault(F::Insert);
        }
        16.. => structured(v, &toks, kind - 16),
        _ => {
            // a number changes
            let nums: Vec<(usize, usize)> = toks.iter().copied().filter(|t| v[t.0].is_ascii_digit() || v[t.0] == b'-').collect();
            if !nums.is_empty() {
                let (a, b) = tok(&nums);
                let s = match draw(6) { 0 => "0".into(), 1 => "-0".into(), 2 => "4294967296".into(), 3 => format!("{}", draw(9)), 4 => "007".into(), _ => format!("-{}", draw(9)) };
                v.splice(a..b, s.into_bytes());
                fault(F::Flip);
            }
        }
    }
}

/// Losses and repetitions that hit whole parts of a statement.
fn structured(v: &mut Vec<u8>, toks: &[(usize, usize)], kind: u32) {
    let text = |i: usize| toks.get(i).map(|t| &v[t.0..t.1]).unwrap_or(b"");
    let find = |ok: &dyn Fn(usize) -> bool| -> Option<usize> {
        let l: Vec<usize> = (0..toks.len()).filter(|i| ok(*i)).collect();
        if l.is_empty() { None } else { Some(l[draw(l.len() as u32) as usize]) }
    };
    const KEYS: [&[u8]; 9] = [b"call", b"store", b"br", b"jump", b"ret", b"load", b"alloc", b"getptr", b"add"];
    // the end of the element that starts at token i: where a comma or the
    // closing bracket is
    let element = |mut i: usize| {
        let mut depth = 0;
        while i < toks.len() {
            match text(i) {
                b"(" | b"[" | b"{" => depth += 1,
                b")" | b"]" | b"}" if depth == 0 => break,
                b")" | b"]" | b"}" => depth -= 1,
                b"," if depth == 0 => break,
                _ => {}
            }
            i += 1;
        }
        i
    };
    match kind {
        0 => {
            // an instruction gets or loses its name
            let Some(i) = find(&|i| KEYS.contains(&text(i))) else { return };
            if i > 1 && text(i - 1) == b"=" && chance(1, 2) {
                let (a, b) = (toks[i - 2].0, toks[i - 1].1);
                v.drain(a..b);
                fault(F::Drop);
            } else {
                let name = match find(&|i| matches!(text(i).first(), Some(b'@' | b'%'))) {
                    Some(n) if chance(1, 2) => text(n).to_vec(),
                    _ => pick(&["%0", "%77", "%zz", "@zz"]).into(),
                };
                let at = toks[i].0;
                v.splice(at..at, [&name[..], b" = "].concat());
                fault(F::Insert);
            }
        }
        1 => {
            // both targets of a branch become one
            let Some(i) = find(&|i| text(i) == b"br") else { return };
            let cond = element(i + 1);
            let Some(first) = toks.get(cond + 1) else { return };
            let mid = element(cond + 1);
            let mut end = mid + 2;
            if text(end) == b"(" {
                end = element(end + 1) + 1;
            }
            if mid <= cond + 1 || mid + 1 >= toks.len() || end > toks.len() {
                return;
            }
            let one = v[first.0..toks[mid - 1].1].to_vec();
            v.splice(toks[mid + 1].0..toks[end - 1].1, one);
            fault(F::Dup);
        }
        2 | 3 => {
            // an element of a list is lost or repeated
            let Some(i) = find(&|i| matches!(text(i), b"," | b"(" | b"{")) else { return };
            let end = element(i + 1);
            if end >= toks.len() || end == i + 1 {
                return;
            }
            if kind == 2 {
                let (a, b) = if text(i) == b"," { (toks[i].0, toks[end].0) } else { (toks[i].1, toks[end].0 + (text(end) == b",") as usize) };
                v.drain(a..b);
                fault(F::Drop);
            } else {
                let part = [&v[toks[i + 1].0..toks[end].0], b", "].concat();
                let at = toks[i + 1].0;
                v.splice(at..at, part);
                fault(F::Dup);
            }
        }
        _ => {
            // a reference in parentheses appears where none was
            let Some(i) = find(&|i| matches!(text(i).first(), Some(b'@' | b'%')) && text(i + 1) != b"(") else { return };
            let at = toks[i].1;
            let s = pick(&["()", "(0)", "(1, 2)", "(%0)"]);
            v.splice(at..at, s.bytes());
            fault(F::Insert);
        }
    }
}

/// Marks which sizes of input were seen.
fn little_stack() {
    let lim = [512u64 << 10, 2 << 20];
    unsafe { crate::sys::sc3(160, 3, lim.as_ptr() as i64, 0) };
}
/// A text with very many comments in a row, with little stack left.
pub fn many_comments(b: &mut Vec<u8>) {
    let toks = tokens(b);
    let at = if toks.is_empty() { 0 } else { toks[draw(toks.len() as u32) as usize].1 };
    let one = pick(&[&b"/**/"[..], b"//\n", b"// x\r", b"/***/\n "]);
    // a value to return stands on the line of its `ret`
    let one = if b[..at].ends_with(b"ret") { &b"/**/"[..] } else { one };
    let all = [b" ", &one.repeat(range(8000, 12000) as usize)[..]].concat();
    b.splice(at..at, all);
    probe("many_comments");
    little_stack();
}
/// A long program and its text, with little stack left for what comes.
pub fn long_text() -> (Prog, Text) {
    probe("long_chain");
    let m = generate::long();
    let mut t = generate::emit(&m, &generate::any_style());
    if t.warnings > 3 {
        // every report reads the source again
        t = generate::emit(&m, &generate::Style { seed: 0, pad: 0 });
    }
    little_stack();
    (m, t)
}
pub fn size_probes(n: usize) {
    if n > 8192 {
        probe("input_over_8k");
    }
    if n > 65536 {
        probe("input_over_64k");
    }
}

pub const REAL: &str = "koopa front end, IR, layout, generators, pass manager and libkoopa as compiled from /repo; the standard library's readers, writers, locks and threads";

pub fn wplan() -> crate::simio::WPlan {
    crate::simio::WPlan {
        intr: pick(&[0, 1, 3, 20]), short: pick(&[0, 1, 2, 10]), chunk: pick(&[0, 0, 1, 2, 3, 7, 64]), ..Default::default()
    }
}

/// Which text form is generated.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Koopa,
    Llvm,
}
pub fn any_form() -> Form {
    if chance(1, 3) { Form::Llvm } else { Form::Koopa }
}
impl Form {
    pub fn onto<W: std::io::Write>(self, w: W, p: &Program) -> std::io::Result<()> {
        match self {
            Form::Koopa => koopa::back::KoopaGenerator::new(w).generate_on(p),
            Form::Llvm => koopa::back::LlvmGenerator::new(w).generate_on(p),
        }
    }
    /// The text a fresh generator produces on a sink without faults.
    pub fn text(self, p: &Program) -> Vec<u8> {
        let mut v = Vec::new();
        if let Err(e) = self.onto(&mut v, p) {
            crate::fail!("calm-failure", "generating {self:?} text into memory fails: {e}");
        }
        v
    }
    pub fn to_path(self, path: &str, p: &Program) -> std::io::Result<()> {
        match self {
            Form::Koopa => koopa::back::KoopaGenerator::from_path(path)?.generate_on(p),
            Form::Llvm => koopa::back::LlvmGenerator::from_path(path)?.generate_on(p),
        }
    }
}

/// A program for a text form, both as a model and as a real program that was
/// built through the interface or parsed from text.
pub fn any_program(form: Form) -> (Prog, Program) {
    any_program_free(form, true)
}
/// Like `any_program`; only programs built through the interface can have
/// parts with the same name and call later functions.
pub fn any_program_free(form: Form, free: bool) -> (Prog, Program) {
    let mut c = generate::any_cfg();
    c.plain = form == Form::Llvm;
    let mut m = generate::Gen::prog(c);
    let p = if chance(1, 2) {
        if free && chance(1, 3) {
            share_names(&mut m);
        }
        if free && chance(1, 3) {
            move_funcs(&mut m);
        }
        if free && chance(1, 4) {
            aggregates(&mut m);
        }
        if free && chance(1, 3) {
            move_blocks(&mut m);
        }
        canon::build(&m)
    } else {
        let t = generate::emit(&m, &generate::any_style());
        must_parse(&m, &t)
    };
    (m, p)
}
/// Lets aggregates be arguments, which only the interface can express.
pub fn aggregates(m: &mut Prog) {
    use crate::model::{Const, Kind, Op, Ty};
    use generate::Gen;
    let mut g = Gen::free(generate::SMALL);
    for f in &mut m.funcs {
        for b in &mut f.blocks {
            for i in &mut b.insts {
                let fix = |o: &mut Op, g: &mut Gen| {
                    if let Op::Const(Const::Undef(t)) = o {
                        if matches!(t, Ty::Arr(..)) {
                            let t = t.clone();
                            *o = Op::Const(g.init(&t));
                            probe("aggregate_argument");
                        }
                    }
                };
                match &mut i.kind {
                    Kind::Br(_, _, a, _, b) => a.iter_mut().chain(b).for_each(|o| fix(o, &mut g)),
                    Kind::Jump(_, a) | Kind::Call(_, a) => a.iter_mut().for_each(|o| fix(o, &mut g)),
                    Kind::Ret(Some(o)) => fix(o, &mut g),
                    _ => {}
                }
            }
        }
    }
}
/// Changes the order of functions, so that functions call later ones.
pub fn move_funcs(m: &mut Prog) {
    let n = m.funcs.len();
    let mut order: Vec<usize> = (0..n).collect();
    for _ in 0..range(1, 3) {
        let (a, b) = (draw(n as u32) as usize, draw(n as u32) as usize);
        let f = order.remove(a);
        order.insert(b, f);
    }
    let mut old: Vec<Option<crate::model::Func>> = std::mem::take(&mut m.funcs).into_iter().map(Some).collect();
    m.funcs = order.iter().map(|&o| old[o].take().unwrap()).collect();
    for (fi, f) in m.funcs.iter_mut().enumerate() {
        for i in f.blocks.iter_mut().flat_map(|b| &mut b.insts) {
            if let crate::model::Kind::Call(c, _) = &mut i.kind {
                *c = order.iter().position(|o| o == c).unwrap();
                if *c > fi {
                    probe("forward_call");
                }
            }
        }
    }
}
/// Changes the order of blocks, so that values are used above their definitions.
pub fn move_blocks(m: &mut Prog) {
    for f in &mut m.funcs {
        let n = f.blocks.len();
        if n < 3 || chance(1, 2) {
            continue;
        }
        let mut order: Vec<usize> = (0..n).collect();
        for _ in 0..range(1, 3) {
            let (a, b) = (range(1, n as u32 - 1) as usize, range(1, n as u32 - 1) as usize);
            let x = order.remove(a);
            order.insert(b, x);
        }
        order_blocks(f, &order);
        probe("moved_block");
    }
}
/// Puts the blocks of a function in the given order (of their old positions).
pub fn order_blocks(f: &mut crate::model::Func, order: &[usize]) {
    use crate::model::{Kind, Op};
    let pos = |b: &mut usize| *b = order.iter().position(|o| o == b).unwrap();
    let mut old: Vec<Option<crate::model::Block>> = std::mem::take(&mut f.blocks).into_iter().map(Some).collect();
    f.blocks = order.iter().map(|&o| old[o].take().unwrap()).collect();
    for i in f.blocks.iter_mut().flat_map(|b| &mut b.insts) {
        match &mut i.kind {
            Kind::Br(_, t, _, e, _) => { pos(t); pos(e) }
            Kind::Jump(t, _) => pos(t),
            _ => {}
        }
        for o in generate::kind_ops(&mut i.kind) {
            if let Op::BParam(b, _) | Op::Inst(b, _) = o {
                pos(b);
            }
        }
    }
}
/// Gives several parts of a program the same or almost the same name.
pub fn share_names(m: &mut Prog) {
    let pool = ["@x", "%x", "@x_0", "%x_0", "@a1", "%a1", "%a1_0", "%0", "%1", "@_", "%entry", "@n1"];
    let pool: Vec<&str> = (0..range(1, 4)).map(|_| pick(&pool)).collect();
    let rate = range(1, 6);
    let again = |n: &mut Option<String>| {
        if draw(rate) == 0 {
            *n = Some(pick(&pool).into());
        }
    };
    for g in &mut m.globals {
        again(&mut g.name);
    }
    for f in &mut m.funcs {
        if draw(2 * rate) == 0 {
            f.name = pick(&pool).into();
        }
        if f.is_decl() {
            continue;
        }
        f.params.iter_mut().for_each(|p| again(&mut p.0));
        for b in &mut f.blocks {
            again(&mut b.name);
            b.params.iter_mut().for_each(|p| again(&mut p.0));
            b.insts.iter_mut().filter(|i| i.ty != crate::model::Ty::Unit).for_each(|i| again(&mut i.name));
        }
    }
}
pub fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// Breaks the meaning of a program, so that its text is still well-formed.
pub fn spoil_meaning(m: &mut Prog) {
    use crate::model::{Const, Inst, Kind, Op, Ty};
    use generate::Gen;
    let mut g = Gen::free(generate::SMALL);
    let nf = m.funcs.len() as u32;
    for _ in 0..range(1, 3) {
        let bodies: Vec<usize> = (0..m.funcs.len()).filter(|f| !m.funcs[*f].is_decl()).collect();
        if bodies.is_empty() {
            return;
        }
        let fi = bodies[draw(bodies.len() as u32) as usize];
        let rets: Vec<(usize, Ty)> = m.funcs.iter().map(|f| (f.params.len(), f.ret.clone())).collect();
        // everything that has a name and a type here
        let mut all: Vec<(Op, Ty)> = m.globals.iter().enumerate().map(|(i, g)| (Op::Global(i), g.init.ty().ptr())).collect();
        let f = &mut m.funcs[fi];
        all.extend(f.params.iter().enumerate().map(|(i, p)| (Op::Param(i), p.1.clone())));
        for (b, blk) in f.blocks.iter().enumerate() {
            all.extend(blk.params.iter().enumerate().map(|(i, p)| (Op::BParam(b, i), p.1.clone())));
            all.extend(blk.insts.iter().enumerate().filter(|i| i.1.ty != Ty::Unit).map(|(i, x)| (Op::Inst(b, i), x.ty.clone())));
        }
        let nb = f.blocks.len();
        let bi = draw(nb as u32) as usize;
        if f.blocks[bi].insts.is_empty() {
            continue;
        }
        let last = f.blocks[bi].insts.len() - 1;
        let ii = if chance(1, 3) { last } else { draw(last as u32 + 1) as usize };
        let goals: Vec<usize> = match &f.blocks[bi].insts[ii].kind {
            Kind::Br(_, t, _, e, _) => vec![*t, *e],
            Kind::Jump(t, _) => vec![*t],
            _ => vec![],
        };
        let names: Vec<String> = f.params.iter().chain(f.blocks.iter().flat_map(|b| &b.params)).filter_map(|p| p.0.clone())
            .chain(f.blocks.iter().flat_map(|b| &b.insts).filter_map(|i| i.name.clone()))
            .chain(m.globals.iter().filter_map(|g| g.name.clone())).chain([f.name.clone()]).collect();
        let name = names[draw(names.len() as u32) as usize].clone();
        fault(F::Move);
        match draw(12) {
            0..=3 => {
                let same = chance(2, 3);
                let mut ops = generate::kind_ops(&mut f.blocks[bi].insts[ii].kind);
                if ops.is_empty() {
                    continue;
                }
                let k = draw(ops.len() as u32) as usize;
                let ty = match &*ops[k] {
                    Op::Const(c) => c.ty(),
                    o => all.iter().find(|a| a.0 == *o).map_or(Ty::I32, |a| a.1.clone()),
                };
                let near = !goals.is_empty() && chance(1, 2);
                let there = |o: &Op| matches!(o, Op::BParam(b, _) | Op::Inst(b, _) if goals.contains(b));
                let cands: Vec<Op> = all.iter().filter(|a| (!same || a.1 == ty) && (!near || there(&a.0))).map(|a| a.0.clone()).collect();
                if !cands.is_empty() && !chance(1, 8) {
                    *ops[k] = cands[draw(cands.len() as u32) as usize].clone();
                } else {
                    let t = g.ty(1);
                    *ops[k] = Op::Const(if chance(1, 2) { Const::Undef(t) } else { Const::Int(1) });
                }
            }
            4 => match &mut f.blocks[bi].insts[ii].kind {
                Kind::Call(_, a) | Kind::Jump(_, a) | Kind::Br(_, _, a, _, _) => {
                    if chance(1, 2) {
                        a.pop();
                    } else {
                        let o = a.first().cloned().unwrap_or(Op::Const(Const::Int(3)));
                        a.push(o);
                    }
                }
                _ => {}
            },
            5 => match &mut f.blocks[bi].insts[ii].kind {
                Kind::Call(c, _) => {
                    *c = draw(nf) as usize;
                    if chance(1, 2) {
                        f.blocks[bi].insts[ii].ty = rets[*c].1.clone();
                    }
                }
                Kind::Jump(t, _) | Kind::Br(_, _, _, t, _) => *t = draw(nb as u32) as usize,
                Kind::Ret(v) => *v = if v.is_some() { None } else { Some(Op::Const(Const::Int(0))) },
                _ => {}
            },
            6 => {
                let t = g.ty(2);
                match draw(4) {
                    0 if !f.params.is_empty() => f.params[0].1 = t,
                    1 if !f.blocks[bi].params.is_empty() => f.blocks[bi].params[0].1 = t,
                    2 => f.ret = if chance(1, 3) { Ty::Unit } else { t },
                    _ => {
                        if let Kind::Alloc = f.blocks[bi].insts[ii].kind {
                            f.blocks[bi].insts[ii].ty = t.ptr();
                        }
                    }
                }
            }
            7 | 8 => match draw(6) {
                0 if !f.params.is_empty() => f.params[0].0 = Some(name),
                1 if !f.blocks[bi].params.is_empty() => f.blocks[bi].params[0].0 = Some(name),
                2 if nb > 1 => {
                    let o = draw(nb as u32) as usize;
                    f.blocks[bi].name = f.blocks[o].name.clone();
                }
                3 => f.name = name,
                4 if !m.globals.is_empty() => m.globals[0].name = Some(name),
                _ => {
                    let i = &mut f.blocks[bi].insts[ii];
                    if i.ty != Ty::Unit {
                        i.name = Some(name);
                    }
                }
            },
            9 => {
                // statements move to another block
                let to = draw(nb as u32) as usize;
                if to != bi && !uses_insts(f) {
                    let i = f.blocks[bi].insts.remove(ii);
                    let at = draw(f.blocks[to].insts.len() as u32 + 1) as usize;
                    f.blocks[to].insts.insert(at, i);
                }
            }
            10 => {
                // an ending appears early or is missing
                let l = &mut f.blocks[bi].insts;
                if chance(1, 2) {
                    let n = l.len() - 1;
                    l.truncate(n.max(1));
                } else {
                    l.push(Inst { name: None, ty: Ty::Unit, kind: Kind::Ret(None) });
                }
            }
            _ => {
                if let Some(x) = m.globals.first_mut() {
                    if let Const::Agg(e) = &mut x.init {
                        if chance(1, 2) && e.len() > 1 {
                            e.pop();
                        } else {
                            let t = g.ty(1);
                            e[0] = g.init(&t);
                        }
                    }
                }
            }
        }
    }
    probe("spoiled_meaning");
}
fn uses_insts(f: &crate::model::Func) -> bool {
    let mut r = false;
    for i in f.blocks.iter().flat_map(|b| &b.insts) {
        generate::each_op(&i.kind, &mut |o| r |= matches!(o, crate::model::Op::Inst(..)));
    }
    r
}

/// Another path of the file, sometimes a very long one.
pub fn alias(name: &str) -> String {
    if chance(1, 15) {
        probe("long_path");
        format!("{}{name}", "./".repeat(range(1, 2000) as usize))
    } else {
        name.to_string()
    }
}
