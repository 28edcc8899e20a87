//! Starts simulated runs in forked children, collects what they did, shrinks
//! failing choice sequences and writes replay and evidence files.
use crate::core::*;
use crate::{alloc, os, props, sched, sys};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok,
    Violation(String, String),
    Harness(String),
}

extern "C" fn on_timer(sig: i32) {
    let s = sh();
    if s.status == RUNNING {
        s.status = VIOLATION;
        let _ = s.class.write_str("hang");
        let _ = s.detail.write_str(if sig == 27 {
            "the run used 20 s of processor time without ending"
        } else {
            "the run did not end within 120 s"
        });
        s.nchoices = s.pos;
    }
    sys::exit_now(0);
}

fn set_timer(which: i64, secs: i64) {
    let it = [0i64, 0, secs, 0];
    unsafe { sys::sc3(sys::SYS_SETITIMER, which, it.as_ptr() as i64, 0) };
}

fn child(p: &Prop) -> ! {
    for sig in [27, 14] {
        let sa = sys::SigAction { handler: on_timer as *const () as usize, mask: [0; 16], flags: 0, restorer: 0 };
        unsafe { sys::sigaction(sig, &sa, std::ptr::null_mut()) };
    }
    set_timer(2, 20);
    set_timer(0, 120);
    unsafe {
        // die with the worker, small main stack, no core files
        sys::prctl(1, 9, 0, 0, 0);
        let lim = [2u64 << 20, 2 << 20];
        sys::sc3(160, 3, lim.as_ptr() as i64, 0);
        let zero = [0u64, 0];
        sys::sc3(160, 4, zero.as_ptr() as i64, 0);
    }
    sched::install();
    os::activate();
    alloc::heap().on = true;
    sh().in_scenario = 1;
    let r = std::panic::catch_unwind(|| (p.run)());
    if r.is_err() {
        crate::fail!("panic", "panicked: {}", sh().panic.get());
    }
    let s = sh();
    s.status = OK;
    s.nchoices = s.pos;
    sys::exit_now(0)
}

/// Executes one run; `replay` is the choice list to follow, else `seed` is used.
pub fn run_once(p: &Prop, seed: u64, replay: Option<&[u32]>, verbose: bool) -> Outcome {
    let s = sh();
    s.reset();
    s.verbose = verbose as u32;
    match replay {
        Some(c) => {
            s.replay = 1;
            s.replay_len = c.len() as u32;
            s.choices[..c.len()].copy_from_slice(c);
        }
        None => s.rng = seed,
    }
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        return Outcome::Harness("fork failed".into());
    }
    if pid == 0 {
        child(p);
    }
    let mut st = 0;
    while unsafe { sys::waitpid(pid, &mut st, 0) } < 0 {}
    let s = sh();
    let sig = st & 0x7f;
    if sig != 0 {
        s.nchoices = s.pos;
        if sig == 9 {
            return Outcome::Harness("run was killed".into());
        }
        let name = match sig { 4 => "SIGILL", 5 => "SIGTRAP", 6 => "SIGABRT", 7 => "SIGBUS", 8 => "SIGFPE", 11 => "SIGSEGV", _ => "signal" };
        let note = s.panic.get();
        return Outcome::Violation(format!("crash-{name}"), format!("the process died from {name} ({sig}) {note}"));
    }
    let code = st >> 8 & 0xff;
    match (s.status, code) {
        (OK, 0) => Outcome::Ok,
        (VIOLATION, 0) => Outcome::Violation(s.class.get(), s.detail.get()),
        (HARNESS, _) => Outcome::Harness(s.detail.get()),
        (st, code) => {
            s.nchoices = s.pos;
            Outcome::Violation("exit".into(), format!("the process ended by itself with code {code} (state {st})"))
        }
    }
}

#[repr(C)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    events: u64,
    rechecked: u64,
    diverged: u64,
    faults: [u64; NCOUNT],
    fault_runs: [u64; NCOUNT],
    probes: [u64; NCOUNT],
    known: u64,
    state: u32, // 0 working, 1 done, 2 violation, 3 harness error
    idx: u64,
    nhash: u64,
    msg: Buf<2000>,
    hashes: [u64; MAXHASH],
}
const MAXHASH: usize = 1 << 20;

pub fn seed_of(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(id.as_bytes())).wrapping_add(mix(idx)))
}

fn scratch_base() -> String {
    for base in ["/dev/shm", "/tmp"] {
        let d = format!("{base}/ksim.{}", std::process::id());
        if std::fs::create_dir(&d).is_ok() {
            return d;
        }
    }
    eprintln!("cannot create a scratch directory");
    std::process::exit(2);
}

fn prepare() -> String {
    let d = scratch_base();
    alloc::map_arena();
    os::map_buffers();
    set_shared(new_shared());
    std::panic::set_hook(Box::new(|info| {
        let _q = sched::quiet();
        let s = sh();
        s.panic.len = 0;
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = write!(s.panic, "{} at {}", cut(&msg), loc);
        if s.in_scenario == 0 {
            sys::raw_err(&format!("harness panic: {msg} at {loc}\n"));
        }
    }));
    d
}

fn worker(p: &Prop, w: u64, n: u64, seed: u64, total: u64, deadline: Instant, out: *mut WorkerOut, stop: *mut u32, dir: &str) -> ! {
    let d = format!("{dir}/w{w}");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::env::set_current_dir(&d);
    set_shared(new_shared());
    os::map_buffers();
    let out = unsafe { &mut *out };
    let mut i = w;
    let mut killed = 0;
    while i < total && Instant::now() < deadline && unsafe { std::ptr::read_volatile(stop) } == 0 {
        let sd = seed_of(seed, p.id, i);
        let r = run_once(p, sd, None, false);
        let s = sh();
        match r {
            Outcome::Ok => {}
            Outcome::Violation(..) => {
                out.state = 2;
                out.idx = i;
                unsafe { std::ptr::write_volatile(stop, 1) };
                sys::exit_now(0);
            }
            Outcome::Harness(m) => {
                if m == "run was killed" && killed < 3 {
                    killed += 1;
                    continue;
                }
                out.state = 3;
                out.idx = i;
                let _ = write!(out.msg, "{m}");
                unsafe { std::ptr::write_volatile(stop, 1) };
                sys::exit_now(0);
            }
        }
        out.runs += 1;
        out.steps += s.steps;
        out.events += s.events;
        out.known += s.known as u64;
        for k in 0..NCOUNT {
            out.faults[k] += s.faults[k] as u64;
            out.fault_runs[k] += (s.faults[k] != 0) as u64;
            out.probes[k] += s.probes[k] as u64;
        }
        out.nontrivial += (s.nontrivial != 0) as u64;
        if (out.nhash as usize) < MAXHASH {
            // the lowest bit tells non-trivial executions from others
            out.hashes[out.nhash as usize] = s.hash & !1 | (s.nontrivial != 0) as u64;
            out.nhash += 1;
        }
        // determinism: the same seed must give the same log
        if mix(i ^ 0xd1ce) % 64 == 0 {
            let (h, e) = (s.hash, s.events);
            let c: Vec<u32> = s.choices[..s.nchoices as usize].to_vec();
            run_once(p, sd, None, false);
            out.rechecked += 1;
            let mut same = sh().hash == h && sh().events == e;
            run_once(p, 0, Some(&c), false);
            same &= sh().hash == h && sh().events == e;
            if !same {
                out.diverged += 1;
                let _ = write!(out.msg, "run {i} diverged; ");
            }
        }
        i += n;
    }
    out.state = 1;
    sys::exit_now(0)
}

fn same(r: &Outcome, class: &str) -> bool {
    matches!(r, Outcome::Violation(c, _) if c == class)
}

/// Minimises a failing choice sequence while the same class of violation persists.
fn shrink(p: &Prop, start: Vec<u32>, class: &str) -> (Vec<u32>, u32) {
    let mut cur = start;
    let t0 = Instant::now();
    let mut runs = 0u32;
    let mut attempt = |c: &mut Vec<u32>, cand: Vec<u32>| -> bool {
        if runs >= 3000 || t0.elapsed() > Duration::from_secs(60) {
            return false;
        }
        runs += 1;
        let r = run_once(p, 0, Some(&cand), false);
        if same(&r, class) {
            let used = (sh().nchoices as usize).min(cand.len());
            let mut next = cand;
            next.truncate(used);
            while next.last() == Some(&0) {
                next.pop();
            }
            let better = next.len() < c.len() || (next.len() == c.len() && next < *c);
            if better {
                *c = next;
            }
            better
        } else {
            false
        }
    };
    loop {
        let before = cur.clone();
        // shorter tails, then removed chunks
        let mut n = cur.len() / 2;
        while n > 0 {
            let c = cur[..cur.len() - n.min(cur.len())].to_vec();
            if !attempt(&mut cur, c) { n /= 2 } else { n = n.min(cur.len() / 2) }
        }
        let mut n = (cur.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < cur.len() {
                let mut c = cur.clone();
                c.drain(at..(at + n).min(cur.len()));
                if !attempt(&mut cur, c) { at += n }
            }
            if n == 1 { break }
            n /= 2;
        }
        // zeroed chunks, then smaller values
        let mut n = (cur.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < cur.len() {
                let end = (at + n).min(cur.len());
                if cur[at..end].iter().any(|v| *v != 0) {
                    let mut c = cur.clone();
                    c[at..end].fill(0);
                    attempt(&mut cur, c);
                }
                at += n;
            }
            if n == 1 { break }
            n /= 2;
        }
        let mut i = 0;
        while i < cur.len() {
            for f in [|v: u32| v / 2, |v: u32| v.saturating_sub(1)] {
                while i < cur.len() && cur[i] > 0 {
                    let mut c = cur.clone();
                    c[i] = f(c[i]);
                    if !attempt(&mut cur, c) { break }
                }
            }
            i += 1;
        }
        if cur == before { break }
    }
    (cur, runs)
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("KSIM_VERIF").unwrap_or_else(|_| "/verif".into())
}

/// The recorded findings of a property: class and description.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    text.lines().filter_map(|l| {
        let rest = l.strip_prefix("known: ")?.strip_prefix(&format!("property={id} "))?;
        let rest = rest.strip_prefix("class=")?;
        let (c, t) = rest.split_once(' ')?;
        Some((c.to_string(), t.to_string()))
    }).collect()
}

pub fn check(id: &str, tier: &str, seed: u64, over: Option<u64>, workers: u64) -> i32 {
    let p = props::find(id);
    let findings = known_findings(id);
    set_known(findings.iter().map(|f| f.0.clone()).collect());
    let t0 = Instant::now();
    let dir = prepare();
    let total = over.unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let cap = if tier == "thorough" { 3600 } else { 90 };
    let deadline = t0 + Duration::from_secs(cap);
    let stop = sys::map_shared(4096) as *mut u32;
    let outs: Vec<*mut WorkerOut> = (0..workers).map(|_| sys::map_shared(std::mem::size_of::<WorkerOut>()) as *mut WorkerOut).collect();
    let mut pids = Vec::new();
    for w in 0..workers {
        let pid = unsafe { sys::fork() };
        if pid == 0 {
            unsafe { sys::prctl(1, 9, 0, 0, 0) };
            worker(p, w, workers, seed, total, deadline, outs[w as usize], stop, &dir);
        }
        pids.push(pid);
    }
    for pid in &pids {
        let mut st = 0;
        while unsafe { sys::waitpid(*pid, &mut st, 0) } < 0 {}
    }
    let outs: Vec<&WorkerOut> = outs.iter().map(|o| unsafe { &**o }).collect();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violations = 0;
    let mut vnote = String::new();
    if let Some(o) = outs.iter().filter(|o| o.state == 2).min_by_key(|o| o.idx) {
        violations = 1;
        code = 1;
        vnote = report(p, seed, o.idx, &dir);
    } else if let Some(o) = outs.iter().find(|o| o.state != 1) {
        eprintln!("harness error in {id}: state {} run {}: {}", o.state, o.idx, o.msg.get());
        code = 2;
    }
    // samples for the evidence file
    let d = format!("{dir}/s");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::env::set_current_dir(&d);
    let mut samples = Vec::new();
    for i in 0..3 {
        if code != 0 {
            break;
        }
        let sd = seed_of(seed, p.id, i);
        run_once(p, sd, None, true);
        let t = sh().text.get();
        let mut lines: Vec<&str> = t.lines().collect();
        let n = lines.len();
        lines.truncate(25);
        samples.push(format!("{{\"run\": {i}, \"seed\": \"{sd:#x}\", \"events\": {n}, \"log_head\": {}}}", jstr(&cut_to(&lines.join("\n"), 1800))));
    }
    if samples.is_empty() {
        samples.push(jstr(&vnote));
    }
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&dir);
    let sum = |f: &dyn Fn(&WorkerOut) -> u64| outs.iter().map(|o| f(o)).sum::<u64>();
    let runs = sum(&|o| o.runs);
    let mut set = BTreeSet::new();
    let known = sum(&|o| o.known);
    if known > 0 && code == 0 {
        for (c, t) in &findings {
            println!("KNOWN-FINDING: property={id} {c}: {t}");
        }
    }
    for o in &outs {
        set.extend(o.hashes[..o.nhash as usize].iter().copied());
    }
    let mut faults = String::new();
    for (k, name) in FAULT_NAMES.iter().enumerate() {
        let (n, r) = (sum(&|o| o.faults[k]), sum(&|o| o.fault_runs[k]));
        if n > 0 {
            let _ = write!(faults, "{}\"{name}\": {{\"fired\": {n}, \"runs\": {r}}}", if faults.is_empty() { "" } else { ", " });
        }
    }
    let mut probes = String::new();
    for (k, name) in PROBES.iter().enumerate() {
        let n = sum(&|o| o.probes[k]);
        if n > 0 {
            let _ = write!(probes, "{}\"{name}\": {n}", if probes.is_empty() { "" } else { ", " });
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let nontriv = set.iter().filter(|h| **h & 1 == 1).count();
    let ev = format!(
        "{{\n \"property\": \"{id}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_requested\": {total},\n  \"simulated_runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_time\": {{\"unit\": \"scheduler steps and I/O calls (the code has no clock)\", \"steps\": {}, \"logged_events\": {}}},\n  \"known_finding_met\": {known},\n  \"faults_injected\": {{{faults}}},\n  \"rare_conditions_hit\": {{{probes}}},\n  \"distinct_executions\": {{\"count\": {}, \"measure\": \"different hashes of the complete event log (choices of faults, schedule, operations and results)\"}},\n  \"determinism\": {{\"seeds_run_three_times\": {}, \"diverged\": {}}},\n  \"real_code\": {},\n  \"stubbed\": {},\n  \"workers\": {workers}\n }},\n \"assumptions\": [\"bugs that need longer histories, larger inputs or rarer fault combinations than were sampled are not excluded\", \"x86-64 Linux; preemption between instructions of one core, no weak memory effects\"],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        nontriv, jstr(p.rule), samples.join(", "), (runs + 2 * sum(&|o| o.rechecked)) as f64 / search_s * 3600.0, runs as f64 / search_s * 3600.0,
        sum(&|o| o.steps), sum(&|o| o.events), set.len(), sum(&|o| o.rechecked), sum(&|o| o.diverged), jstr(p.real), jstr(p.stub),
    );
    let vd = verif_dir();
    let _ = std::fs::create_dir_all(format!("{vd}/evidence"));
    if let Err(e) = std::fs::write(format!("{vd}/evidence/{id}.json"), ev) {
        eprintln!("cannot write evidence: {e}");
        code = code.max(2);
    }
    let div = sum(&|o| o.diverged);
    if div > 0 {
        println!("note: {div} of {} repeated seeds diverged: {}", sum(&|o| o.rechecked), outs.iter().map(|o| o.msg.get()).collect::<String>());
    }
    println!("{id} {tier}: {runs} runs, {nontriv} distinct non-trivial, {violations} violations, {wall:.1} s");
    code
}

fn cut_to(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

fn report(p: &Prop, seed: u64, idx: u64, dir: &str) -> String {
    let d = format!("{dir}/r");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::env::set_current_dir(&d);
    let sd = seed_of(seed, p.id, idx);
    let mut class = String::new();
    let mut detail = String::new();
    let mut choices = Vec::new();
    for _ in 0..5 {
        if let Outcome::Violation(c, dt) = run_once(p, sd, None, false) {
            class = c;
            detail = dt;
            choices = sh().choices[..sh().nchoices as usize].to_vec();
            break;
        }
    }
    let vd = verif_dir();
    let _ = std::fs::create_dir_all(format!("{vd}/replays"));
    let path = format!("{vd}/replays/{}-{seed}-{idx}.json", p.id);
    if class.is_empty() {
        // seen once, but not again: keep the seed, say so
        let _ = std::fs::write(&path, format!("{{\"property\": \"{}\", \"seed\": {seed}, \"run\": {idx}, \"class\": \"unrepeatable\", \"choices\": []}}\n", p.id));
        println!("the violation of run {idx} did not repeat");
        println!("VIOLATION property={} replay={path}", p.id);
        return "unrepeatable".into();
    }
    let orig = choices.len();
    let (small, tries) = shrink(p, choices, &class);
    let r = run_once(p, 0, Some(&small), true);
    if let Outcome::Violation(_, dt) = &r {
        detail = dt.clone();
    }
    let hash = sh().hash;
    let text = sh().text.get();
    let list: Vec<String> = small.iter().map(|c| c.to_string()).collect();
    let log: Vec<String> = text.lines().rev().take(400).collect::<Vec<_>>().into_iter().rev().map(jstr).collect();
    let js = format!(
        "{{\n \"property\": \"{}\",\n \"seed\": {seed},\n \"run\": {idx},\n \"class\": {},\n \"detail\": {},\n \"log_hash\": \"{hash:016x}\",\n \"choices_before_minimising\": {orig},\n \"minimising_runs\": {tries},\n \"choices\": [{}],\n \"log\": [\n  {}\n ]\n}}\n",
        p.id, jstr(&class), jstr(&detail), list.join(", "), log.join(",\n  ")
    );
    let _ = std::fs::write(&path, js);
    println!("{}: {class}: {detail}", p.id);
    println!("seed {seed} run {idx}: {orig} choices, minimised to {} in {tries} runs", small.len());
    // a fresh process must fail the same way
    let exe = std::env::current_exe().unwrap();
    let ok = std::process::Command::new(exe).arg("replay").arg(&path).output().map(|o| o.status.code() == Some(1)).unwrap_or(false);
    println!("replay in a fresh process: {}", if ok { "same violation" } else { "NOT the same violation" });
    println!("VIOLATION property={} replay={path}", p.id);
    format!("{class}: {detail}")
}

pub fn replay(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let field = |k: &str| -> String {
        let at = text.find(&format!("\"{k}\":")).map(|i| i + k.len() + 3).unwrap_or(text.len());
        let rest = text[at..].trim_start();
        if let Some(r) = rest.strip_prefix('"') { r[..r.find('"').unwrap_or(0)].to_string() } else { rest.split([',', '\n', '}']).next().unwrap_or("").trim().to_string() }
    };
    let at = text.find("\"choices\": [").map(|i| i + 12).unwrap_or(text.len());
    let end = text[at..].find(']').map(|i| i + at).unwrap_or(at);
    let choices: Vec<u32> = text[at..end].split(',').filter_map(|s| s.trim().parse().ok()).collect();
    let p = props::find(&field("property"));
    set_known(known_findings(p.id).into_iter().map(|f| f.0).collect());
    let dir = prepare();
    let d = format!("{dir}/r");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::env::set_current_dir(&d);
    let r = run_once(p, 0, Some(&choices), true);
    let hash = sh().hash;
    print!("{}", sh().text.get());
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Outcome::Violation(c, d) => {
            println!("{c}: {d}");
            println!("log hash {hash:016x}");
            let exact = c == field("class") && format!("{hash:016x}") == field("log_hash");
            println!("VIOLATION property={} replay={path}", p.id);
            if exact { 1 } else { println!("(differs from the recorded violation)"); 3 }
        }
        Outcome::Ok => {
            println!("no violation");
            0
        }
        Outcome::Harness(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

/// Runs one index verbosely, for development.
pub fn one(id: &str, seed: u64, idx: u64) -> i32 {
    let p = props::find(id);
    set_known(known_findings(p.id).into_iter().map(|f| f.0).collect());
    let dir = prepare();
    let _ = std::env::set_current_dir(&dir);
    let r = run_once(p, seed_of(seed, id, idx), None, true);
    print!("{}", sh().text.get());
    println!("{r:?} choices {} hash {:016x} panic {}", sh().nchoices, sh().hash, sh().panic.get());
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&dir);
    0
}

/// Runs seeds over and over and shows the first one that is not repeatable.
pub fn stress(id: &str, seed: u64, from: u64, to: u64, times: u32) -> i32 {
    let p = props::find(id);
    set_known(known_findings(p.id).into_iter().map(|f| f.0).collect());
    let dir = prepare();
    let _ = std::env::set_current_dir(&dir);
    let mut bad = 0;
    let mut total = 0u64;
    for i in from..to {
        let sd = seed_of(seed, id, i);
        run_once(p, sd, None, true);
        let (h, first) = (sh().hash, sh().text.get());
        let c: Vec<u32> = sh().choices[..sh().nchoices as usize].to_vec();
        for t in 0..times {
            run_once(p, sd, if t % 2 == 0 { None } else { Some(&c) }, true);
            total += 1;
            if sh().hash != h {
                let now = sh().text.get();
                let (a, b): (Vec<&str>, Vec<&str>) = (first.lines().collect(), now.lines().collect());
                let k = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                println!("seed index {i} diverges at line {k}");
                for l in a.iter().take(k + 3).skip(k.saturating_sub(6)) {
                    println!("  first: {l}");
                }
                for l in b.iter().take(k + 3).skip(k) {
                    println!("  later: {l}");
                }
                bad += 1;
            }
        }
    }
    println!("{bad} of {total} repetitions diverged");
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&dir);
    0
}
