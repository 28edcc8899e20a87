use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, probe, range, sh, RUNNING};
use crate::orch::Prop;
use crate::os::{os, Plan, CALM};
use crate::{check, ev, refparse, sys};
use koopa::front::Driver;
use koopa::ir::Program;

pub static PROP: Prop = Prop {
    id: "D01",
    run,
    quick: 16000,
    thorough: 1_000_000,
    rule: "an execution counts when a program was saved over an existing file, a save was cut short by a crash or an error, or a saved file was loaded again; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "open(2), read(2), write(2) and close(2) on files; the end of the process in the middle of a write",
};

const FILES: [&str; 3] = ["a.koopa", "b.koopa", "c.koopa"];

struct State {
    /// what is on the disk
    disk: [Option<Vec<u8>>; 3],
    /// canonical description of the program in each file, if it is complete
    holds: [Option<String>; 3],
    progs: Vec<(Program, Vec<u8>)>,
}

fn io_plan() -> Plan {
    Plan { short_w: pick(&[0, 1, 4]), intr_w: pick(&[0, 0, 3]), short_r: pick(&[0, 1, 4]), intr_r: pick(&[0, 0, 20]), ..CALM }
}

/// The text and the program it stands for.
fn named(text: &[u8]) -> String {
    let r = refparse::read(text);
    match r.result {
        Ok((p, _)) => p.canon(),
        Err(e) => crate::core::harness_error(&format!("the standard rendering is no valid text: {e}: {}", crate::core::show(text))),
    }
}

fn fresh(s: &mut State) {
    let (m, p) = if s.progs.is_empty() && chance(1, 400) {
        let (m, t) = long_text();
        let p = must_parse(&m, &t);
        (m, p)
    } else {
        any_program_free(Form::Koopa, false)
    };
    let want = m.print().into_bytes();
    s.progs.push((p, want));
}

fn run() {
    any_heap();
    unlink(&FILES);
    let mut s = State { disk: Default::default(), holds: Default::default(), progs: vec![] };
    for i in 0..3 {
        if chance(1, 3) {
            let n = draw(5000) as usize;
            let junk = vec![pick(b"#}x\n"); n];
            sys::fs_write(FILES[i], &junk);
            s.disk[i] = Some(junk);
        }
    }
    fresh(&mut s);
    for _ in 0..range(2, 8) {
        let i = draw(3) as usize;
        match draw(10) {
            0 => fresh(&mut s),
            1..=3 => save(&mut s, i),
            4 | 5 => crash(&mut s, i),
            6 => fail_save(&mut s, i),
            _ => load(&mut s, i),
        }
        for k in 0..3 {
            let now = sys::fs_read(FILES[k]);
            check!(now == s.disk[k], "content", "{} does not hold what was written to it: {}", FILES[k],
                crate::core::diff(&lossy(s.disk[k].as_deref().unwrap_or(b"<none>")), &lossy(now.as_deref().unwrap_or(b"<none>"))));
        }
    }
}

fn choose(s: &State) -> usize {
    draw(s.progs.len() as u32) as usize
}

fn save(s: &mut State, i: usize) {
    let k = choose(s);
    os().plan = io_plan();
    let r = Form::Koopa.to_path(&alias(FILES[i]), &s.progs[k].0);
    os().plan = CALM;
    if let Err(e) = r {
        crate::fail!("error", "saving fails although no call failed: {e}");
    }
    let want = s.progs[k].1.clone();
    if s.disk[i].as_ref().is_some_and(|d| d.len() > want.len()) {
        probe("overwrote_longer_file");
    }
    if s.disk[i].is_some() {
        nontrivial();
    }
    ev!("saved {} bytes in {}", want.len(), FILES[i]);
    s.holds[i] = Some(named(&want));
    s.disk[i] = Some(want);
}

fn load(s: &mut State, i: usize) {
    let Some(want) = s.holds[i].clone() else { return };
    nontrivial();
    os().plan = io_plan();
    let r = Driver::from_path(alias(FILES[i])).map(finish);
    os().plan = CALM;
    let (shape, p) = match r {
        Ok(x) => x,
        Err(e) => crate::fail!("load", "cannot open a saved file: {e}"),
    };
    ev!("loaded {}: {}", FILES[i], shape.brief());
    check!(shape.end == "ok" && shape.warnings == 0, "load", "loading a saved program gives {}: {}", shape.brief(), first_message());
    check!(shape.canon == want, "another", "loading gives another program: {}", crate::core::diff(&want, &shape.canon));
    let p = p.unwrap();
    let again = Form::Koopa.text(&p);
    let disk = s.disk[i].clone().unwrap();
    let (model, _) = refparse::read(&disk).result.unwrap_or_else(|e| crate::core::harness_error(&format!("reload: {e}")));
    let std = model.print().into_bytes();
    check!(again == std, "rendering", "saving what was loaded gives another text than its standard rendering: {}", crate::core::diff(&lossy(&std), &lossy(&again)));
    // a function named by digits may have had to make way for a made-up name
    if model.funcs.iter().all(|f| !f.name[1..].bytes().all(|c| c.is_ascii_digit())) {
        check!(again == disk, "unstable", "saving what was loaded gives other bytes: {}", crate::core::diff(&lossy(&disk), &lossy(&again)));
        probe("same_bytes");
    }
    probe("reload_chain");
    s.progs.push((p, again));
    if s.progs.len() > 4 {
        s.progs.remove(0);
    }
}

/// A save cut short: the file holds a prefix, or still the old bytes.
fn partial(s: &mut State, i: usize, want: &[u8], what: &str) {
    let now = sys::fs_read(FILES[i]);
    let ok = now == s.disk[i] || now.as_ref().is_some_and(|n| want.starts_with(n));
    check!(ok, "prefix", "after {what} the file holds neither a prefix of the new text nor the old content: {}",
        crate::core::diff(&lossy(want), &lossy(now.as_deref().unwrap_or(b"<none>"))));
    if now != s.disk[i] {
        s.holds[i] = if now.as_deref() == Some(want) { Some(named(want)) } else { None };
    }
    s.disk[i] = now;
}

fn crash(s: &mut State, i: usize) {
    let k = choose(s);
    let want = s.progs[k].1.clone();
    let plan = Plan { crash_at: 1 + draw(if chance(1, 2) { 6 } else { 200 }), crash_bytes: draw(6), ..io_plan() };
    ev!("saving in {} with a crash at write {}", FILES[i], plan.crash_at);
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        crate::core::harness_error("fork failed");
    }
    if pid == 0 {
        os().plan = plan;
        let r = Form::Koopa.to_path(&alias(FILES[i]), &s.progs[k].0);
        os().plan = CALM;
        sys::exit_now(if r.is_ok() { 78 } else { 79 });
    }
    let mut st = 0;
    while unsafe { sys::waitpid(pid, &mut st, 0) } < 0 {}
    if sh().status != RUNNING {
        sys::exit_now(0);
    }
    let code = if st & 0x7f != 0 { -1 } else { st >> 8 & 0xff };
    match code {
        77 => {
            probe("crash_mid_write");
            nontrivial();
            partial(s, i, &want, "a crash");
        }
        78 => {
            s.holds[i] = Some(named(&want));
            s.disk[i] = Some(want);
        }
        c => crate::fail!("crash", "saving ended with state {c} ({st:#x}) {}", sh().panic.get()),
    }
}

fn fail_save(s: &mut State, i: usize) {
    let k = choose(s);
    let want = s.progs[k].1.clone();
    crate::os::counters_reset();
    os().plan = Plan { err_w: pick(&[1, 3, 20, 100]), open_err: pick(&[0, 0, 2]), ..io_plan() };
    let r = Form::Koopa.to_path(&alias(FILES[i]), &s.progs[k].0);
    os().plan = CALM;
    let failed = os().write_failed + os().open_failed;
    ev!("saving in {}: {failed} failed calls, success {}", FILES[i], r.is_ok());
    if failed > 0 {
        nontrivial();
        probe("save_failed");
        check!(r.is_err(), "swallowed", "saving reports success although a call failed");
        partial(s, i, &want, "a failed save");
    } else {
        check!(r.is_ok(), "spurious", "saving fails although no call failed");
        s.holds[i] = Some(named(&want));
        s.disk[i] = Some(want);
    }
}
