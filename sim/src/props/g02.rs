use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, probe, sh};
use crate::orch::Prop;
use crate::os::{os, Plan, CALM};
use crate::simio::{SimWriter, WPlan};
use crate::{canon, check, ev, sys};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "G02",
    run,
    quick: 65000,
    thorough: 2_000_000,
    rule: "an execution counts when a write failed or was refused during generation; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "writers passed to the generators, open(2) and write(2) on files",
};

fn run() {
    any_heap();
    let form = any_form();
    let (_, p) = any_program(form);
    let before = canon::canon(&p);
    let full = form.text(&p);
    ev!("{form:?} {}", crate::core::show(&full));
    for _ in 0..1 + draw(4) {
        if chance(1, 4) {
            unlink(&["out.txt"]);
            crate::os::counters_reset();
            os().plan = Plan {
                short_w: pick(&[0, 1, 5]), intr_w: pick(&[0, 2, 10]), err_w: pick(&[1, 3, 20, 100]),
                open_err: pick(&[0, 0, 3]), ..CALM
            };
            let r = form.to_path("out.txt", &p);
            os().plan = CALM;
            let failed = os().write_failed + os().open_failed;
            let got = sys::fs_read("out.txt").unwrap_or_default();
            ev!("file: {failed} failed calls, {} bytes, {}", got.len(), r.is_ok());
            check!(os().opened == os().closed, "leak", "the output file stays open");
            if failed > 0 {
                nontrivial();
                probe("save_failed");
                check!(r.is_err(), "swallowed", "a system call failed but generation reported success");
                check!(full.starts_with(&got), "prefix", "the file does not hold a prefix of the text: {}", crate::core::diff(&lossy(&full), &lossy(&got)));
            } else {
                check!(r.is_ok() && got == full, "spurious", "no call failed but generation did not succeed: {r:?}");
            }
            continue;
        }
        // biased towards the ends of lines, where writes begin and end
        let at = match draw(4) {
            0 => draw(full.len() as u32 + 1) as usize,
            1 => full.len().saturating_sub(draw(4) as usize),
            2 => draw(3) as usize,
            _ => {
                let nl: Vec<usize> = (0..full.len()).filter(|i| matches!(full[*i], b'\n' | b',' | b':' | b' ')).collect();
                if nl.is_empty() { 0 } else { nl[draw(nl.len() as u32) as usize] + draw(2) as usize }
            }
        }.min(full.len());
        let plan = WPlan { stop_at: Some(at), stop: draw(3), transient: chance(1, 3), flush_fail: chance(1, 4), ..wplan() };
        let (mut w, log) = SimWriter::new(plan);
        let r = catch_unwind(AssertUnwindSafe(|| if chance(1, 2) { form.onto(w, &p) } else { form.onto(&mut w as &mut dyn Write, &p) }));
        let l = log.borrow();
        ev!("stops at {at} of {}: kind {} got {} writes {}", full.len(), plan.stop, l.got.len(), l.writes);
        match r {
            Err(_) => {
                check!(plan.stop == 2 && l.stopped && sh().panic.get().contains("the sink gives up"), "panic", "generation panicked: {}", sh().panic.get());
                nontrivial();
            }
            Ok(r) => {
                if l.stopped || l.flush_failed {
                    nontrivial();
                    check!(r.is_err(), "swallowed", "the sink failed at byte {at} of {} but generation reported success", full.len());
                } else {
                    check!(r.is_ok() && l.got == full, "spurious", "the sink did not fail but generation did not succeed: {r:?}");
                }
                if at < full.len() {
                    check!(l.stopped, "not-written", "generation ended without offering byte {at} of {}", full.len());
                }
            }
        }
        check!(full.starts_with(&l.got), "prefix", "the sink does not hold a prefix of the text: {}", crate::core::diff(&lossy(&full), &lossy(&l.got)));
    }
    let after = canon::canon(&p);
    check!(before == after, "changed", "generating changed the program: {}", crate::core::diff(&before, &after));
}
