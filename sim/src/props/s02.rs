use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, F};
use crate::generate::any_text;
use crate::orch::Prop;
use crate::os::{os, Plan, CALM};
use crate::simio::{RPlan, SimReader};
use crate::{check, ev, sys};
use koopa::front::span::FileType;
use koopa::front::Driver;
use std::io::BufReader;

pub static PROP: Prop = Prop {
    id: "S02",
    run,
    quick: 50000,
    thorough: 2_000_000,
    rule: "an execution counts when a read failed while the text was being parsed; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "readers passed to the driver, read(2) on files",
};

/// An offset in the text, mostly at places where a parser could take a
/// failure for the end of the text.
fn offset(b: &[u8]) -> usize {
    let n = b.len();
    let toks = tokens(b);
    match draw(8) {
        0 => n,
        1 | 2 if !toks.is_empty() => {
            let t = toks[draw(toks.len() as u32) as usize];
            pick(&[t.1, t.0, (t.1 + 1).min(n), (t.0 + t.1) / 2])
        }
        3 => {
            // after a closing brace, where a shorter program would be complete
            let c: Vec<usize> = (0..n).filter(|i| b[*i] == b'}' || b[*i] == b')').collect();
            if c.is_empty() { n } else { c[draw(c.len() as u32) as usize] + 1 }
        }
        4 => {
            // inside or next to comments and two-character tokens
            let c: Vec<usize> = (0..n).filter(|i| matches!(b[*i], b'/' | b'*' | b'-')).collect();
            if c.is_empty() { n } else { (c[draw(c.len() as u32) as usize] + 1).min(n) }
        }
        5 => n - draw(n.min(6) as u32 + 1) as usize,
        6 => draw(n.min(6) as u32 + 1) as usize,
        _ => draw(n as u32 + 1) as usize,
    }
}

fn run() {
    any_heap();
    let valid = !chance(1, 4);
    let mut bytes = any_text().1.bytes;
    if !valid {
        bytes = damage(&bytes);
    }
    if chance(1, 10) {
        // a trailing comment or space, so that a failure falls behind the last token
        bytes.extend_from_slice(pick(&[&b"// end"[..], b"/* end */", b"\n\n", b"/**", b" ", b"//"]));
    }
    let valid = valid && parse_buf(&bytes).0.end == "ok";
    ev!("text ({valid}): {}", crate::core::show(&bytes));
    for _ in 0..1 + draw(3) {
        if chance(1, 5) {
            unlink(&["in.koopa"]);
            sys::fs_write("in.koopa", &bytes);
            crate::os::counters_reset();
            os().plan = Plan {
                short_r: pick(&[0, 1, 3]), intr_r: pick(&[0, 2, 20]),
                err_r: pick(&[2, 10, (bytes.len() as u32 / 2).max(1)]),
                err_on: 1, ..CALM
            };
            let d = Driver::from_path("in.koopa");
            let got = d.map(finish);
            os().plan = CALM;
            let o = os();
            let (failed, after) = (o.read_failed, o.reads_after_fail);
            let got = match got {
                Ok(g) => g.0,
                Err(e) => crate::fail!("open", "cannot open an intact file: {e}"),
            };
            ev!("from a failing disk ({failed} failed reads): {}", got.brief());
            if failed > 0 {
                nontrivial();
                check!(got.end == "fatal", "swallowed", "read(2) failed but parsing ended {}", got.brief());
            } else if valid {
                check!(got.end == "ok", "valid", "no read failed but parsing ended {}", got.brief());
            }
            check!(after == 0, "retry", "{after} reads on a descriptor that had failed");
            continue;
        }
        let at = offset(&bytes);
        let plan = RPlan { fail_at: Some(at), intr_before: chance(1, 3), once: chance(1, 2), ..rplan() };
        let (r, log) = SimReader::new(&bytes, plan);
        let buffered = chance(1, 4);
        let got = if buffered {
            let cap = pick(&[1, 3, 16, 64, 8192]);
            fault(F::SmallBuffer);
            finish(Driver::new(FileType::Buffer, BufReader::with_capacity(cap, r))).0
        } else {
            finish(Driver::new(FileType::Buffer, r)).0
        };
        let l = log.borrow();
        ev!("fails at {at} of {}: failed {} {}", bytes.len(), l.failed, got.brief());
        if l.failed {
            nontrivial();
            if at == bytes.len() {
                probe("eof_error");
            }
            check!(got.end == "fatal", "swallowed", "the reader failed at byte {at} of {} but parsing ended {}", bytes.len(), got.brief());
        }
        if valid {
            check!(l.failed, "not-read", "parsing ended {} without reading byte {at} of {}", got.brief(), bytes.len());
        }
        check!(l.after_fail == 0, "retry", "the reader was asked {} more times after it had failed", l.after_fail);
    }
}
