use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, F};
use crate::generate::any_text;
use crate::orch::Prop;
use crate::os::{self, os, Plan, CALM};
use crate::simio::SimReader;
use crate::{canon, check, ev, sys};
use koopa::front::span::FileType;
use koopa::front::Driver;
use std::io::BufReader;

pub static PROP: Prop = Prop {
    id: "S01",
    run,
    quick: 30000,
    thorough: 1_200_000,
    rule: "an execution counts when a reader delivered at least one interruption or short piece, or the simulated disk or standard input did; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "readers passed to the driver, read(2) on files and standard input",
};

const CORNERS: [&[u8]; 12] = [
    b"", b" ", b"\n", b"//", b"/", b"/* */", b"/* *", b"@", b"-", b"global @x = alloc i32, 1//", b"decl @f()//x",
    b"decl @f(): i32 /**/",
];

fn run() {
    any_heap();
    let src = draw(12);
    let (mut bytes, expect) = match src {
        0 if chance(1, 32) => {
            let (p, t) = long_text();
            (t.bytes, Some((p, t.warnings)))
        }
        0..=8 => {
            let (p, t) = any_text();
            (t.bytes, Some((p, t.warnings)))
        }
        9 | 10 => (damage(&any_text().1.bytes), None),
        _ => (pick(&CORNERS).to_vec(), None),
    };
    if chance(1, 300) {
        many_comments(&mut bytes);
    }
    size_probes(bytes.len());
    ev!("text of {} bytes: {}", bytes.len(), crate::core::show(&bytes));
    os::stderr_clear();
    let (base, prog) = parse_buf(&bytes);
    let told = reports();
    ev!("in one buffer: {}", base.brief());
    probe(match base.end { "ok" => "parse_accepted", "rejected" => "parse_rejected", _ => "fatal_result" });
    if let Some(p) = &prog {
        canon::check_audit(p, "parsing");
    }
    if let Some((p, warnings)) = &expect {
        check!(base.end == "ok", "program", "a valid text is {}: {}", base.brief(), told.unwrap_or_default().join(" / "));
        check!(base.warnings == *warnings, "warnings", "{} warnings instead of {warnings}", base.warnings);
        let want = p.canon();
        check!(want == base.canon, "program", "another program: {}", crate::core::diff(&want, &base.canon));
        if *warnings > 0 {
            probe("warnings");
        }
    }
    check!(base.end != "fatal", "fatal", "fatal error without a failing reader");
    drop(prog);
    for round in 0..1 + draw(3) {
        let kind = draw(7);
        let f0: u32 = fired();
        let (got, prog) = match kind {
            0 | 1 => {
                let (r, _log) = SimReader::new(&bytes, rplan());
                finish(Driver::new(FileType::Buffer, r))
            }
            2 => {
                let (r, _log) = SimReader::new(&bytes, rplan());
                let cap = pick(&[1, 2, 3, 7, 64, 4096, 8192]);
                fault(F::SmallBuffer);
                finish(Driver::new(FileType::Buffer, BufReader::with_capacity(cap, r)))
            }
            3 => {
                unlink(&["in.koopa"]);
                sys::fs_write("in.koopa", &bytes);
                os().plan = Plan { short_r: pick(&[0, 1, 3]), intr_r: pick(&[0, 2, 10, 100]), ..CALM };
                let r = Driver::from_path("in.koopa");
                let r = match r {
                    Ok(d) => finish(d),
                    Err(e) => crate::fail!("open", "cannot open an intact file: {e}"),
                };
                os().plan = CALM;
                r
            }
            4 => {
                // the process has one standard input, so a fresh process half
                // would be needed to read it twice; it is read once per run
                if round > 0 {
                    continue;
                }
                let b: &'static [u8] = Box::leak(bytes.clone().into_boxed_slice());
                os::set_stdin(b);
                os().plan = Plan { short_r: pick(&[0, 1, 3]), intr_r: pick(&[0, 2, 10]), ..CALM };
                let r = finish(Driver::from(std::io::stdin()));
                os().plan = CALM;
                r
            }
            5 => match std::str::from_utf8(&bytes) {
                Ok(s) => finish(Driver::from(s)),
                Err(_) => continue,
            },
            _ => match String::from_utf8(bytes.clone()) {
                Ok(s) => finish(Driver::from(s)),
                Err(_) => continue,
            },
        };
        ev!("delivery {kind}: {}", got.brief());
        same_reports(&format!("delivery {kind}"), &told, &reports());
        if fired() > f0 {
            nontrivial();
        }
        same("delivery", &format!("delivery {kind}"), &base, &got);
        if let Some(p) = prog {
            canon::check_audit(&p, "parsing");
            if chance(1, 4) {
                drop(p);
            }
        }
    }
}
fn fired() -> u32 {
    let f = &crate::core::sh().faults;
    [F::ShortRead, F::IntrRead, F::SysShortRead, F::SysIntrRead, F::SmallBuffer].iter().map(|k| f[*k as usize]).sum()
}
