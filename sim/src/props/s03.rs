use super::util::*;
use crate::core::{chance, draw, fault, nontrivial, pick, probe, F};
use crate::generate::{any_cfg, any_text, emit, any_style, Gen, SMALL};
use crate::orch::Prop;
use crate::simio::SimReader;
use crate::{canon, check, ev, refparse};
use koopa::front::span::FileType;
use koopa::front::Driver;

pub static PROP: Prop = Prop {
    id: "S03",
    run,
    quick: 90000,
    thorough: 4_000_000,
    rule: "an execution counts when a damaged text was parsed and the reference reader gave a definite verdict on it; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the channel that damages the text, readers passed to the driver",
};

fn run() {
    any_heap();
    if chance(1, 4) {
        let mut m = Gen::prog(if chance(2, 3) { SMALL } else { any_cfg() });
        spoil_meaning(&mut m);
        return one(&emit(&m, &any_style()).bytes);
    }
    let small = chance(2, 3);
    let text = if small { emit(&Gen::prog(SMALL), &any_style()) } else { any_text().1 };
    let mut bytes = text.bytes;
    for _ in 0..1 + draw(3) {
        let mut b = if chance(1, 25) { deep() } else { damage(&bytes) };
        if b.len() > 400_000 {
            b.truncate(400_000);
        }
        one(&b);
        if chance(1, 3) {
            // damage adds up
            bytes = b;
        }
    }
}

/// Long or deep pieces, which a lost delimiter can produce.
fn deep() -> Vec<u8> {
    fault(F::Dup);
    let n = pick(&[3usize, 30, 300, 3000]);
    match draw(9) {
        0 => { probe("deep_nesting"); format!("global @x = alloc {}i32{}, undef", "[".repeat(n.min(150)), ", 1]".repeat(n.min(150))).into_bytes() }
        1 => { probe("deep_nesting"); format!("decl @f({}i32)", "*".repeat(n.min(300))).into_bytes() }
        2 => "// c\n".repeat(n * 20).into_bytes(),
        3 => "/**/ ".repeat(n * 20).into_bytes(),
        4 => { probe("long_token"); format!("decl @{}()", "a".repeat(n * 20)).into_bytes() }
        5 => { probe("long_token"); format!("global @x = alloc i32, {}", "1".repeat(n)).into_bytes() }
        6 => { probe("too_many_errors"); "x \n".repeat(n).into_bytes() }
        7 => format!("global @x = alloc [i32, {n}], {{{}}}", vec!["7"; n].join(",")).into_bytes(),
        _ => { probe("deep_nesting"); format!("global @x = alloc {}i32{}, {}1{}", "[".repeat(n.min(100)), ", 1]".repeat(n.min(100)), "{".repeat(n.min(100)), "}".repeat(n.min(100))).into_bytes() }
    }
}

fn one(b: &[u8]) {
    ev!("text {}", crate::core::show(b));
    let r = refparse::read(b);
    let (got, prog) = if chance(1, 5) {
        let (rd, _log) = SimReader::new(b, rplan());
        finish(Driver::new(FileType::Buffer, rd))
    } else {
        parse_buf(b)
    };
    ev!("{} / {}", got.brief(), match &r.result { Ok(_) => "accept", Err(e) => e.as_str() });
    check!(got.end != "fatal", "fatal", "fatal error without a failing reader: {}", first_message());
    if let Some(p) = &prog {
        canon::check_audit(p, "parsing");
        check!(got.errors == 0, "counts", "accepted with {} errors", got.errors);
    } else {
        check!(got.errors > 0, "counts", "rejected without an error");
    }
    drop(prog);
    if r.ambiguous {
        probe("oracle_skipped");
        return;
    }
    nontrivial();
    match r.result {
        Ok((p, warnings)) => {
            check!(got.end == "ok", "rejects-valid", "rejects well-formed text: {}", first_message());
            let want = p.canon();
            check!(want == got.canon, "program", "another program: {}", crate::core::diff(&want, &got.canon));
            check!(got.warnings == warnings, "warnings", "{} warnings instead of {warnings}", got.warnings);
            probe("damaged_accepted");
        }
        Err(e) => {
            check!(got.end != "ok", "accepts-invalid", "accepts text that should be rejected: {e}");
            probe("damaged_rejected");
        }
    }
}
