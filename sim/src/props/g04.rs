use super::util::*;
use crate::core::{chance, draw, nontrivial, probe, range, fault, F};
use crate::generate::{any_cfg, any_style, emit, Gen};
use crate::orch::Prop;
use crate::{alloc, os, canon, check, ev, rawsim, sched};
use libkoopa_sim::RawProgramBuilder;

pub static PROP: Prop = Prop {
    id: "G04",
    run,
    quick: 16000,
    thorough: 1_000_000,
    rule: "an execution counts when one program was handled under at least two memory layouts and hash seeds; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the heap (placement and reuse of objects) and getrandom(2) (hash seeds)",
};

struct Result4 {
    koopa: String,
    llvm: String,
    parsed: String,
    raw: String,
    bad: Shape,
    told: Option<Vec<String>>,
}

fn run() {
    let mut c = any_cfg();
    let plain = !chance(1, 4);
    c.plain = plain;
    if chance(1, 3) {
        // many predecessors per block
        c.blocks = 9;
        c.bparams = 4;
    }
    let m = Gen::prog(c);
    multi_phi(&m);
    let text = emit(&m, &any_style());
    let bad = if chance(1, 2) { damage(&text.bytes) } else { vec![] };
    let want_koopa = m.print();
    let from_text = chance(1, 2);
    let n = range(2, 4);
    let mut first: Option<Result4> = None;
    for k in 0..n {
        let policy = if k == 0 { 0 } else { 1 + draw(255) };
        alloc::set_policy(policy);
        fault(F::HeapPolicy);
        let holes = draw(60);
        let (m, text, bad) = (m.clone(), text.bytes.clone(), bad.clone());
        let r = sched::fresh_thread(move || {
            // litter the heap so that blocks are reused in another order
            let mut junk: Vec<Vec<u8>> = (0..holes).map(|i| vec![0u8; (i as usize * 37) % 300 + 1]).collect();
            for i in (0..junk.len()).rev() {
                if i % 3 == 0 {
                    junk.swap_remove(i);
                }
            }
            os::stderr_clear();
            let (shape, parsed) = parse_buf(&text);
            let bad = parse_buf(&bad).0;
            let told = reports();
            let p = match (from_text, parsed) {
                (true, Some(p)) => p,
                _ => canon::build(&m),
            };
            let koopa = lossy(&Form::Koopa.text(&p));
            let llvm = if plain { lossy(&Form::Llvm.text(&p)) } else { String::new() };
            let mut b = RawProgramBuilder::new();
            let raw = rawsim::canon(&b.build_on(&p));
            drop(p);
            Result4 { koopa, llvm, parsed: shape.canon, raw, bad, told }
        });
        ev!("process {k}: heap {policy} holes {holes} koopa {:x} llvm {:x} raw {:x}", crate::core::hash_bytes(r.koopa.as_bytes()), crate::core::hash_bytes(r.llvm.as_bytes()), crate::core::hash_bytes(r.raw.as_bytes()));
        check!(r.parsed == m2(&r, &first), "parse", "parsing gives another program in process {k}");
        if r.told.as_ref().is_some_and(|t| t.len() > 4) {
            probe("many_reports");
        }
        match &first {
            None => {
                check!(r.koopa == want_koopa, "rendering", "not the standard rendering: {}", crate::core::diff(&want_koopa, &r.koopa));
                first = Some(r)
            }
            Some(f) => {
                nontrivial();
                same("damaged", "parsing damaged text in another process", &f.bad, &r.bad);
                same_reports("parsing in another process", &f.told, &r.told);
                check!(f.koopa == r.koopa, "koopa", "Koopa IR text differs between processes: {}", crate::core::diff(&f.koopa, &r.koopa));
                check!(f.llvm == r.llvm, "llvm", "LLVM IR text differs between processes: {}", crate::core::diff(&f.llvm, &r.llvm));
                check!(f.raw == r.raw, "raw", "raw programs differ between processes: {}", crate::core::diff(&f.raw, &r.raw));
            }
        }
    }
}
fn m2(r: &Result4, first: &Option<Result4>) -> String {
    first.as_ref().unwrap_or(r).parsed.clone()
}
fn multi_phi(m: &crate::model::Prog) {
    use crate::model::Kind;
    for f in &m.funcs {
        for (b, blk) in f.blocks.iter().enumerate() {
            let preds = f.blocks.iter().filter(|x| x.insts.iter().any(|i| match &i.kind {
                Kind::Jump(t, _) => *t == b,
                Kind::Br(_, t, _, e, _) => *t == b || *e == b,
                _ => false,
            })).count();
            if preds > 1 && !blk.params.is_empty() {
                probe("multi_phi");
            }
        }
    }
}
