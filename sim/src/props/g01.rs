use super::util::*;
use crate::core::{chance, draw, nontrivial, pick, sh, F};
use crate::orch::Prop;
use crate::os::{os, Plan, CALM};
use crate::simio::SimWriter;
use crate::{canon, check, ev, sys};
use std::io::{BufWriter, LineWriter, Write};

pub static PROP: Prop = Prop {
    id: "G01",
    run,
    quick: 60000,
    thorough: 1_500_000,
    rule: "an execution counts when a sink accepted a write only partly or interrupted one; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "writers passed to the generators, open(2) and write(2) on files",
};

fn fired() -> u32 {
    let f = &sh().faults;
    [F::ShortWrite, F::IntrWrite, F::SysShortWrite, F::SysIntrWrite].iter().map(|k| f[*k as usize]).sum()
}

fn run() {
    any_heap();
    let form = any_form();
    let long = chance(1, 500);
    let (m, p) = if long {
        let (m, t) = long_text();
        let p = must_parse(&m, &t);
        (m, p)
    } else {
        any_program(form)
    };
    let before = canon::canon(&p);
    check!(before == m.canon(), "program", "the program differs from its model: {}", crate::core::diff(&m.canon(), &before));
    let full = form.text(&p);
    ev!("{form:?} {}", crate::core::show(&full));
    if form == Form::Koopa {
        let want = m.print();
        check!(full == want.as_bytes(), "rendering", "not the standard rendering: {}", crate::core::diff(&want, &lossy(&full)));
    } else {
        shape(&m, &full);
    }
    if long {
        nontrivial();
        return;
    }
    for _ in 0..1 + draw(3) {
        let f0 = fired();
        let kind = draw(6);
        let got = match kind {
            4 | 5 => {
                unlink(&["out.txt"]);
                if chance(1, 2) {
                    sys::fs_write("out.txt", &vec![b'#'; full.len() + 1 + draw(100) as usize]);
                }
                os().plan = Plan { short_w: pick(&[1, 2, 10]), intr_w: pick(&[0, 2, 10]), ..CALM };
                let r = form.to_path("out.txt", &p);
                os().plan = CALM;
                if let Err(e) = r {
                    crate::fail!("error", "generation fails although no write failed: {e}");
                }
                sys::fs_read("out.txt").unwrap_or_default()
            }
            _ => {
                let (w, log) = SimWriter::new(wplan());
                let r = match kind {
                    0 | 1 => form.onto(w, &p),
                    2 => {
                        let mut b = BufWriter::with_capacity(pick(&[1, 5, 64, 8192]), w);
                        form.onto(&mut b, &p).and_then(|_| b.flush())
                    }
                    _ => {
                        let mut b = LineWriter::with_capacity(pick(&[1, 16, 1024]), w);
                        form.onto(&mut b as &mut dyn Write, &p).and_then(|_| b.flush())
                    }
                };
                if let Err(e) = r {
                    crate::fail!("error", "generation fails although no write failed: {e}");
                }
                let l = log.borrow();
                l.got.clone()
            }
        };
        if fired() > f0 {
            nontrivial();
        }
        ev!("sink {kind} got {} bytes", got.len());
        check!(got == full, "incomplete", "the sink (kind {kind}) holds another text: {}", crate::core::diff(&lossy(&full), &lossy(&got)));
    }
    let after = canon::canon(&p);
    check!(before == after, "changed", "generating changed the program: {}", crate::core::diff(&before, &after));
}

/// What every complete LLVM text of the program contains.
fn shape(m: &crate::model::Prog, text: &[u8]) {
    let t = lossy(text);
    let count = |what: &str| t.lines().filter(|l| l.trim_start().starts_with(what)).count();
    let defs = m.funcs.iter().filter(|f| !f.is_decl()).count();
    let decls = m.funcs.len() - defs;
    check!(count("define ") == defs, "shape", "{} definitions instead of {defs} in\n{t}", count("define "));
    check!(count("declare ") == decls, "shape", "{} declarations instead of {decls}", count("declare "));
    check!(t.lines().filter(|l| *l == "}").count() == defs, "shape", "unfinished functions");
    check!(t.lines().filter(|l| l.contains(" = global ")).count() == m.globals.len(), "shape", "wrong number of globals");
    check!(count("ret ") == m.funcs.iter().flat_map(|f| &f.blocks).flat_map(|b| &b.insts).filter(|i| matches!(i.kind, crate::model::Kind::Ret(_))).count(), "shape", "wrong number of returns");
}
