use super::capi::{self, *};
use super::g03::tweak;
use super::util::*;
use crate::core::{chance, draw, nontrivial, probe, range};
use crate::orch::Prop;
use crate::{canon, check, ev, lay, rawsim};
use koopa::ir::builder_traits::*;
use koopa::ir::{BinaryOp, Program, TypeKind};
use libkoopa_sim::{RawProgram, RawProgramBuilder};

pub static PROP: Prop = Prop {
    id: "L03",
    run,
    quick: 40000,
    thorough: 1_000_000,
    rule: "an execution counts when a raw program was read again after its source was changed or deleted or its builder was used again; executions are distinct when their complete event logs differ",
    real: REAL,
    stub: "the heap, which reuses and poisons freed memory; the C reader of raw programs, played by the scenario",
};

struct B {
    b: *mut RawProgramBuilder,
    raws: Vec<(RawProgram<'static>, String)>,
}

/// Adds or changes an instruction, or leaves one outside of the layout.
fn edit(p: &mut Program) {
    let defs: Vec<_> = p.func_layout().iter().copied().filter(|f| p.func(*f).layout().entry_bb().is_some()).collect();
    if defs.is_empty() {
        return tweak(p);
    }
    let f = defs[draw(defs.len() as u32) as usize];
    let d = p.func_mut(f);
    let bbs: Vec<_> = d.layout().bbs().keys().copied().collect();
    let bb = bbs[draw(bbs.len() as u32) as usize];
    let ints: Vec<_> = d.layout().bbs()[&bb].insts().keys().copied().filter(|v| matches!(d.dfg().value(*v).ty().kind(), TypeKind::Int32)).collect();
    let l = if ints.is_empty() || chance(1, 3) { d.dfg_mut().new_value().integer(draw(100) as i32) } else { ints[draw(ints.len() as u32) as usize] };
    let r = d.dfg_mut().new_value().integer(draw(9) as i32);
    match draw(4) {
        0 | 1 => {
            let v = d.dfg_mut().new_value().binary(BinaryOp::Add, l, r);
            match draw(3) {
                0 => probe("unreachable_block"),
                1 => d.layout_mut().bb_mut(bb).insts_mut().push_key_front(v).unwrap(),
                _ => d.layout_mut().bb_mut(bb).insts_mut().push_key_back(v).unwrap(),
            }
        }
        2 => {
            if let Some(v) = ints.iter().find(|v| matches!(d.dfg().value(**v).kind(), koopa::ir::ValueKind::Binary(_))) {
                d.dfg_mut().replace_value_with(*v).binary(BinaryOp::Sub, r, r);
            }
        }
        _ => {
            // a block with a detached jump to it
            let nb = d.dfg_mut().new_bb().basic_block(None);
            d.layout_mut().bbs_mut().push_key_back(nb).unwrap();
            let j = d.dfg_mut().new_value().jump(nb);
            if chance(1, 2) {
                d.layout_mut().bb_mut(nb).insts_mut().push_key_back(j).unwrap();
            }
        }
    }
}

fn read(r: &(RawProgram<'static>, String), when: &str) {
    let got = rawsim::canon(&r.0);
    check!(got == r.1, "content", "{when}, a raw program describes something else: {}", crate::core::diff(&r.1, &got));
}

/// Converts a raw program that a C program laid out in its own memory.
fn by_hand(progs: &mut Vec<Program>) {
    let m = any_program(Form::Koopa).0;
    let l = lay::lay(&m);
    let before = l.bytes();
    let want = m.canon();
    let mut made = vec![];
    for _ in 0..range(1, 2) {
        match convert(&l.raw) {
            Ok(p) => made.push(*unsafe { Box::from_raw(p) }),
            Err(c) => crate::fail!("convert", "converting a raw program made by hand fails with {c}"),
        }
    }
    check!(before == l.bytes(), "const", "converting a raw program changes it");
    // the program must not depend on the memory of the raw program
    l.free();
    for p in made {
        let got = canon::canon(&p);
        check!(got == want, "by-hand", "converting a raw program made by hand gives another program: {}", crate::core::diff(&want, &got));
        canon::check_audit(&p, "converting a raw program made by hand");
        let mut g = koopa::back::KoopaGenerator::new(Vec::new());
        g.generate_on(&p).unwrap();
        let (got, want) = (lossy(&g.writer()), m.print());
        check!(got == want, "by-hand-text", "a program converted from a raw program is printed as another one: {}", crate::core::diff(&want, &got));
        koopa::back::LlvmGenerator::new(Vec::new()).generate_on(&p).unwrap();
        if progs.len() < 4 {
            progs.push(p);
        }
    }
    probe("raw_by_hand");
    nontrivial();
    ev!("converted by hand {}", crate::core::hash_bytes(want.as_bytes()));
}

/// A long program, there and back again.
fn long() {
    let (m, t) = long_text();
    let p = must_parse(&m, &t);
    let b = new_builder();
    let r = (capi::build(b, &p), m.canon());
    drop(p);
    read(&r, "after the long program was deleted");
    nontrivial();
    ev!("built a long program");
    if chance(1, 2) {
        match convert(&r.0) {
            Ok(p) => {
                let p = unsafe { Box::from_raw(p) };
                delete_builder(b);
                let got = canon::canon(&p);
                check!(got == r.1, "round-trip", "converting a raw program gives another program: {}", crate::core::diff(&r.1, &got));
            }
            Err(c) => crate::fail!("convert", "converting a raw program fails with {c}"),
        }
    } else {
        delete_builder(b);
    }
}

fn run() {
    any_heap();
    if chance(1, 250) {
        return long();
    }
    let mut progs: Vec<Program> = vec![any_program(Form::Koopa).1];
    let mut bs: Vec<B> = vec![B { b: new_builder(), raws: vec![] }];
    for _ in 0..range(2, 9) {
        let k = draw(progs.len().max(1) as u32) as usize;
        let i = draw(bs.len() as u32) as usize;
        match draw(13) {
            0..=3 => {
                if progs.is_empty() {
                    continue;
                }
                let want = canon::canon(&progs[k]);
                let raw = capi::build(bs[i].b, &progs[k]);
                bs[i].raws.push((raw, want));
                read(bs[i].raws.last().unwrap(), "right after building");
                ev!("built {k} with {i}: {}", crate::core::hash_bytes(bs[i].raws.last().unwrap().1.as_bytes()));
                if chance(1, 12) {
                    // many programs from one builder, all of them alive
                    probe("many_builds");
                    for _ in 0..range(5, 40) {
                        let k = draw(progs.len() as u32) as usize;
                        let raw = capi::build(bs[i].b, &progs[k]);
                        bs[i].raws.push((raw, canon::canon(&progs[k])));
                    }
                }
                if bs[i].raws.len() > 1 {
                    probe("raw_second_build");
                    nontrivial();
                }
            }
            4 | 5 => if let Some(p) = progs.get_mut(k) {
                tweak(p);
                ev!("changed {k}");
            },
            6 | 7 => if let Some(p) = progs.get_mut(k) {
                edit(p);
                ev!("edited {k}");
            },
            8 => if k < progs.len() {
                drop(progs.remove(k));
                ev!("deleted {k}");
                probe("raw_read_after_delete");
            },
            9 => {
                let p = any_program(Form::Koopa).1;
                progs.push(p);
                ev!("new program");
            }
            10 => by_hand(&mut progs),
            11 => {
                if bs.len() < 3 {
                    bs.push(B { b: new_builder(), raws: vec![] });
                } else {
                    let b = bs.remove(i);
                    delete_builder(b.b);
                    ev!("deleted builder {i}");
                }
            }
            _ => {
                if let Some(r) = bs[i].raws.last() {
                    match convert(&r.0) {
                        Ok(p) => {
                            let p = unsafe { Box::from_raw(p) };
                            let got = canon::canon(&p);
                            check!(got == r.1, "round-trip", "converting a raw program gives another program: {}", crate::core::diff(&r.1, &got));
                            canon::check_audit(&p, "converting a raw program");
                            if progs.len() < 4 {
                                progs.push(*p);
                            }
                            ev!("converted");
                        }
                        Err(c) => crate::fail!("convert", "converting a raw program fails with {c}"),
                    }
                }
            }
        }
        for b in &bs {
            let many = b.raws.len() > 8;
            for (i, r) in b.raws.iter().enumerate() {
                if !many || i < 2 || chance(1, 8) {
                    read(r, "after a further step");
                    nontrivial();
                }
            }
        }
    }
    drop(progs);
    for b in bs {
        for r in &b.raws {
            read(r, "after all programs were deleted");
        }
        delete_builder(b.b);
    }
}
