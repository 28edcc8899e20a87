#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "Seeded sampling over forked runs, every one repeatable from its seed; a clean batch is evidence, not proof. Trusts the harness, its reference model and the standard library. "
NOTES = {
 "S01": ("simulated readers and read(2): short and interrupted reads over generated programs; oracle: the model the text was written from, and the parse of one buffer", "Every run splits one text into reads at random and interrupts reads at random. Inputs up to about 100 kB."),
 "S02": ("simulated readers and read(2) failing at every position; oracle: fatal result and no further reads", "Failure positions are drawn over the whole input, with extra weight on ends and token borders."),
 "S03": ("seeded storage and transport damage of program texts; oracle: an independent reference parser and type checker", "Acceptance is compared with a second implementation of grammar and typing written for this check; nesting is limited to what fits the stack."),
 "S04": ("simulated file system that changes the source file while it is parsed and reported, and a simulated stderr; oracle: positions and quoted lines recomputed from the parsed bytes", "Hard write failures of stderr are not injected (the standard library's eprintln! panics on them by design)."),
 "S05": ("seeded interleaving, nesting and abandoning of several parsers on one thread; oracle: each parser's solo result", "Parsers are interleaved at reads, which is where control leaves the library."),
 "S06": ("simulated readers and read(2) with short, interrupted and failing reads, the same for two builds of the front end in one process; oracle: the other build, and an empty stderr", "Both builds come from /repo's sources; a fault common to both is the business of S01 to S04."),
 "S07": ("simulated readers and read(2) with short, interrupted and failing reads under several interleaved lexers and parsers; oracle: a reference lexer and tree builder with places, written from the grammar", "Trees are compared up to the first problem; how parsing recovers after it is not judged."),
 "S08": ("seeded histories of spans and reports over a source file that changes, cannot be opened or read, with short and interrupted writes of the reports, in two builds of the front end; oracle: lines and columns recomputed from the bytes, a reader of the quoted source, and counters", "Spans run forwards. Which middle lines of a long extent are shown is not judged, only that dots stand for those left out. Quotes are not judged in reports with open or read errors."),
 "S09": ("seeded feeding of several builders in turn with trees from parsers over simulated readers (short, interrupted, failing) and with copies made by hand, reordered, repeated, left out; oracle: a second implementation of the grammar and symbol rules applied to the text of the trees fed, and the driver on that text", "The number of problems is compared with the driver's up to its limit of twenty. Trees no parser makes (a block without an end, a type in the place of a value) are not handed over."),
 "G01": ("simulated sinks and write(2) with short and interrupted writes; oracle: standard rendering of the model and a fault-free run", "The LLVM text is compared with a fault-free run here; its content is checked under G05."),
 "G02": ("simulated sinks and write(2) failing at every byte; oracle: error result and exact prefix", "Failure positions are drawn over the whole text, with extra weight on line ends."),
 "G03": ("seeded histories of generations, failing and panicking sinks, and program replacement at reused addresses; oracle: a fresh generator", "Address reuse is forced by the simulated heap."),
 "G04": ("several simulated processes with different hash seeds, heap layouts and reuse policies; oracle: equality of their output", "getrandom(2) and the heap are under the simulator's control."),
 "G05": ("simulated sinks and write(2) with short and interrupted writes after seeded edits and failed generations; oracle: an independent reader of the LLVM text compared with the model", "The reader knows the instruction forms koopa documents; it is not LLVM. Names over 500 bytes only have to be unique."),
 "G06": ("seeded request orders, failing and panicking sinks and generator reuse; oracle: a book of the names in scope", "The exact form of invented names is not judged, only that they are unique, stable and prefixed."),
 "D01": ("crash and fault injection into file saves on a simulated disk, with reloads; oracle: reference rendering and reference model", "Crash points lie at every system call and inside writes; the disk keeps bytes in write order (the code never calls fsync)."),
 "L01": ("failing, short and interrupted system calls below the C functions; oracle: documented code per outcome, guard bytes around buffers", "The C functions are called in-process through their exported symbols' Rust definitions."),
 "L02": ("system call faults below the C functions with a simulated heap and descriptor table; oracle: leak and double-close accounting, poisoned frees", "Leaks are judged after a warm-up of the same calls, so one-time caches do not count."),
 "L03": ("seeded histories of building, changing, deleting and converting over several builders; oracle: deep reads of the raw structure against the model, poisoned frees", "Raw structures are read, and hand-made ones written, through an independent description of the documented C layout."),
 "T01": ("real threads under a deterministic single-step scheduler that preempts between machine instructions; oracle: uniqueness of all handles", "Sequentially consistent interleavings only; no weak-memory effects."),
 "T02": ("whole pipelines on real threads under the deterministic single-step scheduler; oracle: each thread's solo result", "Sequentially consistent interleavings only; 2 to 4 threads."),
 "T03": ("real threads under the deterministic single-step scheduler; oracle: the recorded history against a register model", "Sequentially consistent interleavings only."),
 "O01": ("seeded pass lists, edits and panics at every call; oracle: the same work done by hand on an equal program", "Function passes may visit functions in any order."),
 "I01": ("seeded edit histories with rejected and unwinding edits; oracle: users recomputed from operands, and snapshots of everything else", "Values that use themselves, and data built by hand with operands that do not exist, are outside the claim."),
 "I02": ("seeded histories of layout edits, also inside passes; oracle: a list-of-lists reference model", "An instruction is in one list at a time, except for a moment while it is moved. One recorded finding: popping from a list."),
 "I03": ("seeded histories of edits, rejected and unwinding edits, copies and type constructions; oracle: a recursive comparison of a three-valued reference, and a structural model of types", "Pairs whose operands unfold to more than 600 values are skipped; operands form no loops."),
 "I04": ("seeded histories of accepted, rejected and unwinding builds, removals and moved functions; oracle: the documented rules over a book of what exists and the types it was built with", "Types are compared by structure. Undocumented cases (a prefix as a whole name, bad names of parameters) are left open."),
 "E01": ("seeded sources through simulated readers and sinks with short, interrupted and failing calls, run in a simulated world whose calls may fail; oracle: a direct evaluation of the source against an independent evaluation of the emitted texts", "The compiler is a corrected copy of the brainfuck example; its command line is not run."),
 "E02": ("seeded programs, pass sequences and simulated surroundings with failing calls, over streams that deliver and accept in pieces; oracle: an independent evaluator run on the program before and after", "Programs whose run does not end within the step limit are compared up to it. The passes are corrected copies of those of the opt example; koopa itself ships none."),
 "E03": ("seeded programs and simulated surroundings with failing calls and libraries, several runs per generator; oracle: an independent evaluator of the model", "The interpreter is a corrected copy of the example; the crate libloading is replaced, so that functions with C signatures in the simulator are found. Programs that do not end are not interpreted."),
}
checks = [dict(property=k, quick_cmd=f"./check.sh {k}", thorough_cmd=f"./check.sh {k} --thorough",
               evidence_file=f"evidence/{k}.json", technique="deterministic simulation with fault injection: " + t,
               level="exploration", level_note=COMMON + n) for k, (t, n) in NOTES.items()]
NA = {
 "V01": "Acceptance and execution of the text by LLVM is a pure function of the text, which no schedule or fault can change, and no installed LLVM accepts its typed pointers. That the text is complete, stable, independent of memory layout and describes the same program is claimed under G01 to G05; that it does the same when run by an independent evaluator is part of E01 and E02.",
 "V04": "The memory layout of the C structures is fixed at compile time; there is nothing to execute under a simulator.",
}
m = dict(version=1, setup_cmd="./check.sh build", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: the simulator takes over readers, writers, system calls, the heap, hash seeds and thread scheduling from outside. Replay a violation with sim/target/release/ksim replay FILE. Repaired defects and the recorded finding are in known-findings.txt.")
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
ids = {json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))}
assert ids == set(NOTES) | set(NA), ids ^ (set(NOTES) | set(NA))
