#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the JSON stays well-formed).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("S01", "Parsing does not depend on how the input stream delivers its bytes",
  "Reading the same bytes, however long the text, through any reader, in pieces of any size and with any number of interrupted reads in between, gives the result of reading them from one in-memory buffer: the same acceptance or rejection, the same problems reported at the same places, and for accepted text the same program. That program is the one the text describes, down to every name, type, constant, instruction and block.",
  ["inputs", "fault_sequences"], "every input text (tiny to tens of kilobytes), every split of it into reads, every placement of interruptions",
  "The unit tests parse short strings from an in-memory cursor that never returns a short or interrupted read.",
  ["koopa/src/front/lexer.rs", "koopa/src/front/parser.rs", "koopa/src/front/builder.rs", "koopa/src/front/driver.rs"],
  [("character reader retries interrupted reads and treats a zero-byte read as the end", "Lexer::next_char"), ("tokens and comments assembled across reads", "Lexer::handle_*"), ("program built from the parsed items", "Builder::build_on")],
  ["Driver::generate_program result", "Span::error_num / warning_num", "the public structure of the returned Program"])
p("S02", "A failed read makes parsing fail fatally, never a shorter program",
  "If the reader returns an error other than an interruption at any point, parsing ends with a fatal error: it does not return a program made from the part that was read, does not panic, does not hang and does not ask the failed reader for more data. An interruption directly before the failure changes nothing.",
  ["inputs", "crash_points", "fault_sequences"], "every input text, every read at which the failure is delivered (inside tokens, comments, at block and item ends, at the very end), every error kind",
  "No test uses a reader that fails.",
  ["koopa/src/front/lexer.rs", "koopa/src/front/parser.rs", "koopa/src/front/driver.rs", "koopa/src/front/span.rs"],
  [("read errors become fatal errors", "Lexer::next_char"), ("error recovery stops on fatal errors", "Parser::parse_* / log_err_and_skip"), ("fatal result handed to the caller", "Driver::generate_program")],
  ["Error::is_fatal of the result", "reads observed by the simulated reader"])
p("S03", "Damaged text is rejected or read exactly, and never crashes or hangs",
  "For a text in which bytes were lost, truncated, flipped, duplicated or moved in transit, parsing terminates without a crash, accepts the text exactly when it still is a well-formed and well-typed program, and then returns exactly the program the damaged text describes. Rejected text always reports at least one error.",
  ["inputs", "fault_sequences"], "every valid program text and every sequence of storage or transport damage applied to it",
  "The tests parse a handful of intact programs and two hand-written bad ones.",
  ["koopa/src/front/lexer.rs", "koopa/src/front/parser.rs", "koopa/src/front/builder.rs", "koopa/src/ir/types.rs"],
  [("token and comment rules", "Lexer"), ("grammar and error recovery", "Parser"), ("symbol, type and control-flow checks", "Builder")],
  ["Driver::generate_program result", "Span::error_num", "the public structure of the returned Program"])
p("S04", "Diagnostics never fail and point at the offending source text",
  "Reporting problems in a source file never makes parsing panic or changes its outcome or its error and warning counts, whatever happens to the file between parsing and reporting (removed, shortened, rewritten, unreadable, any bytes) and however slowly the error stream takes the text. Every reported problem names the file and a line and column inside the text that was parsed, and while the file is intact the quoted source line is the line at that position with the marker beneath the reported column. The marked text ends where the token or construct concerned ends.",
  ["inputs", "fault_sequences"], "every erroneous source text, every fate of the file while it is parsed, every failing open or read of the file, every partial or interrupted write to the error stream",
  "No test parses an erroneous program from a file, so source quoting is never exercised.",
  ["koopa/src/front/span.rs", "koopa/src/front/driver.rs"],
  [("re-opens the file to quote lines", "Span::print_file_info"), ("counts and summary", "Span::log_*, log_global")],
  ["the bytes written to the error stream", "Driver::generate_program result", "Span::error_num / warning_num"])
p("S05", "Parsers that live on one thread at the same time do not affect each other",
  "When several parsers exist on a thread, created and run in any order, one inside another's reader, or abandoned by a panicking reader, each of them returns the result it would return alone. Right after a parser that is not nested in another one has finished, the error and warning counters describe it.",
  ["histories", "inputs"], "every interleaving and nesting of creating, running, dropping and unwinding parsers on one thread",
  "Every test runs one parser at a time.",
  ["koopa/src/front/span.rs", "koopa/src/front/driver.rs"],
  [("per-parser error state installed while a parser runs and restored for an enclosing one", "Span::with_state, Driver::new, Driver::generate_program")],
  ["results of every parser", "Span::error_num / warning_num"],
  [("STATE", "file, error and warning counts of the parser running on this thread", "koopa/src/front/span.rs")])
p("S06", "Without the front-end logger, parsing is the same and silent",
  "Built with the feature no-front-logger, the lexer, the parser and the driver give the same tokens, the same syntax trees, the same programs, the same end and the same numbers of errors and warnings as with the logger, for every input and however reads are split, interrupted or fail. They write nothing to standard error and never reopen the source. A returned error carries the message and the place that the logger would have printed, and no fatal error comes without a message.",
  ["programs", "configurations", "fault_sequences"], "every input text, every sequence of short, interrupted and failing reads, both builds",
  "The tests are built with one set of features and never see the other build.",
  ["koopa/src/front/span.rs", "koopa/src/front/driver.rs", "koopa/src/front/parser.rs", "koopa/src/front/lexer.rs"],
  [("errors and spans without a logger", "Span, Error, return_error!/log_error! under cfg(no-front-logger)")],
  ["Driver::generate_program, Parser::parse and Lexer::next_token of both builds in one process", "bytes on stderr and files opened"])
p("S07", "Tokens and syntax trees say exactly what stands where in the text",
  "For every text, and however its reads are split or interrupted, the lexer used directly gives exactly the tokens of the text, each with the place of its first and last byte; something that is no token is reported once, at its place, and lexing goes on at the next white space; after the end every further call gives the end again. The parser gives, up to the first problem, exactly the syntax trees of the text, where every node spans from its first to its last token. If a read fails, what came before is still right and then comes a fatal error, never the end. Several lexers and parsers used in turn do not affect each other.",
  ["inputs", "fault_sequences", "schedules"], "every input text, also damaged ones, every sequence of short, interrupted and failing reads, every interleaving of several lexers and parsers",
  "The tests compare two short texts without looking at places.",
  ["koopa/src/front/lexer.rs", "koopa/src/front/parser.rs", "koopa/src/front/ast.rs", "koopa/src/front/span.rs"],
  [("tokens and their spans", "Lexer::next_token"), ("trees and their spans", "Parser::parse_next, Span::update_span")],
  ["Lexer::next_token", "Parser::parse_next", "Debug form of Span", "places printed to stderr"])
p("S08", "Reports made through spans show their place and are counted",
  "A caller that walks positions over a text, makes and extends spans with them, and reports errors and warnings through them (or without a place) sees, in any order and number of reports, resets and source changes: positions and spans that print as the lines and columns walked over; every report on standard error with its message, the current file name, line and column; the source of the whole extent quoted from what the file holds at that moment, each shown line being that line, with markers at the first and last column and dots wherever lines are left out, and nothing quoted when there is no file, it cannot be opened, or the span touches column 0; counters and the summary that equal what was reported since the last reset; errors that are fatal exactly when they were reported as fatal; and two spans on one line recognised exactly when the second starts where the first ends. Without the logger, nothing is printed and the error carries file, place and message. Short and interrupted writes change nothing.",
  ["histories", "fault_sequences"], "every sequence of spans, reports, resets and file changes; every sequence of short, interrupted and failing calls below them",
  "One test updates two spans and logs twice without looking at the output.",
  ["koopa/src/front/span.rs"],
  [("positions and spans", "Pos::update, Span::update, into_updated, update_span, into_updated_span"), ("reports and counters", "Span::log_*, Span::reset, Span::STATE")],
  ["standard error", "Span::error_num, warning_num", "errors returned"])
p("S09", "A builder given syntax trees builds what the trees say, from any source",
  "Syntax trees handed to a builder one at a time, by a parser or made by hand with the constructors of the trees, in any order, with other builders and parsers working in turn on the same thread, and also after the reader of the parser failed, give exactly the program the trees say, with a warning for every unreachable block and no error, if they make a well-formed program; otherwise at least one error is reported and counted. Number and messages of the problems are those the driver has for the same items as text. Ends and errors among the trees are ignored in silence. Trees are equal exactly when they are built alike, wherever they stand.",
  ["programs", "histories"], "every sequence of trees, order of builders and parsers in turn, and failure of a reader",
  "No test uses the builder but through the driver, and none makes a tree by hand.",
  ["koopa/src/front/builder.rs", "koopa/src/front/ast.rs", "koopa/src/front/parser.rs"],
  [("items are built one by one", "Builder::build_on"), ("trees", "new_boxed of every node, PartialEq of Ast")],
  ["the built program", "Span::error_num, warning_num", "messages on standard error"])
p("G01", "Generated text does not depend on how the sink accepts it",
  "When text generation (Koopa IR or LLVM IR) into a sink reports success, the sink holds the complete text, each byte once and in order, no matter how many bytes it accepted per write and how many writes were interrupted. The Koopa IR text is the standard rendering of the program.",
  ["programs", "fault_sequences"], "every program, both generators, every sequence of partial and interrupted writes",
  "The tests write to a vector, which accepts everything at once.",
  ["koopa/src/back/koopa.rs", "koopa/src/back/llvm.rs", "koopa/src/back/generator.rs"],
  [("all output goes through calls that retry short and interrupted writes", "write!/writeln! in both visitors")],
  ["bytes received by the simulated sink", "result of Generator::generate_on"])
p("G02", "A failed write is reported and leaves an exact prefix of the text",
  "If the sink fails at any write or refuses to take any byte, text generation (Koopa IR or LLVM IR) returns an error instead of success or a panic, and what the sink accepted before is an exact prefix of the complete text.",
  ["programs", "crash_points", "fault_sequences"], "every program, both generators, every byte offset at which the sink fails, every error kind, failures mixed with partial writes",
  "No test uses a sink that can fail.",
  ["koopa/src/back/koopa.rs", "koopa/src/back/llvm.rs"],
  [("every write result is propagated", "? after each write in the visitors")],
  ["bytes received by the simulated sink", "result of Generator::generate_on"])
p("G03", "A generator stays usable after any success or failure",
  "One generator used for several generations, whether the earlier ones succeeded, failed part-way or unwound from a panicking sink, and whatever happened to the programs in between (changed, dropped, replaced by others at the same address), produces for each later program the text a fresh generator produces. Generating never changes the program.",
  ["histories", "fault_sequences", "programs"], "every sequence of generations, sink faults, program edits and program replacements on one generator",
  "Every test generates once per generator.",
  ["koopa/src/back/generator.rs", "koopa/src/back/koopa.rs", "koopa/src/back/llvm.rs"],
  [("names are reset for every generation", "Generator::generate_on"), ("per-generation visitor state", "Visitor::visit")],
  ["bytes received by the sink per generation", "public structure of the program before and after"],
  [("name manager", "names by address of program parts", "koopa/src/back/generator.rs")])
p("G04", "Output is the same for every memory layout and hash seed",
  "Generating text (Koopa IR or LLVM IR) for the same program, parsing the same text (with the problems reported for it) and building a raw program from it give the same result in every process: where objects lie in memory, which addresses are reused and how hash tables are seeded never shows in names, order or content. Only the order in which the users of a value are listed is unspecified.",
  ["configurations", "programs"], "every program and every address layout, allocator reuse policy and hash seed",
  "Each test runs once with whatever layout and seed the process got, mostly on programs too small to show a difference.",
  ["koopa/src/back/generator.rs", "koopa/src/back/llvm.rs", "koopa/src/back/koopa.rs", "koopa/src/ir/layout.rs", "libkoopa/src/raw/builder.rs"],
  [("iteration in layout order, never in hash or address order", "visitors, Layout lists")],
  ["generated bytes in several simulated processes"])
p("G05", "Generated LLVM text describes the whole program, even after faults and edits",
  "LLVM IR text that generation reports as complete describes the program it was generated from: reading it back gives the same global variables with the same initial values, the same functions and declarations with the same parameter and result types, the same blocks and instructions in the same order with the same operands, types and constants, and one phi entry per incoming edge for every block parameter. Names identify one thing each within their scope and no name spills into another; this holds whatever the sink did, and whatever edits or failed generations happened before.",
  ["programs", "histories", "fault_sequences"], "every program, every sequence of edits and failed generations before, every sequence of partial and interrupted writes",
  "The tests compare the LLVM text of four small programs built by hand, in one generation into a vector.",
  ["koopa/src/back/llvm.rs", "koopa/src/back/generator.rs"],
  [("translation of each value to one LLVM instruction", "llvm::VisitorImpl::visit_*"), ("block parameters become phi instructions", "llvm::VisitorImpl::visit_bb, Blocks"), ("names", "NameManager")],
  ["text received by the simulated sink, read back by an independent reader"])
p("G06", "Names handed out by the name manager identify one thing each",
  "While any visitor visits a program, in whatever order it asks the name manager, over any sequence of function scopes, with failing or panicking sinks and with generators used again, a thing keeps its name as long as it is in scope, and different things in scope have different names: globals, functions, local values and temporary names among each other, and the blocks of one function among each other. A name of its own that nothing else in scope holds is kept, with the prefix of its kind set on the manager. What the visitor returns or fails with is handed on unchanged.",
  ["histories", "fault_sequences"], "every visitor, every program, every order of requests, every set of prefixes, every failure and panic of sink or visitor between requests",
  "The tests only use the two built-in visitors, which ask in one fixed order.",
  ["koopa/src/back/generator.rs"],
  [("names by kind and scope", "NameManager"), ("one manager per generation", "Generator::generate_on")],
  ["names returned to a visitor of the simulator's own", "result of Generator::generate_on"])
p("D01", "A saved program reads back as the same program",
  "After saving a program of any length to a file as text has reported success, loading that file yields the same program, also when the file existed before with longer content and when the saved program was itself loaded before; saving what was loaded gives the same bytes again unless a function is named by digits only. If saving is cut short by a crash or a write error, no success is reported, the file holds an exact prefix of the complete text (or still its old content), and other saved files are untouched.",
  ["programs", "crash_points", "fault_sequences", "histories"], "every program that text can express, every sequence of saves and loads over a set of files, every crash point and every short, interrupted or failing file operation",
  "The tests compare a few generated strings in memory; no test writes a file, reloads it or is interrupted.",
  ["koopa/src/back/generator.rs", "koopa/src/back/koopa.rs", "koopa/src/front/driver.rs", "koopa/src/front/builder.rs"],
  [("file replaced on open", "Generator::from_path"), ("printer and parser agree on names, types, constants and layout", "back/koopa.rs and front/*")],
  ["file bytes after the crash", "public structure of the reloaded program"])
p("L01", "C functions report every failure and only update outputs on success",
  "Each C-interface function that parses, dumps or converts a raw program returns the documented code for what happened (bad path or name text, file cannot be opened, program rejected, read or write failed, buffer too short, null byte, malformed raw program) whatever system call failed underneath, and success only if the complete work was done. The program pointer, the length and the caller's buffer are written only on success, and nothing beyond the announced buffer length is ever touched.",
  ["inputs", "fault_sequences", "histories"], "every sequence of C calls over files, strings, descriptors, stdin and stdout, every failing, short or interrupted system call",
  "The C functions for parsing and dumping have no tests at all.",
  ["libkoopa/src/driver.rs", "libkoopa/src/back.rs", "libkoopa/src/errors.rs", "libkoopa/src/io.rs"],
  [("result unwrapping into codes", "unwrap_or_return"), ("buffer length check", "dump_to_string")],
  ["return codes", "out-parameters", "file contents"])
p("L02", "The C interface releases everything it acquires",
  "After a call through the C interface has returned, whatever failed in it, it holds no descriptor it opened, and a descriptor is never closed twice; a descriptor handed over to it is left in the same state whether the call succeeds or fails; once all programs and builders handed out were deleted, all memory obtained on their behalf is free again. Memory is never used after it was released.",
  ["histories", "fault_sequences"], "every sequence of create, use and delete calls and every failing system call inside them",
  "Tests do not count descriptors or memory and inject no failures.",
  ["libkoopa/src/driver.rs", "libkoopa/src/back.rs", "libkoopa/src/io.rs", "libkoopa/src/utils.rs", "libkoopa/src/raw/builder.rs", "libkoopa/src/raw/ffi.rs"],
  [("owned file handles", "File in Driver and Generator"), ("boxed objects", "new_pointer/drop_pointer"), ("builder owns all raw parts", "RawProgramBuilder")],
  ["open descriptors", "live heap bytes", "poisoned freed memory"])
p("L03", "Raw programs stay valid and faithful while their builder lives",
  "A raw program handed out by a builder stays intact until the builder is deleted, even after its source program was changed or deleted and after the builder built further programs, and it describes the source program, of whatever length, completely: functions, blocks and instructions in order, names, types, operands, parameters and the users of every value. Converting it back gives the same program. A raw program laid out by C code itself converts to the program it describes, whatever parts it shares, and stays untouched.",
  ["histories", "programs"], "every interleaving of building, mutating, deleting, reading and converting over several builders and programs",
  "Tests build one program once and look at a few fields while the source is already gone or still there.",
  ["libkoopa/src/raw/builder.rs", "libkoopa/src/raw/entities.rs", "libkoopa/src/raw/generator.rs", "libkoopa/src/raw/ffi.rs"],
  [("builder owns every raw part in stable boxes", "RawProgramBuilder"), ("conversion back", "raw/generator.rs")],
  ["deep reads of the raw structure", "public structure of converted programs"])
p("T01", "Handles created by different threads never collide",
  "Functions, basic blocks and values created at the same time by any number of threads, in any number of programs, all receive pairwise different handles within their kind, and a local value never gets a handle that counts as global or the other way round.",
  ["schedules"], "every interleaving, at machine-instruction granularity, of threads creating program parts",
  "All tests create programs on one thread each and never compare handles across programs.",
  ["koopa/src/ir/idman.rs", "koopa/src/ir/entities.rs", "koopa/src/ir/dfg.rs"],
  [("process-wide atomic id counters", "idman.rs")],
  ["the handles returned by the creating calls"])
p("T02", "Threads working on their own programs do not influence each other",
  "Threads that each parse, build, transform, print and delete programs of their own at the same time obtain exactly the results each of them obtains alone, including error and warning counts, and no thread can make another one fail.",
  ["schedules", "programs"], "every interleaving, at machine-instruction granularity, of complete pipelines on several threads, including threads that end while others run",
  "The test harness runs tests on several threads, but on an arbitrary schedule and without comparing with a solo run.",
  ["koopa/src/ir/types.rs", "koopa/src/ir/idman.rs", "koopa/src/front/span.rs", "koopa/src/front/driver.rs", "koopa/src/back/generator.rs"],
  [("type pool per thread", "Type::POOL"), ("error state per thread", "Span::STATE"), ("atomic counters", "idman.rs")],
  ["outcome and text of each thread compared with its solo run"])
p("T03", "The pointer size is one consistent setting for the whole process",
  "The configured pointer size behaves like a single shared variable: type sizes computed by any thread use, for one computation on a pointer-sized type, the most recently set value or one that was being set at that time, never an older or torn one, and a size set before a thread starts or after it ends is seen accordingly. All other sizes do not depend on it.",
  ["schedules", "histories"], "every interleaving of threads setting the pointer size and asking for sizes",
  "One test sets the size once on one thread.",
  ["koopa/src/ir/types.rs"],
  [("shared atomic pointer size", "Type::set_ptr_size, Type::size")],
  ["values returned by Type::size, recorded with invocation and response events"],
  [("PTR_SIZE", "process-wide pointer size", "koopa/src/ir/types.rs")])
p("O01", "A pass manager runs every pass in order, function passes once per function",
  "Running a pass manager executes its passes in registration order; a module pass runs once on the program and a function pass runs once on every function the program holds when the pass starts, declarations included, each seeing the effects of everything executed before. This also holds when passes change the program, and if a pass panics, exactly the work before the panic has been done, and both the manager and the program stay usable.",
  ["histories", "programs", "crash_points"], "every mix and order of passes, every edit they make, every point at which a pass panics, repeated runs",
  "The only test of passes is one documentation example with a single pass.",
  ["koopa/src/opt/passman.rs", "koopa/src/opt/pass.rs", "koopa/src/opt/mod.rs"],
  [("passes run from a list in order", "PassManager::run_passes"), ("function pass over all functions", "Pass dispatch")],
  ["recorded execution log", "structure of the program after the run"])
p("I01", "Uses and operands agree after any sequence of edits",
  "After any sequence of creating, updating, replacing and removing values, blocks and functions through the public interface, including edits that are rejected by a panic half-way through a pass, every value lists as its users exactly the values that refer to it, every block lists exactly the branches that target it, and nothing refers to something removed. A rejected edit leaves all other parts of the program unchanged.",
  ["histories", "crash_points"], "every sequence of edits, including those that must be rejected and panics inside update closures",
  "Tests check the result of one or two builder calls and no rejected edits.",
  ["koopa/src/ir/dfg.rs", "koopa/src/ir/entities.rs", "koopa/src/ir/builder.rs", "koopa/src/ir/values.rs"],
  [("use sets maintained by every edit", "DataFlowGraph::insert/remove/replace/update, Program::remove_func")],
  ["used_by sets compared with operands found by walking the program", "BasicBlockData::used_by"],
  [("used_by", "users of values and blocks", "koopa/src/ir/entities.rs")])
p("I02", "The layout's answer to 'which block holds this' always matches its lists",
  "After any sequence of inserting, moving, removing, popping and clearing instructions and blocks in a function's layout through keys, cursors and iterators, asking for the block of an instruction gives the block whose list contains it and nothing for an instruction in no list, and the lists themselves are in the order the edits prescribe. An edit on one block or function never changes another.",
  ["histories"], "every sequence of layout edits over several blocks and functions, with instructions moved between blocks",
  "Tests only append instructions to fresh blocks.",
  ["koopa/src/ir/layout.rs"],
  [("parent map maintained by the list wrappers", "Layout, BasicBlockMap, InstList")],
  ["Layout::parent_bb and the list contents compared with a reference model"],
  [("parent map", "block of every instruction", "koopa/src/ir/layout.rs")])
# --- not simulation targets -------------------------------------------------
p("I03", "Comparing values and types tells whether they are built alike now",
  "At any point of any history of edits, including edits that are rejected or unwound by a panic, two values compare equal exactly when they have the same type, the same kind with the same content (constant, operator, parameter index, callee, target blocks) and pairwise equal operands in the same order and number; their handles, names, users and places do not matter, and comparing data outside the program gives the same answer as comparing the values it was taken from. (Two allocations of one type, and equal-numbered parameters of two blocks, may count as equal.) Two types compare equal, and have equal kinds and hash values, exactly when they have the same structure, however and whenever each was made; every type prints, and is sized by the current pointer size, according to its structure.",
  ["histories", "programs"], "every sequence of edits, copies, rejected edits and comparisons on every program, every sequence of type constructions",
  "One test compares four pairs of constants and sums; two print and measure a few types.",
  ["koopa/src/ir/dfg.rs", "koopa/src/ir/types.rs"], [("structural comparison", "DataFlowGraph::value_eq, data_eq"), ("interned types", "Type::get, Type::POOL")],
  ["results of value_eq, data_eq, ==, hash, size and printing"])
p("I04", "Building is accepted exactly when documented, with the documented type",
  "At any point of any history of edits (removals, rejected edits, edits that unwind, replaced values, blocks with changed parameters, functions that were removed, put back or moved to another program), building or replacing a value through the builders succeeds exactly when the documentation of the builder says so for the operands, blocks and functions that exist then: operands that were removed or belong elsewhere, wrong types, wrong numbers of arguments and missing constants are refused, everything else is accepted. An accepted value has the documented type and exactly the given operands; blocks and functions have the given names, and parameters of the given types, names and order; names are accepted exactly when absent or prefixed (a prefix alone is left open). The type of a value never changes unless it is replaced.",
  ["histories", "programs"], "every sequence of accepted and rejected builds, replacements, removals and changes of parameters and callees over several programs",
  "The tests build well-typed values only, in fresh functions.",
  ["koopa/src/ir/builder.rs", "koopa/src/ir/entities.rs"], [("assertions and result types of the builders", "LocalInstBuilder, GlobalInstBuilder, ValueBuilder, BasicBlockBuilder"), ("what operands are known", "EntityInfoQuerier, DataFlowGraph::globals, func_tys")],
  ["acceptance of each build and the type of its result"])
p("E01", "Compilers built on the library emit programs that do what their source says",
  "For a compiler that builds its program through the public builders as the brainfuck example does, for every source, however large and however delivered, and every input: a correct source compiles, and the emitted Koopa IR and LLVM IR, read back, make exactly the calls of @putchar and @getchar, in order and with the values, that the source prescribes on 65536 cells of 32 bits, and return 0; the same holds after the emitted program was loaded and interpreted, or optimised by passes. A failing call ends the program at that step. A failing read or write is an I/O error, never a shorter program or a success. Nothing panics.",
  ["inputs", "fault_sequences"], "every source and input, every delivery and every place of a failing read, write or call",
  "No test compiles or runs a brainfuck program.",
  ["koopa/src/ir/builder.rs", "koopa/src/ir/dfg.rs", "koopa/src/ir/layout.rs", "koopa/src/back/koopa.rs", "koopa/src/back/llvm.rs"], [("building through the public builders", "LocalInstBuilder, GlobalInstBuilder, layout lists"), ("saving", "back::koopa::Visitor, back::llvm::Visitor, NameManager")],
  ["text received by the simulated sink, run by an independent evaluator and by an interpreter written as a visitor"])
p("E02", "Passes that edit through the library never change what a program does",
  "For every valid program, any sequence of correct passes (constant folding and dead code elimination as in the opt example, corrected) run by the pass manager ends without panicking and leaves a well-formed program, which saves as Koopa IR and LLVM IR that can be read back; run in the same surroundings (answers and failures of called functions) it makes the same calls with the same arguments in the same order, leaves the same memory behind and returns the same value. Only what follows a step without meaning (division by zero, wide shifts, undefined numbers, accesses outside an object) may differ.",
  ["programs", "histories", "fault_sequences"], "every program, sequence of passes, and sequence of answers and failures of called functions",
  "No test runs passes that edit.",
  ["koopa/src/ir/dfg.rs", "koopa/src/ir/layout.rs", "koopa/src/opt/passman.rs"], [("replacing and removing values and parameters", "DataFlowGraph::replace_value_with, remove_value, data_eq, used_by"), ("removing instructions while walking over them", "layout cursors, parent_bb"), ("running passes", "PassManager::run_passes")],
  ["calls made and value returned when the saved text is run by an independent evaluator"])
p("E03", "Visitors see what the program says, and their results reach the caller",
  "For every valid program and every surroundings, an interpreter written as a Visitor and run by a Generator (as the interpreter example, corrected) makes exactly the calls the program prescribes, with the same arguments and in the same order, and returns the value of @main, however long loops run; arithmetic wraps, block arguments are passed all at once, pointers to elements stay valid when their array is stored to, and memory handed out by libraries is read and written in place, at the offsets that the sizes of types give. A failing call, a missing function or one of too many arguments, libraries that cannot be loaded, a missing @main, a null pointer and an element outside its array are errors that generate_on returns, at that step. The generator can be used again after each of these. Only division by zero, wide shifts and undefined numbers are left open.",
  ["programs", "histories", "fault_sequences"], "every program, sequence of runs, and sequence of answers and failures of called functions",
  "No test runs a visitor other than the two that generate text.",
  ["koopa/src/back/generator.rs", "koopa/src/ir/entities.rs", "koopa/src/ir/layout.rs", "koopa/src/ir/types.rs"], [("visitors with results", "Generator::with_visitor, generate_on"), ("what visitors read", "Program, FunctionData, ValueData, layouts"), ("offsets in memory", "Type::size")],
  ["calls made and result returned, compared with an independent evaluator of the model"])
p("V01", "Generated LLVM IR means the same as the Koopa IR program",
  "For every valid program, the LLVM IR produced is accepted by LLVM and behaves like the Koopa IR program it was produced from.",
  ["programs"], "every valid program", "The tests compare the text for four programs.",
  ["koopa/src/back/llvm.rs"], [("translation of each instruction", "llvm::Visitor")], ["generated text"])
p("V04", "The raw structures have the layout the C header declares",
  "Each raw structure has the size, field offsets and tag values that the published C header declares for it.",
  ["configurations"], "every structure and every supported platform", "No test compiles the header.",
  ["libkoopa/src/raw/entities.rs"], [("repr(C) declarations", "raw/entities.rs")], ["memory layout"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
