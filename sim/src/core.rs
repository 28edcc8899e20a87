//! The heart of the simulator: one source of choices, the event log, fault
//! counters and the record of a violation, all in memory shared with the
//! process that started the run.
use crate::sys;
use std::fmt::{self, Write};

pub const CAP: usize = 1 << 20;
pub const TEXT: usize = 1 << 18;
pub const NCOUNT: usize = 128;

pub const RUNNING: u32 = 0;
pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const HARNESS: u32 = 3;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub nontrivial: u32,
    pub replay: u32,
    pub verbose: u32,
    pub in_scenario: u32,
    pub known: u32,
    pub pos: u32,
    pub nchoices: u32,
    pub replay_len: u32,
    pub rng: u64,
    pub hash: u64,
    pub events: u64,
    pub steps: u64,
    pub faults: [u32; NCOUNT],
    pub probes: [u32; NCOUNT],
    pub class: Buf<160>,
    pub detail: Buf<6000>,
    pub panic: Buf<600>,
    pub text: Buf<TEXT>,
    pub choices: [u32; CAP],
}

#[repr(C)]
pub struct Buf<const N: usize> {
    pub len: u32,
    pub data: [u8; N],
}
impl<const N: usize> Buf<N> {
    pub fn get(&self) -> String {
        String::from_utf8_lossy(&self.data[..self.len as usize]).into_owned()
    }
}
impl<const N: usize> Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let at = self.len as usize;
        let n = s.len().min(N - at);
        self.data[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
        self.len += n as u32;
        Ok(())
    }
}

#[unsafe(link_section = "ksimdata")]
static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}
pub fn set_shared(p: *mut Shared) {
    unsafe { SH = p }
}
pub fn new_shared() -> *mut Shared {
    sys::map_shared(std::mem::size_of::<Shared>()) as *mut Shared
}

impl Shared {
    /// Resets everything that belongs to one run; keeps `choices` for replays.
    pub fn reset(&mut self) {
        self.status = RUNNING;
        self.nontrivial = 0;
        self.replay = 0;
        self.verbose = 0;
        self.in_scenario = 0;
        self.known = 0;
        self.pos = 0;
        self.nchoices = 0;
        self.replay_len = 0;
        self.rng = 0;
        self.hash = 0xcbf29ce484222325;
        self.events = 0;
        self.steps = 0;
        self.faults = [0; NCOUNT];
        self.probes = [0; NCOUNT];
        self.class.len = 0;
        self.detail.len = 0;
        self.panic.len = 0;
        self.text.len = 0;
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// The only source of nondeterminism: returns a number in `0..n`. Zero always
/// stands for the simplest alternative.
pub fn draw(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let _q = crate::sched::quiet();
    let s = sh();
    let v = if s.replay != 0 {
        if s.pos < s.replay_len { s.choices[s.pos as usize].min(n - 1) } else { 0 }
    } else {
        if s.pos as usize >= CAP {
            harness_error("too many choices in one run");
        }
        s.rng = s.rng.wrapping_add(0x9E3779B97F4A7C15);
        let v = ((mix(s.rng) >> 32) * n as u64 >> 32) as u32;
        s.choices[s.pos as usize] = v;
        v
    };
    s.pos += 1;
    v
}
/// True with probability `num / den`; the simplest alternative is false.
pub fn chance(num: u32, den: u32) -> bool {
    draw(den) >= den - num
}
pub fn range(lo: u32, hi: u32) -> u32 {
    lo + draw(hi - lo + 1)
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[draw(xs.len() as u32) as usize]
}

struct Hasher<'a>(&'a mut u64);
impl Write for Hasher<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            *self.0 = (*self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
/// Adds an event to the log of the run.
pub fn event(args: fmt::Arguments) {
    let _q = crate::sched::quiet();
    let s = sh();
    s.events += 1;
    let _ = Hasher(&mut s.hash).write_fmt(args);
    s.hash = (s.hash ^ 10).wrapping_mul(0x100000001b3);
    if s.verbose != 0 {
        let _ = s.text.write_fmt(args);
        let _ = s.text.write_str("\n");
    }
}
#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::core::event(format_args!($($t)*)) };
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Copy, PartialEq)]
#[repr(usize)]
pub enum F {
    ShortRead, IntrRead, HardRead, EofAgain, Truncate, Flip, Drop, Dup, Move, Insert,
    ShortWrite, IntrWrite, HardWrite, ZeroWrite, FlushFail, PanicSink, PanicReader,
    OpenFail, SysShortRead, SysIntrRead, SysReadErr, SysShortWrite, SysIntrWrite, SysWriteErr,
    Crash, CloseErr, FileRemoved, FileRewritten, FileTruncated, StderrShort, StderrIntr,
    Preempt, Burst, ThreadExit, HashSeed, HeapPolicy, PanicPass, PanicEdit, RejectedEdit,
    Nested, Abandoned, SmallBuffer, BadPath, NulByte, Splice, FutexWait, ReadAfterEof, CallFail, Last,
}
pub const FAULT_NAMES: [&str; F::Last as usize] = [
    "short_read", "interrupted_read", "failed_read", "repeated_eof", "truncated_input", "flipped_byte",
    "dropped_bytes", "duplicated_bytes", "moved_bytes", "inserted_bytes", "short_write", "interrupted_write",
    "failed_write", "zero_write", "failed_flush", "panicking_sink", "panicking_reader", "failed_open",
    "os_short_read", "os_interrupted_read", "os_failed_read", "os_short_write", "os_interrupted_write",
    "os_failed_write", "process_crash", "failed_close", "file_removed", "file_rewritten", "file_truncated",
    "stderr_short_write", "stderr_interrupted_write", "preemption", "single_step_burst", "thread_exit_overlap",
    "hash_seed", "heap_policy", "panicking_pass", "panicking_edit", "rejected_edit", "nested_parser",
    "abandoned_parser", "small_buffer", "bad_path", "nul_byte", "spliced_texts", "futex_wait", "read_after_eof", "failed_call",
];
pub fn fault(f: F) {
    sh().faults[f as usize] += 1;
}

/// Names of rare conditions; the index is the slot in `probes`.
pub const PROBES: &[&str] = &["run_loops", "run_foreign_memory", "run_many_arguments", "run_libraries", "many_loops", "run_long", "long_chain", "many_comments", "trees_differ", "trees_ignored", "trees_built", "trees_rejected", "trees_before_failure", "trees_reordered", "trees_twice", "run_ends", "run_outside_fails", "run_endless", "run_wild", "run_heard", "wide_lists", "long_path", "long_operands", "huge_array", "crowd", "many_passes", "many_reports", "many_params", "many_builds", "alike_values", "quoted_span_checked", "func_to_other_program", "tokens_compared", "trees_compared", "bad_token_compared", 
    "parse_accepted", "parse_rejected", "fatal_result", "warnings", "input_over_8k", "input_over_64k",
    "damaged_accepted", "damaged_rejected", "oracle_skipped", "diag_single_line", "diag_multi_line", "diag_no_quote",
    "name_collision", "temp_skips_used", "forward_call", "interruption_storm", "spoiled_meaning", "far_down", "block_chain", "hub_block", "shared_raw_constant", "raw_by_hand", "multi_phi", "reused_address", "crash_mid_write", "overwrote_longer_file",
    "save_failed", "load_failed", "rejected_edit", "panicked_edit", "remove_func_with_uses", "moved_inst",
    "raw_read_after_delete", "raw_second_build", "cross_thread_window", "deadlock_probe", "pass_changed_funcs", "long_token",
    "deep_nesting", "too_many_errors", "ptr_size_race", "same_target_branch", "unreachable_block", "many_reports", "loop_edge",
    "use_after_panic", "reload_chain", "same_bytes", "eof_error", "quoted_line_checked", "extent_checked", "aggregate_argument", "moved_block",
];
pub fn probe(name: &str) {
    match PROBES.iter().position(|p| *p == name) {
        Some(i) => sh().probes[i] += 1,
        None => harness_error(&format!("unknown probe {name}")),
    }
}
pub fn nontrivial() {
    sh().nontrivial = 1;
}

/// Reports a violation and ends the run.
pub fn violation(class: &str, detail: fmt::Arguments) -> ! {
    std::mem::forget(crate::sched::quiet());
    let s = sh();
    if s.status == RUNNING {
        s.status = VIOLATION;
        let _ = s.class.write_str(class);
        let _ = s.detail.write_fmt(detail);
        if s.verbose != 0 {
            let _ = s.text.write_fmt(format_args!("VIOLATED {class}: {detail}\n"));
        }
    }
    s.nchoices = s.pos;
    sys::exit_now(0)
}
/// The classes of the findings recorded for the property under check.
#[unsafe(link_section = "ksimdata")]
static mut KNOWN: Vec<String> = Vec::new();
pub fn set_known(v: Vec<String>) {
    unsafe { *std::ptr::addr_of_mut!(KNOWN) = v }
}
/// Reports a violation unless it is recorded; returns if it is.
pub fn known(class: &str, detail: &str) {
    let listed = unsafe { (*std::ptr::addr_of!(KNOWN)).iter().any(|c| c == class) };
    if !listed {
        violation(class, format_args!("{detail}"));
    }
    event(format_args!("known finding {class}: {detail}"));
    sh().known += 1;
}
#[macro_export]
macro_rules! fail {
    ($class:expr, $($t:tt)*) => { $crate::core::violation($class, format_args!($($t)*)) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($t:tt)*) => { if !$cond { $crate::fail!($class, $($t)*) } };
}
pub fn harness_error(msg: &str) -> ! {
    unsafe {
        if SH.is_null() {
            sys::raw_err(msg);
            sys::raw_err("\n");
            sys::exit_now(2);
        }
    }
    let s = sh();
    s.status = HARNESS;
    let _ = s.detail.write_str(msg);
    sys::exit_now(0)
}
/// Shows two texts where they first differ.
pub fn diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<_>, Vec<_>) = (a.lines().collect(), b.lines().collect());
    for i in 0..x.len().max(y.len()) {
        let (l, r) = (x.get(i).unwrap_or(&"<end>"), y.get(i).unwrap_or(&"<end>"));
        if l != r {
            return format!("line {}: expected `{}`, got `{}`", i + 1, cut(l), cut(r));
        }
    }
    if a != b { format!("texts differ in line ends only (lengths {} and {})", a.len(), b.len()) } else { "equal".into() }
}
pub fn cut(s: &str) -> String {
    if s.len() > 300 {
        let mut n = 300;
        while !s.is_char_boundary(n) { n -= 1 }
        format!("{}...", &s[..n])
    } else {
        s.into()
    }
}
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.iter().take(1500) {
        s.extend(std::ascii::escape_default(*c).map(|x| x as char));
    }
    if b.len() > 1500 {
        s += "...";
    }
    s
}
