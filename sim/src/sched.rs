//! The simulated scheduler. Caller threads are real threads of which exactly
//! one is released at a time. Control moves at heap calls, at simulated I/O,
//! at futex waits, and, by single-stepping the processor for a drawn number
//! of instructions, between any two instructions of the code under test.
use crate::core::{draw, fault, sh, F};
use crate::{core, ev, sys};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicUsize, Ordering::*};

pub const Y_ALLOC: u32 = 1;
pub const Y_FREE: u32 = 2;
pub const Y_IO: u32 = 3;

const NONE: usize = usize::MAX;
const MAXT: usize = 16;
/// Longest burst that waits for an access to a static.
const BURST_MAX: i64 = 300;

#[unsafe(link_section = "ksimdata")]
static THREADED: AtomicBool = AtomicBool::new(false);
#[unsafe(link_section = "ksimdata")]
static CUR: AtomicUsize = AtomicUsize::new(NONE);
#[unsafe(link_section = "ksimdata")]
static QUIET: AtomicUsize = AtomicUsize::new(0);
#[unsafe(link_section = "ksimdata")]
static COORD: AtomicU32 = AtomicU32::new(0);
#[unsafe(link_section = "ksimdata")]
static TURN: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
/// Yield points left until the next decision; negative: no more decisions.
#[unsafe(link_section = "ksimdata")]
static LEFT: AtomicI64 = AtomicI64::new(-1);
/// Instructions left in the current single-step burst; 0 = none.
#[unsafe(link_section = "ksimdata")]
static BURST: AtomicI64 = AtomicI64::new(0);
#[unsafe(link_section = "ksimdata")]
static GAP: AtomicU32 = AtomicU32::new(40);
#[unsafe(link_section = "ksimdata")]
static BLEN: AtomicU32 = AtomicU32::new(400);
#[unsafe(link_section = "ksimdata")]
static STEPS: AtomicI64 = AtomicI64::new(0);
/// What ends the burst: a number of instructions, or of accesses to
/// statics, which is all that threads share without locking.
#[unsafe(link_section = "ksimdata")]
static ACCESSES: AtomicI64 = AtomicI64::new(0);

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked(usize),
    Exiting,
    Dead,
}
#[unsafe(link_section = "ksimdata")]
static mut STATE: [St; MAXT] = [St::Dead; MAXT];
fn state(i: usize) -> &'static mut St {
    unsafe { &mut (*std::ptr::addr_of_mut!(STATE))[i] }
}

pub struct Quiet;
#[inline(always)]
pub fn quiet() -> Quiet {
    QUIET.fetch_add(1, Relaxed);
    Quiet
}
impl Drop for Quiet {
    #[inline(always)]
    fn drop(&mut self) {
        if QUIET.fetch_sub(1, Relaxed) == 1 && BURST.load(Relaxed) != 0 {
            tf_on();
        }
    }
}

fn fwait(a: &AtomicU32, v: u32) {
    unsafe { sys::sc6(sys::SYS_FUTEX, a as *const _ as i64, 128, v as i64, 0, 0, 0) };
}
fn fwake(a: &AtomicU32) {
    unsafe { sys::sc6(sys::SYS_FUTEX, a as *const _ as i64, 129, 1, 0, 0, 0) };
}

#[inline(always)]
fn tf_on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn tf_off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}

unsafe extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static data_start: u8;
    static end: u8;
    static __start_ksimdata: u8;
    static __stop_ksimdata: u8;
}
/// Does the next instruction access a static of the code under test?
fn at_static(c: &sys::UContext) -> bool {
    const REG: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
    let rip = c.gregs[sys::REG_RIP] as usize;
    let mut p = rip;
    let byte = |p: usize| unsafe { *(p as *const u8) };
    while matches!(byte(p), 0x66 | 0xf0 | 0xf2 | 0xf3 | 0x2e | 0x3e) {
        p += 1;
    }
    let mut rex = 0;
    if byte(p) & 0xf0 == 0x40 {
        rex = byte(p);
        p += 1;
    }
    let op = byte(p);
    p += 1;
    if op == 0x0f {
        let op = byte(p);
        p += 1;
        match op {
            0x38 | 0x3a => p += 1,
            0x10..=0x17 | 0x28..=0x2f | 0x40..=0x7f | 0x90..=0x9f | 0xa3..=0xc7 | 0xd0..=0xff => {}
            _ => return false,
        }
    } else if !matches!(op, 0x00..=0x3f if op & 7 < 4) && !matches!(op, 0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xf6 | 0xf7 | 0xfe | 0xff) {
        return false;
    }
    let m = byte(p);
    p += 1;
    let (mode, rm) = (m >> 6, m & 7);
    let reg = |i: u8, hi: u8| c.gregs[REG[(i | if rex & hi != 0 { 8 } else { 0 }) as usize]] as usize;
    let disp32 = |p: usize| unsafe { (p as *const i32).read_unaligned() } as usize;
    let mut a = match (mode, rm) {
        (3, _) => return false,
        (0, 5) => (p + 4).wrapping_add(disp32(p)),
        (_, 4) => {
            let s = byte(p);
            p += 1;
            let base = if mode == 0 && s & 7 == 5 { disp32(p) } else { reg(s & 7, 1) };
            let index = if s >> 3 & 7 == 4 && rex & 2 == 0 { 0 } else { reg(s >> 3 & 7, 2) << (s >> 6) };
            base.wrapping_add(index)
        }
        _ => reg(rm, 1),
    };
    match mode {
        1 => a = a.wrapping_add(byte(p) as i8 as usize),
        2 => a = a.wrapping_add(disp32(p)),
        _ => {}
    }
    let at = |x: *const u8| x as usize;
    use std::ptr::addr_of;
    a >= at(addr_of!(data_start)) && a < at(addr_of!(end)) && !(a >= at(addr_of!(__start_ksimdata)) && a < at(addr_of!(__stop_ksimdata)))
}
fn in_exe(rip: usize) -> bool {
    let (a, b) = (std::ptr::addr_of!(__executable_start) as usize, std::ptr::addr_of!(etext) as usize);
    rip >= a && rip < b
}

extern "C" fn on_trap(_sig: i32, _info: *mut u8, ctx: *mut sys::UContext) {
    let c = unsafe { &mut *ctx };
    STEPS.fetch_add(1, Relaxed);
    // instructions of the simulator itself do not count: the end of its
    // work switches the stepping on again
    let left = BURST.load(Relaxed);
    if QUIET.load(Relaxed) != 0 || left == 0 {
        c.gregs[sys::REG_EFL] &= !0x100;
        return;
    }
    if left > 1 {
        BURST.store(left - 1, Relaxed);
        return;
    }
    let rip = c.gregs[sys::REG_RIP] as usize;
    if in_exe(rip) {
        let n = ACCESSES.load(Relaxed);
        if n > 0 && BURST.load(Relaxed) > -BURST_MAX {
            let n = n - at_static(c) as i64;
            ACCESSES.store(n, Relaxed);
            if n > 0 {
                BURST.store(left - 1, Relaxed);
                return;
            }
        }
        BURST.store(0, Relaxed);
        c.gregs[sys::REG_EFL] &= !0x100;
        let base = std::ptr::addr_of!(__executable_start) as usize;
        let _q = quiet();
        ev!("preempt {} at +{:#x}", CUR.load(Relaxed), rip - base);
        fault(F::Burst);
        hand_back();
    }
}

pub fn install() {
    let sa = sys::SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    unsafe { sys::sigaction(5, &sa, std::ptr::null_mut()) };
}

/// Gives control back to the coordinator and waits for the next turn.
fn hand_back() {
    let me = CUR.load(Relaxed);
    BURST.store(0, Relaxed);
    // being inside the simulator is a state of each thread
    let quiet = QUIET.swap(0, Relaxed);
    COORD.store(1, Release);
    fwake(&COORD);
    while TURN[me].load(Acquire) == 0 {
        fwait(&TURN[me], 0);
    }
    TURN[me].store(0, Relaxed);
    QUIET.store(quiet, Relaxed);
}

fn refill() {
    let gap = GAP.load(Relaxed);
    let d = draw(4 * gap + 1) as i64;
    LEFT.store(if d == 0 { -1 } else { (d - 1) % gap as i64 + 1 }, Relaxed);
}

#[inline]
pub fn yield_point(_kind: u32) {
    if THREADED.load(Relaxed) {
        yield_slow();
    }
}
#[inline(never)]
fn yield_slow() {
    let me = CUR.load(Relaxed);
    if me == NONE || QUIET.load(Relaxed) != 0 || *state(me) != St::Ready {
        return;
    }
    let _q = quiet();
    sh().steps += 1;
    let left = LEFT.load(Relaxed);
    if left < 0 || BURST.load(Relaxed) != 0 {
        return;
    }
    if left > 1 {
        LEFT.store(left - 1, Relaxed);
        return;
    }
    let blen = BLEN.load(Relaxed);
    let d = draw(blen + blen / 2) as i64;
    let burst = if d < blen as i64 {
        ACCESSES.store(0, Relaxed);
        d
    } else {
        ACCESSES.store((d - blen as i64) % 4 + 1, Relaxed);
        -1
    };
    if burst == 0 {
        fault(F::Preempt);
        ev!("yield {me}");
        hand_back();
        return;
    }
    LEFT.store(-1, Relaxed);
    BURST.store(burst, Relaxed);
}

pub fn futex_wait(addr: usize, val: u32, timeout: bool) -> i64 {
    let _q = quiet();
    let cur = unsafe { std::ptr::read_volatile(addr as *const u32) };
    if cur != val {
        return -(sys::EAGAIN as i64);
    }
    if timeout {
        return -(sys::ETIMEDOUT as i64);
    }
    let me = CUR.load(Relaxed);
    if !THREADED.load(Relaxed) || me == NONE {
        crate::fail!("deadlock", "the only running thread blocks forever on a lock");
    }
    fault(F::FutexWait);
    ev!("blocked {me}");
    *state(me) = St::Blocked(addr);
    hand_back();
    0
}
pub fn futex_wake(addr: usize, n: u32) -> i64 {
    let _q = quiet();
    let mut k = 0;
    for i in 0..MAXT {
        if *state(i) == St::Blocked(addr) && k < n as i64 {
            *state(i) = St::Ready;
            k += 1;
        }
    }
    k
}

struct Start {
    id: usize,
    body: Option<Box<dyn FnOnce()>>,
    panicked: bool,
}
extern "C" fn thread_main(p: *mut u8) -> *mut u8 {
    let s = unsafe { &mut *(p as *mut Start) };
    while TURN[s.id].load(Acquire) == 0 {
        fwait(&TURN[s.id], 0);
    }
    TURN[s.id].store(0, Relaxed);
    let body = s.body.take().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    tf_off();
    BURST.store(0, Relaxed);
    s.panicked = r.is_err();
    drop(r);
    *state(s.id) = St::Exiting;
    COORD.store(1, Release);
    fwake(&COORD);
    std::ptr::null_mut()
}

pub struct Tuning {
    pub gap: u32,
    pub burst: u32,
}

/// Runs the given bodies on threads of their own under the simulated
/// scheduler until all have ended. Returns which of them panicked.
/// `late` threads are only started once an earlier thread has ended.
pub fn run(bodies: Vec<Box<dyn FnOnce()>>, tune: Tuning) -> Vec<bool> {
    let n = bodies.len();
    assert!(n <= MAXT);
    GAP.store(tune.gap, Relaxed);
    BLEN.store(tune.burst, Relaxed);
    let mut starts: Vec<Box<Start>> = bodies
        .into_iter()
        .enumerate()
        .map(|(id, b)| Box::new(Start { id, body: Some(b), panicked: false }))
        .collect();
    let mut tids = vec![0u64; n];
    let mut attr = [0u64; 16];
    unsafe {
        sys::pthread_attr_init(attr.as_mut_ptr() as *mut u8);
        sys::pthread_attr_setstacksize(attr.as_mut_ptr() as *mut u8, 2 << 20);
    }
    for i in 0..n {
        TURN[i].store(0, Relaxed);
        *state(i) = St::Ready;
        let p = &mut *starts[i] as *mut Start as *mut u8;
        let r = unsafe { sys::pthread_create(&mut tids[i], attr.as_ptr() as *const u8, thread_main, p) };
        if r != 0 {
            core::harness_error("pthread_create failed");
        }
    }
    THREADED.store(true, SeqCst);
    let mut alive = n;
    let mut last = NONE;
    let mut turns = 0u64;
    while alive > 0 {
        let mut ready = [0usize; MAXT];
        let mut k = 0;
        // the thread that ran last comes first, so that zero means "go on"
        if last != NONE && *state(last) == St::Ready {
            ready[0] = last;
            k = 1;
        }
        for i in 0..n {
            if i != last && *state(i) == St::Ready {
                ready[k] = i;
                k += 1;
            }
        }
        if k == 0 {
            THREADED.store(false, SeqCst);
            crate::fail!("deadlock", "all {} remaining threads are blocked", alive);
        }
        turns += 1;
        if turns > 2_000_000 {
            THREADED.store(false, SeqCst);
            crate::fail!("livelock", "threads make no progress");
        }
        let i = ready[draw(k as u32) as usize];
        if i != last {
            ev!("run {i}");
        }
        last = i;
        refill();
        CUR.store(i, SeqCst);
        COORD.store(0, SeqCst);
        TURN[i].store(1, Release);
        fwake(&TURN[i]);
        while COORD.load(Acquire) == 0 {
            fwait(&COORD, 0);
        }
        CUR.store(NONE, SeqCst);
        if *state(i) == St::Exiting {
            unsafe { sys::pthread_join(tids[i], std::ptr::null_mut()) };
            *state(i) = St::Dead;
            alive -= 1;
            if alive > 0 {
                fault(F::ThreadExit);
            }
            ev!("end {i}");
        }
    }
    THREADED.store(false, SeqCst);
    sh().steps += STEPS.swap(0, Relaxed) as u64;
    starts.iter().map(|s| s.panicked).collect()
}

/// Runs one body on a fresh thread, so that everything the code keeps per
/// thread starts out new and hash tables get new seeds.
pub fn fresh_thread<R: 'static, G: FnOnce() -> R + 'static>(f: G) -> R {
    let slot = std::rc::Rc::new(std::cell::RefCell::new(None));
    let s2 = slot.clone();
    let p = run(vec![Box::new(move || *s2.borrow_mut() = Some(f()))], Tuning { gap: 0, burst: 0 });
    if p[0] {
        crate::fail!("panic", "panicked: {}", sh().panic.get());
    }
    slot.borrow_mut().take().unwrap()
}
