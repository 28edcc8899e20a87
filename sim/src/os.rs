//! The operating-system seam. The C library entry points the Rust standard
//! library uses for files, randomness, time and futexes are defined here, so
//! the code under test runs on real files in a scratch directory while the
//! simulator decides which calls are short, interrupted or fail.
use crate::core::{chance, draw, fault, sh, F};
use crate::sys::*;
use crate::{core, ev, sched};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub const ERRBUF: usize = 1 << 23;
pub const OUTBUF: usize = 1 << 20;
pub const NFD: usize = 64;

#[derive(Clone, Copy)]
pub struct Plan {
    pub short_r: u32,
    pub intr_r: u32,
    pub err_r: u32,
    pub short_w: u32,
    pub intr_w: u32,
    pub err_w: u32,
    pub open_err: u32,
    pub close_err: u32,
    /// Ends the process at the n-th write call from now (counting down), 0 = never.
    pub crash_at: u32,
    pub crash_bytes: u32,
    pub err_short: u32,
    pub err_intr: u32,
    /// Failing reads hit: 0 any file, 1 the first one opened, 2 all others.
    pub err_on: u32,
    /// Calls left until the next fault of each kind.
    pub gaps: [Gap; 10],
}
pub const CALM: Plan = Plan {
    short_r: 0, intr_r: 0, err_r: 0, short_w: 0, intr_w: 0, err_w: 0, open_err: 0, close_err: 0,
    crash_at: 0, crash_bytes: 0, err_short: 0, err_intr: 0, err_on: 0, gaps: [Gap(0); 10],
};

#[derive(Clone, Copy, Default)]
pub struct FdInfo {
    pub open: bool,
    pub failed: bool,
}

pub struct Os {
    pub on: bool,
    pub plan: Plan,
    pub streak: u32,
    pub storm: u32,
    pub stormed: bool,
    pub fds: [FdInfo; NFD],
    pub opened: u32,
    pub open_failed: u32,
    pub closed: u32,
    pub read_failed: u32,
    pub write_failed: u32,
    pub reads_after_fail: u32,
    pub double_close: i32,
    pub err: *mut u8,
    pub err_len: usize,
    pub err_lost: bool,
    pub out: *mut u8,
    pub out_len: usize,
    pub out_mode: bool,
    pub stdin: *const u8,
    pub stdin_len: usize,
    pub stdin_pos: usize,
    pub stdin_mode: bool,
    pub stdin_eofs: u32,
    pub max_chunk: u32,
    /// Called right before a file is opened for reading (1-based count).
    pub on_open: Option<fn(u32)>,
    pub rd_opens: u32,
    pub first_fd: i32,
    pub seed_fixed: u64,
    pub seed_state: u64,
    pub calls: u64,
}

#[unsafe(link_section = "ksimdata")]
static mut OS: Os = Os {
    on: false, plan: CALM, streak: 0, storm: 0, stormed: false, fds: [FdInfo { open: false, failed: false }; NFD], opened: 0, open_failed: 0,
    closed: 0, read_failed: 0, write_failed: 0, reads_after_fail: 0, double_close: 0,
    err: std::ptr::null_mut(), err_len: 0, err_lost: false, out: std::ptr::null_mut(), out_len: 0, out_mode: false,
    stdin: std::ptr::null(), stdin_len: 0, stdin_pos: 0, stdin_mode: false, stdin_eofs: 0, max_chunk: 0,
    on_open: None, rd_opens: 0, first_fd: -1, seed_fixed: 0, seed_state: 0, calls: 0,
};
#[unsafe(link_section = "ksimdata")]
pub static ACTIVE: AtomicBool = AtomicBool::new(false);

pub fn os() -> &'static mut Os {
    unsafe { &mut *std::ptr::addr_of_mut!(OS) }
}
pub fn map_buffers() {
    os().err = map_shared(ERRBUF);
    os().out = map_shared(OUTBUF);
}
/// Starts a run: from here on the seam answers for the kernel.
pub fn activate() {
    os().on = true;
    ACTIVE.store(true, Relaxed);
}
pub fn stderr_text() -> Vec<u8> {
    let o = os();
    unsafe { std::slice::from_raw_parts(o.err, o.err_len).to_vec() }
}
pub fn stderr_clear() {
    os().err_len = 0;
}
pub fn stdout_text() -> Vec<u8> {
    let o = os();
    unsafe { std::slice::from_raw_parts(o.out, o.out_len).to_vec() }
}
pub fn set_stdin(data: &'static [u8]) {
    let o = os();
    o.stdin = data.as_ptr();
    o.stdin_len = data.len();
    o.stdin_pos = 0;
    o.stdin_mode = true;
    o.stdin_eofs = 0;
}
pub fn counters_reset() {
    let o = os();
    o.opened = 0;
    o.open_failed = 0;
    o.closed = 0;
    o.read_failed = 0;
    o.write_failed = 0;
    o.reads_after_fail = 0;
    o.double_close = 0;
    o.rd_opens = 0;
    o.first_fd = -1;
}

const READ_ERRS: [i32; 3] = [EIO, EISDIR, EAGAIN];
const WRITE_ERRS: [i32; 5] = [ENOSPC, EIO, EDQUOT, EFBIG, EAGAIN];
const OPEN_ERRS: [i32; 6] = [ENOENT, EACCES, EMFILE, ENFILE, EIO, ENOSPC];

/// Distance to the next fault of one kind. One choice is drawn per fault
/// instead of one per call; the simplest choice means no further fault.
#[derive(Clone, Copy, Default)]
pub struct Gap(pub i32);
impl Gap {
    pub fn hit(&mut self, rate: u32) -> bool {
        if rate == 0 || self.0 < 0 {
            return false;
        }
        if self.0 == 0 {
            let g = draw(2 * rate + 8);
            if g == 0 {
                self.0 = -1;
                return false;
            }
            self.0 = ((g - 1) % (2 * rate) + 1) as i32;
        }
        self.0 -= 1;
        self.0 == 0
    }
}
fn hit(k: usize, rate: u32) -> bool {
    os().plan.gaps[k].hit(rate)
}
/// The interruption just drawn may be the first of many.
fn storm() {
    let o = os();
    if !o.stormed && chance(1, 40) {
        o.stormed = true;
        o.storm = 2 + draw(1 << draw(13));
        core::probe("interruption_storm");
    }
}
fn blows() -> bool {
    let o = os();
    o.storm = o.storm.saturating_sub(1);
    o.storm != 0
}
fn chance1(rate: u32) -> bool {
    rate != 0 && chance(1, rate)
}
fn tracked(fd: i32) -> bool {
    fd >= 0 && (fd as usize) < NFD && os().fds[fd as usize].open
}
/// Tells the seam about a descriptor the test opened itself.
pub fn track(fd: i32) {
    if fd >= 0 && (fd as usize) < NFD {
        os().fds[fd as usize] = FdInfo { open: true, failed: false };
    }
}

fn sim_read(fd: i32, buf: *mut u8, n: usize) -> i64 {
    let _q = sched::quiet();
    let o = os();
    o.calls += 1;
    if tracked(fd) && o.fds[fd as usize].failed {
        o.reads_after_fail += 1;
    }
    let p = o.plan;
    if blows() {
        return -(EINTR as i64);
    }
    if o.streak < 3 && hit(0, p.intr_r) {
        o.streak += 1;
        storm();
        fault(F::SysIntrRead);
        ev!("read {fd} -> EINTR");
        return -(EINTR as i64);
    }
    o.streak = 0;
    if (p.err_on == 0 || (p.err_on == 1) == (fd == o.first_fd)) && hit(1, p.err_r) {
        let e = READ_ERRS[draw(READ_ERRS.len() as u32) as usize];
        fault(F::SysReadErr);
        o.read_failed += 1;
        if tracked(fd) {
            o.fds[fd as usize].failed = true;
        }
        ev!("read {fd} -> error {e}");
        return -(e as i64);
    }
    let mut want = n;
    if n > 1 && hit(2, p.short_r) {
        want = 1 + draw((n.min(64) - 1) as u32) as usize;
        fault(F::SysShortRead);
    }
    let r = if fd == 0 && o.stdin_mode {
        let left = o.stdin_len - o.stdin_pos;
        let k = want.min(left);
        unsafe { std::ptr::copy_nonoverlapping(o.stdin.add(o.stdin_pos), buf, k) };
        o.stdin_pos += k;
        if k == 0 {
            o.stdin_eofs += 1;
        }
        k as i64
    } else {
        unsafe { sc3(SYS_READ, fd as i64, buf as i64, want as i64) }
    };
    if n > 1 || r != 1 {
        ev!("read {fd} {n} -> {r}");
    }
    r
}

fn append(dst: *mut u8, len: &mut usize, cap: usize, buf: *const u8, n: usize) {
    let k = n.min(cap - *len);
    unsafe { std::ptr::copy_nonoverlapping(buf, dst.add(*len), k) };
    *len += k;
}

fn sim_write(fd: i32, buf: *const u8, n: usize) -> i64 {
    let _q = sched::quiet();
    let o = os();
    o.calls += 1;
    if fd == 2 {
        if blows() {
            return -(EINTR as i64);
        }
        if o.streak < 3 && hit(6, o.plan.err_intr) {
            o.streak += 1;
            storm();
            fault(F::StderrIntr);
            return -(EINTR as i64);
        }
        o.streak = 0;
        let mut k = n;
        if n > 1 && hit(7, o.plan.err_short) {
            k = 1 + draw(n.min(32) as u32 - 1) as usize;
            fault(F::StderrShort);
        }
        append(o.err, &mut o.err_len, ERRBUF, buf, k);
        return k as i64;
    }
    if !(fd == 1 && o.out_mode) && !tracked(fd) {
        return unsafe { sc3(SYS_WRITE, fd as i64, buf as i64, n as i64) };
    }
    let p = o.plan;
    if blows() {
        return -(EINTR as i64);
    }
    if o.streak < 3 && hit(3, p.intr_w) {
        o.streak += 1;
        storm();
        fault(F::SysIntrWrite);
        ev!("write {fd} -> EINTR");
        return -(EINTR as i64);
    }
    o.streak = 0;
    if p.crash_at != 0 {
        o.plan.crash_at -= 1;
        if o.plan.crash_at == 0 {
            let k = n.min(p.crash_bytes as usize);
            if k > 0 {
                put(fd, buf, k);
            }
            fault(F::Crash);
            ev!("crash in write {fd} after {k} of {n} bytes");
            sh().nchoices = sh().pos;
            exit_now(77);
        }
    }
    if hit(4, p.err_w) {
        let e = WRITE_ERRS[draw(WRITE_ERRS.len() as u32) as usize];
        fault(F::SysWriteErr);
        o.write_failed += 1;
        ev!("write {fd} -> error {e}");
        return -(e as i64);
    }
    let mut k = n;
    if n > 1 && hit(5, p.short_w) {
        k = 1 + draw(n.min(64) as u32 - 1) as usize;
        fault(F::SysShortWrite);
    }
    let r = put(fd, buf, k);
    ev!("write {fd} {n} -> {r}");
    r
}
fn put(fd: i32, buf: *const u8, k: usize) -> i64 {
    let o = os();
    if fd == 1 && o.out_mode {
        append(o.out, &mut o.out_len, OUTBUF, buf, k);
        k as i64
    } else {
        unsafe { sc3(SYS_WRITE, fd as i64, buf as i64, k as i64) }
    }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    let r = if ACTIVE.load(Relaxed) && (tracked(fd) || (fd == 0 && os().stdin_mode)) {
        let r = sim_read(fd, buf, n);
        sched::yield_point(sched::Y_IO);
        r
    } else {
        unsafe { sc3(SYS_READ, fd as i64, buf as i64, n as i64) }
    };
    ret(r) as isize
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
    if ACTIVE.load(Relaxed) && cnt > 0 && (tracked(fd) || (fd == 0 && os().stdin_mode)) {
        for i in 0..cnt as usize {
            let v = unsafe { &*iov.add(i) };
            if v.len > 0 {
                return unsafe { read(fd, v.base, v.len) };
            }
        }
        return 0;
    }
    ret(unsafe { sc3(SYS_READV, fd as i64, iov as i64, cnt as i64) }) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    let r = if ACTIVE.load(Relaxed) {
        let r = sim_write(fd, buf, n);
        sched::yield_point(sched::Y_IO);
        r
    } else {
        unsafe { sc3(SYS_WRITE, fd as i64, buf as i64, n as i64) }
    };
    ret(r) as isize
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
    if ACTIVE.load(Relaxed) && cnt > 0 && (fd == 2 || tracked(fd) || (fd == 1 && os().out_mode)) {
        for i in 0..cnt as usize {
            let v = unsafe { &*iov.add(i) };
            if v.len > 0 {
                return unsafe { write(fd, v.base, v.len) };
            }
        }
        return 0;
    }
    ret(unsafe { sc3(SYS_WRITEV, fd as i64, iov as i64, cnt as i64) }) as isize
}
unsafe fn do_open(path: *const u8, flags: i32, mode: u32) -> i32 {
    unsafe {
        if !ACTIVE.load(Relaxed) {
            return ret(sc6(SYS_OPENAT, -100, path as i64, flags as i64, mode as i64, 0, 0)) as i32;
        }
        let r = {
            let _q = sched::quiet();
            let o = os();
            o.calls += 1;
            // only relative paths belong to the simulated disk
            let ours = *path != b'/';
            if ours && o.streak < 3 && chance1(o.plan.intr_r.max(o.plan.intr_w)) {
                o.streak += 1;
                ev!("open -> EINTR");
                -(EINTR as i64)
            } else if ours && chance1(o.plan.open_err) {
                o.streak = 0;
                o.rd_opens += (flags & 3 == 0) as u32;
                let e = OPEN_ERRS[draw(OPEN_ERRS.len() as u32) as usize];
                fault(F::OpenFail);
                o.open_failed += 1;
                ev!("open -> error {e}");
                -(e as i64)
            } else {
                if ours && flags & 3 == 0 {
                    o.rd_opens += 1;
                    if let Some(f) = o.on_open {
                        f(o.rd_opens);
                    }
                }
                o.streak = 0;
                let r = sc6(SYS_OPENAT, -100, path as i64, flags as i64, mode as i64, 0, 0);
                if ours {
                    if r >= 0 {
                        if r as usize >= NFD {
                            core::harness_error("too many descriptors");
                        }
                        o.opened += 1;
                        if o.first_fd < 0 {
                            o.first_fd = r as i32;
                        }
                        track(r as i32);
                    } else {
                        o.open_failed += 1;
                    }
                    ev!("open {flags:#o} -> {r}");
                }
                r
            }
        };
        sched::yield_point(sched::Y_IO);
        ret(r) as i32
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    unsafe { do_open(path, flags, mode) }
}
#[allow(invalid_runtime_symbol_definitions)]
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    unsafe { do_open(path, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    unsafe {
        if ACTIVE.load(Relaxed) {
            let _q = sched::quiet();
            let o = os();
            if tracked(fd) {
                o.fds[fd as usize].open = false;
                o.closed += 1;
                let r = sc3(SYS_CLOSE, fd as i64, 0, 0);
                ev!("close {fd} -> {r}");
                if hit(8, o.plan.close_err) {
                    fault(F::CloseErr);
                    return ret(-(EIO as i64)) as i32;
                }
                return ret(r) as i32;
            }
            let r = sc3(SYS_CLOSE, fd as i64, 0, 0);
            if r == -(EBADF as i64) {
                o.double_close += 1;
                ev!("close {fd} -> EBADF");
            }
            return ret(r) as i32;
        }
        ret(sc3(SYS_CLOSE, fd as i64, 0, 0)) as i32
    }
}
/// Seeds for hash tables come from the choice sequence.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if !ACTIVE.load(Relaxed) {
        return ret(unsafe { sc3(SYS_GETRANDOM, buf as i64, n as i64, flags as i64) }) as isize;
    }
    let _q = sched::quiet();
    let o = os();
    let s = if o.seed_fixed != 0 { o.seed_fixed } else { draw(1 << 16) as u64 };
    fault(F::HashSeed);
    o.seed_state = core::mix(s ^ 0x5eed);
    for i in 0..n {
        o.seed_state = core::mix(o.seed_state);
        unsafe { *buf.add(i) = o.seed_state as u8 };
    }
    n as isize
}
/// Simulated clock: moves one microsecond per question.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_id: i32, ts: *mut i64) -> i32 {
    if !ACTIVE.load(Relaxed) {
        return ret(unsafe { sc3(228, _id as i64, ts as i64, 0) }) as i32;
    }
    let _q = sched::quiet();
    sh().steps += 1;
    let t = 1_700_000_000_000_000i64 + sh().steps as i64;
    unsafe {
        *ts = t / 1_000_000;
        *ts.add(1) = t % 1_000_000 * 1000;
    }
    0
}
/// Futexes (the standard library's locks) block under the simulated scheduler.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX && ACTIVE.load(Relaxed) {
        let op = b as i32 & 0x7f & !128;
        let wait = op == 0 || op == 9;
        let wake = op == 1 || op == 10;
        if wait {
            return ret(sched::futex_wait(a as usize, c as u32, d != 0));
        }
        if wake {
            return ret(sched::futex_wake(a as usize, c as u32));
        }
    }
    ret(unsafe { sc6(n, a, b, c, d, e, f) })
}
