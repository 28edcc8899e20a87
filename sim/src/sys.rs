//! Raw system calls and the few C declarations the simulator needs.
#![allow(dead_code, non_camel_case_types)]
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
             in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    }
    r
}
pub unsafe fn sc3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    unsafe { sc6(n, a, b, c, 0, 0, 0) }
}

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_OPEN: i64 = 2;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_MMAP: i64 = 9;
pub const SYS_PREAD: i64 = 17;
pub const SYS_PWRITE: i64 = 18;
pub const SYS_READV: i64 = 19;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_DUP: i64 = 32;
pub const SYS_SETITIMER: i64 = 38;
pub const SYS_GETPID: i64 = 39;
pub const SYS_FORK: i64 = 57;
pub const SYS_FSYNC: i64 = 74;
pub const SYS_FDATASYNC: i64 = 75;
pub const SYS_FTRUNCATE: i64 = 77;
pub const SYS_RENAME: i64 = 82;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_GETRANDOM: i64 = 318;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const ENOENT: i32 = 2;
pub const EACCES: i32 = 13;
pub const EMFILE: i32 = 24;
pub const ENFILE: i32 = 23;
pub const ENOSPC: i32 = 28;
pub const EDQUOT: i32 = 122;
pub const EFBIG: i32 = 27;
pub const EAGAIN: i32 = 11;
pub const EISDIR: i32 = 21;
pub const ETIMEDOUT: i32 = 110;

pub const O_WRONLY: i32 = 1;
pub const O_RDWR: i32 = 2;
pub const O_CREAT: i32 = 0o100;
pub const O_TRUNC: i32 = 0o1000;
pub const O_CLOEXEC: i32 = 0o2000000;

#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
#[repr(C)]
pub struct StackT {
    pub sp: *mut u8,
    pub flags: i32,
    pub size: usize,
}
#[repr(C)]
pub struct UContext {
    pub flags: u64,
    pub link: *mut UContext,
    pub stack: StackT,
    pub gregs: [i64; 23],
}
pub const REG_RIP: usize = 16;
pub const REG_EFL: usize = 17;

unsafe extern "C" {
    pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn fork() -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn pthread_create(t: *mut u64, attr: *const u8, f: extern "C" fn(*mut u8) -> *mut u8, a: *mut u8) -> i32;
    pub fn pthread_join(t: u64, r: *mut *mut u8) -> i32;
    pub fn pthread_attr_init(a: *mut u8) -> i32;
    pub fn pthread_attr_setstacksize(a: *mut u8, n: usize) -> i32;
    pub fn __errno_location() -> *mut i32;
    pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn strlen(s: *const i8) -> usize;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
pub const PROT_RW: i32 = 3;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_NORESERVE: i32 = 0x4000;
pub const MAP_FIXED_NOREPLACE: i32 = 0x100000;

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
/// Converts a raw system call result to the C convention.
pub fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        sc3(SYS_EXIT_GROUP, code as i64, 0, 0);
    }
    loop {}
}
pub fn raw_err(s: &str) {
    unsafe {
        sc3(SYS_WRITE, 2, s.as_ptr() as i64, s.len() as i64);
    }
}
/// Maps zeroed memory shared between this process and its children.
pub fn map_shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, PROT_RW, MAP_SHARED | MAP_ANON | MAP_NORESERVE, -1, 0) };
    if p as isize == -1 {
        raw_err("mmap failed\n");
        exit_now(2);
    }
    p
}

fn cpath(p: &str) -> Vec<u8> {
    let mut v = p.as_bytes().to_vec();
    v.push(0);
    v
}
/// Harness-side file access which no injected fault touches.
pub fn fs_write(path: &str, data: &[u8]) {
    let c = cpath(path);
    unsafe {
        let fd = sc3(SYS_OPEN, c.as_ptr() as i64, (O_WRONLY | O_CREAT | O_TRUNC) as i64, 0o644);
        if fd < 0 {
            crate::core::harness_error(&format!("cannot write {path}: {fd}"));
        }
        let mut off = 0;
        while off < data.len() {
            let n = sc3(SYS_WRITE, fd, data[off..].as_ptr() as i64, (data.len() - off) as i64);
            if n == -(EINTR as i64) {
                continue;
            }
            if n <= 0 {
                crate::core::harness_error(&format!("cannot write {path}: {n}"));
            }
            off += n as usize;
        }
        sc3(SYS_CLOSE, fd, 0, 0);
    }
}
pub fn fs_read(path: &str) -> Option<Vec<u8>> {
    let c = cpath(path);
    let mut out = Vec::new();
    unsafe {
        let fd = sc3(SYS_OPEN, c.as_ptr() as i64, 0, 0);
        if fd < 0 {
            return None;
        }
        let mut buf = [0u8; 8192];
        loop {
            let n = sc3(SYS_READ, fd, buf.as_mut_ptr() as i64, 8192);
            if n == -(EINTR as i64) {
                continue;
            }
            if n < 0 {
                sc3(SYS_CLOSE, fd, 0, 0);
                return None;
            }
            if n == 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        sc3(SYS_CLOSE, fd, 0, 0);
    }
    Some(out)
}
pub fn fs_unlink(path: &str) {
    let c = cpath(path);
    unsafe {
        sc3(87, c.as_ptr() as i64, 0, 0);
    }
}
/// Opens a file directly; returns the descriptor or a negative error.
pub fn fs_open(path: &str, flags: i32) -> i32 {
    let c = cpath(path);
    unsafe { sc3(SYS_OPEN, c.as_ptr() as i64, flags as i64, 0o644) as i32 }
}
/// The descriptors currently open, found by asking the kernel.
pub fn open_fds(max: i32) -> Vec<i32> {
    (0..max).filter(|fd| unsafe { sc3(72, *fd as i64, 1, 0) } >= 0).collect()
}
