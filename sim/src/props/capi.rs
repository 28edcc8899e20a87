//! The C interface as the scenarios call it.
use crate::{check, sys};
use koopa::ir::Program;
use libkoopa_sim as lk;
use lk::{RawProgram, RawProgramBuilder};
use std::ffi::CString;
use std::os::raw::c_char;

pub const SUCCESS: i32 = 0;
pub const UTF8: i32 = 1;
pub const FILE: i32 = 2;
pub const PROGRAM: i32 = 3;
pub const IO: i32 = 4;
pub const NUL: i32 = 5;
pub const SHORT: i32 = 6;
pub const KIND: i32 = 7;
pub const NULL: i32 = 8;
pub const TYPE: i32 = 9;
pub const PARAMS: i32 = 10;

pub type P = *mut Program;

/// Stands for "was not written".
pub fn untouched() -> P {
    0x5a5a_5a58 as P
}

/// Calls a function with a program output and checks that the output was
/// written exactly on success.
pub fn out(f: impl FnOnce(&mut P) -> lk::ErrorCode) -> Result<P, i32> {
    let mut p = untouched();
    let c = f(&mut p) as i32;
    if c == SUCCESS {
        check!(p != untouched() && !p.is_null(), "output", "success, but no program was handed out");
        Ok(p)
    } else {
        check!(p == untouched(), "output", "error {c}, but the program pointer was written");
        Err(c)
    }
}

pub fn cstr(b: &[u8]) -> CString {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    CString::new(&b[..n]).unwrap()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum From {
    File,
    Str,
    Raw,
    Stdin,
}
pub fn parse_file(path: &[u8]) -> Result<P, i32> {
    let c = cstr(path);
    out(|p| unsafe { lk::koopa_parse_from_file(c.as_ptr(), p) })
}
pub fn parse_str(b: &[u8]) -> Result<P, i32> {
    let c = cstr(b);
    out(|p| unsafe { lk::koopa_parse_from_string(c.as_ptr(), p) })
}
pub fn parse_stdin() -> Result<P, i32> {
    out(|p| lk::koopa_parse_from_stdin(p))
}
/// A descriptor the test hands to the library.
pub fn hand_over(path: &str, flags: i32) -> i32 {
    let fd = sys::fs_open(path, flags);
    if fd < 0 {
        crate::core::harness_error(&format!("cannot open {path}: {fd}"));
    }
    crate::os::track(fd);
    let o = crate::os::os();
    if o.first_fd < 0 {
        o.first_fd = fd;
    }
    fd
}
pub fn parse_raw(fd: i32) -> Result<P, i32> {
    out(|p| lk::koopa_parse_from_raw(fd, p))
}
pub fn delete(p: P) {
    unsafe { lk::koopa_delete_program(p) }
}

pub fn dump_file(llvm: bool, p: &Program, path: &[u8]) -> i32 {
    let c = cstr(path);
    (if llvm { lk::koopa_dump_llvm_to_file(p, c.as_ptr()) } else { lk::koopa_dump_to_file(p, c.as_ptr()) }) as i32
}
pub fn dump_raw(llvm: bool, p: &Program, fd: i32) -> i32 {
    (if llvm { lk::koopa_dump_llvm_to_raw(p, fd) } else { lk::koopa_dump_to_raw(p, fd) }) as i32
}
pub fn dump_stdout(llvm: bool, p: &Program) -> i32 {
    (if llvm { lk::koopa_dump_llvm_to_stdout(p) } else { lk::koopa_dump_to_stdout(p) }) as i32
}
pub fn dump_str(llvm: bool, p: &Program, buf: *mut c_char, len: &mut usize) -> i32 {
    (if llvm { lk::koopa_dump_llvm_to_string(p, buf, len) } else { lk::koopa_dump_to_string(p, buf, len) }) as i32
}

/// Dumps into a buffer that claims to have `len` bytes and checks that only
/// those were touched. Returns the code and the bytes written.
pub fn dump_buf(llvm: bool, p: &Program, len: usize) -> (i32, Vec<u8>) {
    const PAD: usize = 64;
    let mut buf = vec![0xA5u8; len + 2 * PAD];
    let mut n = len;
    let c = dump_str(llvm, p, buf[PAD..].as_mut_ptr() as *mut c_char, &mut n);
    let clean = |b: &[u8]| b.iter().all(|x| *x == 0xA5);
    check!(clean(&buf[..PAD]) && clean(&buf[PAD + len..]), "overrun", "bytes around a buffer of {len} bytes were written");
    if c != SUCCESS {
        check!(clean(&buf), "output", "error {c}, but the buffer was written");
        check!(n == len, "output", "error {c}, but the length was changed from {len} to {n}");
        return (c, vec![]);
    }
    let b = &buf[PAD..PAD + len];
    let end = match b.iter().position(|x| *x == 0) {
        Some(e) => e,
        None => crate::fail!("terminator", "no terminating null byte within {len} bytes"),
    };
    check!(clean(&b[end + 1..]), "overrun", "bytes behind the terminating null byte were written");
    (c, b[..end].to_vec())
}
pub fn dump_len(llvm: bool, p: &Program) -> (i32, usize) {
    let mut n = 0x5a5a_5a5a;
    let c = dump_str(llvm, p, std::ptr::null_mut(), &mut n);
    if c != SUCCESS {
        check!(n == 0x5a5a_5a5a, "output", "error {c}, but the length was written");
    }
    (c, n)
}

pub fn new_builder() -> *mut RawProgramBuilder {
    lk::koopa_new_raw_program_builder()
}
pub fn delete_builder(b: *mut RawProgramBuilder) {
    unsafe { lk::koopa_delete_raw_program_builder(b) }
}
pub fn build(b: *mut RawProgramBuilder, p: &Program) -> RawProgram<'static> {
    lk::koopa_build_raw_program(unsafe { &mut *b }, p)
}
pub fn convert(raw: &RawProgram) -> Result<P, i32> {
    out(|p| lk::koopa_generate_raw_to_koopa(raw, p))
}
