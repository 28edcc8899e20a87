//! The simulated heap. Inside a run every allocation comes from one arena at
//! a fixed address, under a reuse policy the simulator picks, so that object
//! addresses are repeatable and still vary from run to run. Freed memory is
//! poisoned and checked, block ends carry canaries, and live blocks are
//! counted, which makes misuse of memory a visible violation.
use crate::{core, sched, sys};
use std::alloc::{GlobalAlloc, Layout, System};

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 8 << 30;
const LIMIT: usize = 1 << 30;
const HDR: usize = 32;
const ALIVE: u32 = 0x51A1_1E5D;
const FREED: u32 = 0xDEAD_F4EE;
const CLASSES: usize = 60;
const QCAP: usize = 4096;

#[repr(C)]
struct Header {
    magic: u32,
    class: u32,
    size: usize,
    align: usize,
    next: *mut Header,
}

struct Ring {
    head: *mut Header,
    tail: *mut Header,
    len: usize,
}

pub struct Heap {
    pub on: bool,
    low: usize,
    high: usize,
    down: bool,
    fifo: bool,
    keep: usize,
    skew: usize,
    lists: [Ring; CLASSES],
    pub live_bytes: usize,
    pub live_blocks: usize,
    pub total: u64,
    pub reused: u64,
    poison_max: usize,
}

const EMPTY: Ring = Ring { head: std::ptr::null_mut(), tail: std::ptr::null_mut(), len: 0 };
#[unsafe(link_section = "ksimdata")]
pub static mut HEAP: Heap = Heap {
    on: false, low: BASE, high: BASE + SIZE, down: false, fifo: false, keep: 0, skew: 0,
    lists: [EMPTY; CLASSES], live_bytes: 0, live_blocks: 0, total: 0, reused: 0, poison_max: 512,
};

pub fn heap() -> &'static mut Heap {
    unsafe { &mut *std::ptr::addr_of_mut!(HEAP) }
}

pub fn map_arena() {
    let p = unsafe {
        sys::mmap(BASE as *mut u8, SIZE, sys::PROT_RW,
            sys::MAP_PRIVATE | sys::MAP_ANON | sys::MAP_NORESERVE | sys::MAP_FIXED_NOREPLACE, -1, 0)
    };
    if p as usize != BASE {
        sys::raw_err("cannot map the simulated heap\n");
        sys::exit_now(2);
    }
}

/// Applies a heap policy; 0 is the plainest one.
pub fn set_policy(p: u32) {
    let h = heap();
    let m = core::mix(p as u64);
    h.fifo = p != 0 && m & 1 != 0;
    h.down = p != 0 && m & 2 != 0;
    h.keep = if p == 0 { 0 } else { [0, 0, 3, 40][(m >> 2) as usize & 3] };
    h.skew = if p == 0 { 0 } else { ((m >> 8) as usize & 0xff) * 16 };
    if h.skew != 0 {
        h.low += h.skew;
        h.high -= h.skew;
    }
}

fn class_of(n: usize) -> usize {
    // room for the canary
    let n = (n + 8).max(32);
    if n <= 1024 { (n + 31) / 32 } else { 33 + (n.next_power_of_two().trailing_zeros() as usize - 11) }
}
fn class_size(c: usize) -> usize {
    if c <= 32 { c * 32 } else { 1 << (c - 33 + 11) }
}

impl Heap {
    unsafe fn alloc(&mut self, l: Layout, zero: bool) -> *mut u8 {
        unsafe {
            let big_align = l.align() > 16;
            let c = class_of(l.size() + if big_align { l.align() } else { 0 });
            let sz = class_size(c);
            if self.live_bytes + sz > LIMIT {
                return std::ptr::null_mut();
            }
            let ring = &mut self.lists[c];
            let h;
            if !big_align && ring.len > self.keep {
                h = ring.head;
                ring.head = (*h).next;
                ring.len -= 1;
                if (*h).magic != FREED {
                    crate::fail!("heap-corruption", "header of a freed block was overwritten");
                }
                let body = (h as *mut u8).add(HDR);
                let n = (*h).size.min(self.poison_max);
                for i in 0..n {
                    if *body.add(i) != 0xDD {
                        crate::fail!("write-after-free", "byte {} of a freed block of {} bytes was overwritten", i, (*h).size);
                    }
                }
                self.reused += 1;
            } else {
                let total = sz + HDR;
                if self.low + total + 4096 > self.high {
                    return std::ptr::null_mut();
                }
                if self.down {
                    self.high -= total;
                    h = self.high as *mut Header;
                } else {
                    h = self.low as *mut Header;
                    self.low += total;
                }
            }
            let body = (h as *mut u8).add(HDR);
            let mut p = body;
            if big_align {
                let a = (body as usize + l.align() - 1) & !(l.align() - 1);
                p = a as *mut u8;
            }
            (*h).magic = ALIVE;
            (*h).class = c as u32;
            (*h).size = l.size();
            (*h).align = l.align();
            (*h).next = std::ptr::null_mut();
            if big_align {
                return p; // never recycled, see free
            }
            if zero {
                std::ptr::write_bytes(p, 0, l.size());
            } else {
                std::ptr::write_bytes(p, 0xA5, l.size().min(self.poison_max));
            }
            std::ptr::write_bytes(p.add(l.size()), 0xFC, (sz - l.size()).min(16));
            self.live_bytes += l.size();
            self.live_blocks += 1;
            self.total += 1;
            p
        }
    }
    unsafe fn free(&mut self, p: *mut u8, l: Layout) {
        unsafe {
            if l.align() > 16 {
                return;
            }
            let h = p.sub(HDR) as *mut Header;
            if (*h).magic == FREED {
                crate::fail!("double-free", "a block of {} bytes was released twice", l.size());
            }
            if (*h).magic != ALIVE || (*h).class as usize >= CLASSES {
                crate::fail!("invalid-free", "released memory that is not an allocated block ({} bytes)", l.size());
            }
            if (*h).size != l.size() || (*h).align != l.align() {
                crate::fail!("invalid-free", "block of {} bytes (align {}) released as {} bytes (align {})",
                    (*h).size, (*h).align, l.size(), l.align());
            }
            let c = (*h).class as usize;
            let sz = class_size(c);
            for i in 0..(sz - l.size()).min(16) {
                if *p.add(l.size() + i) != 0xFC {
                    crate::fail!("heap-overflow", "byte {} behind a block of {} bytes was overwritten", i, l.size());
                }
            }
            std::ptr::write_bytes(p, 0xDD, l.size().min(self.poison_max));
            (*h).magic = FREED;
            self.live_bytes -= l.size();
            self.live_blocks -= 1;
            let ring = &mut self.lists[c];
            if ring.len == 0 {
                (*h).next = std::ptr::null_mut();
                ring.head = h;
                ring.tail = h;
            } else if self.fifo {
                (*h).next = std::ptr::null_mut();
                (*ring.tail).next = h;
                ring.tail = h;
            } else {
                (*h).next = ring.head;
                ring.head = h;
            }
            ring.len += 1;
        }
    }
}

pub struct SimAlloc;

fn in_arena(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if !heap().on {
                return System.alloc(l);
            }
            let g = sched::quiet();
            let p = heap().alloc(l, false);
            drop(g);
            sched::yield_point(sched::Y_ALLOC);
            p
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe {
            if !heap().on {
                return System.alloc_zeroed(l);
            }
            let g = sched::quiet();
            let p = heap().alloc(l, true);
            drop(g);
            sched::yield_point(sched::Y_ALLOC);
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if !in_arena(p) {
                return System.dealloc(p, l);
            }
            let g = sched::quiet();
            heap().free(p, l);
            drop(g);
            sched::yield_point(sched::Y_FREE);
        }
    }
}
