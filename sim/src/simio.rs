//! Simulated readers and writers for the library's stream arguments.
use crate::core::{chance, draw, fault, probe, range, F};
use crate::ev;
use crate::os::Gap;
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

pub const ERR_KINDS: [ErrorKind; 9] = [
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::TimedOut,
    ErrorKind::InvalidData, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::WriteZero,
];

fn intr() -> io::Error {
    // both forms an interruption can take
    if chance(1, 2) { ErrorKind::Interrupted.into() } else { io::Error::from_raw_os_error(4) }
}

/// Many interruptions in a row, at most once per object.
#[derive(Default)]
pub struct Storm {
    left: u32,
    done: bool,
}
impl Storm {
    /// An interruption happens; a long series may follow.
    pub fn start(&mut self) {
        if !self.done && chance(1, 40) {
            self.done = true;
            self.left = 2 + draw(1 << draw(13));
            probe("interruption_storm");
        }
    }
    pub fn blows(&mut self) -> bool {
        self.left = self.left.saturating_sub(1);
        self.left != 0
    }
}

/// How a reader delivers its bytes.
#[derive(Clone, Copy, Default, Debug)]
pub struct RPlan {
    /// 1-in-n chance of an interruption before a read; 0 = never.
    pub intr: u32,
    /// 1-in-n chance that a read returns less than asked for.
    pub short: u32,
    /// Fails once this many bytes were delivered.
    pub fail_at: Option<usize>,
    /// Fails only once, and delivers the rest when asked again.
    pub once: bool,
    /// Panics once this many bytes were delivered.
    pub panic_at: Option<usize>,
    /// An interruption comes right before the failure.
    pub intr_before: bool,
}
#[derive(Default, Debug, Clone)]
pub struct RLog {
    pub reads: u64,
    pub delivered: usize,
    pub failed: bool,
    pub after_fail: u32,
    pub eofs: u32,
}
pub struct SimReader {
    data: Rc<Vec<u8>>,
    plan: RPlan,
    streak: u32,
    storm: Storm,
    gaps: [Gap; 2],
    log: Rc<RefCell<RLog>>,
    hooks: Vec<(usize, Box<dyn FnMut()>)>,
}
impl SimReader {
    pub fn new(data: &[u8], plan: RPlan) -> (SimReader, Rc<RefCell<RLog>>) {
        let log = Rc::new(RefCell::new(RLog::default()));
        (SimReader { data: Rc::new(data.to_vec()), plan, streak: 0, storm: Storm::default(), gaps: Default::default(), log: log.clone(), hooks: vec![] }, log)
    }
    /// Calls `f` in the read that delivers the byte at `at`.
    pub fn hook(&mut self, at: usize, f: Box<dyn FnMut()>) {
        self.hooks.push((at, f));
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let at = self.log.borrow().delivered;
        let limit = 64 * (self.data.len() as u64 + 64) + 10_000;
        let mut l = self.log.borrow_mut();
        l.reads += 1;
        if l.reads > limit {
            crate::fail!("hang", "the reader was asked {} times for {} bytes", limit, self.data.len());
        }
        if l.failed {
            l.after_fail += 1;
        }
        drop(l);
        if self.plan.panic_at == Some(at) {
            fault(F::PanicReader);
            ev!("reader panics at {at}");
            self.plan.panic_at = None;
            panic!("the reader gives up");
        }
        let fail_now = self.plan.fail_at == Some(at);
        if fail_now && self.plan.intr_before && !self.log.borrow().failed {
            self.plan.intr_before = false;
            fault(F::IntrRead);
            return Err(intr());
        }
        if self.storm.blows() {
            return Err(ErrorKind::Interrupted.into());
        }
        if !fail_now && self.streak < 4 && self.gaps[0].hit(self.plan.intr) {
            self.streak += 1;
            self.storm.start();
            fault(F::IntrRead);
            ev!("read at {at}: interrupted");
            return Err(intr());
        }
        self.streak = 0;
        if fail_now {
            let k = ERR_KINDS[draw(ERR_KINDS.len() as u32) as usize];
            let e = if chance(1, 3) { io::Error::from_raw_os_error(5) } else { io::Error::new(k, "simulated failure") };
            if !self.log.borrow().failed {
                fault(F::HardRead);
            }
            ev!("read at {at}: fails {k:?}");
            self.log.borrow_mut().failed = true;
            if self.plan.once {
                self.plan.fail_at = None;
            }
            return Err(e);
        }
        for i in 0..self.hooks.len() {
            if self.hooks[i].0 <= at && at < self.data.len() || self.hooks[i].0 == at {
                let (_, mut f) = self.hooks.remove(i);
                f();
                break;
            }
        }
        let mut n = buf.len().min(self.data.len() - at);
        if let Some(f) = self.plan.fail_at {
            n = n.min(f - at);
        }
        if let Some(f) = self.plan.panic_at {
            n = n.min(f - at);
        }
        if n > 1 && self.gaps[1].hit(self.plan.short) {
            n = range(1, n as u32 - 1) as usize;
            fault(F::ShortRead);
        }
        if n == 0 && !buf.is_empty() {
            let mut l = self.log.borrow_mut();
            l.eofs += 1;
            if l.eofs > 1 {
                fault(F::EofAgain);
            }
        }
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.log.borrow_mut().delivered += n;
        if n > 1 {
            ev!("read at {at}: {n}");
        }
        Ok(n)
    }
}

/// How a sink accepts its bytes.
#[derive(Clone, Copy, Default, Debug)]
pub struct WPlan {
    pub intr: u32,
    pub short: u32,
    /// Fails (or accepts nothing, or panics) once this many bytes were accepted.
    pub stop_at: Option<usize>,
    /// 0 error, 1 accepts zero bytes, 2 panic
    pub stop: u32,
    pub flush_fail: bool,
    /// The failure happens only once.
    pub transient: bool,
    /// Accepts at most this many bytes per call; 0 = any number.
    pub chunk: usize,
}
#[derive(Default, Debug, Clone)]
pub struct WLog {
    pub got: Vec<u8>,
    pub writes: u64,
    pub stopped: bool,
    pub after_stop: u64,
    pub flushes: u32,
    pub flush_failed: bool,
}
pub struct SimWriter {
    plan: WPlan,
    next: Rc<Cell<Option<WPlan>>>,
    streak: u32,
    storm: Storm,
    gaps: [Gap; 2],
    log: Rc<RefCell<WLog>>,
}
impl SimWriter {
    pub fn new(plan: WPlan) -> (SimWriter, Rc<RefCell<WLog>>) {
        let log = Rc::new(RefCell::new(WLog::default()));
        (SimWriter { plan, next: Default::default(), streak: 0, storm: Storm::default(), gaps: Default::default(), log: log.clone() }, log)
    }
    /// A handle to change the plan while the writer is in use.
    pub fn control(&self) -> Rc<Cell<Option<WPlan>>> {
        self.next.clone()
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(p) = self.next.take() {
            self.plan = p;
            self.gaps = Default::default();
            self.streak = 0;
        }
        let mut l = self.log.borrow_mut();
        l.writes += 1;
        if l.writes > 4_000_000 {
            crate::fail!("hang", "the sink was written to {} times", l.writes);
        }
        if l.stopped {
            l.after_stop += 1;
        }
        let at = l.got.len();
        if buf.is_empty() {
            return Ok(0);
        }
        let stop = self.plan.stop_at.is_some_and(|s| at >= s);
        if self.storm.blows() {
            return Err(ErrorKind::Interrupted.into());
        }
        if !stop && self.streak < 4 && self.gaps[0].hit(self.plan.intr) {
            self.streak += 1;
            self.storm.start();
            fault(F::IntrWrite);
            return Err(intr());
        }
        self.streak = 0;
        if stop {
            if !l.stopped {
                ev!("sink stops at {at}");
            }
            l.stopped = true;
            if self.plan.transient {
                self.plan.stop_at = None;
            }
            match self.plan.stop {
                0 => {
                    fault(F::HardWrite);
                    let k = ERR_KINDS[draw(ERR_KINDS.len() as u32) as usize];
                    return Err(io::Error::new(k, "simulated failure"));
                }
                1 => {
                    fault(F::ZeroWrite);
                    return Ok(0);
                }
                _ => {
                    fault(F::PanicSink);
                    drop(l);
                    panic!("the sink gives up");
                }
            }
        }
        let mut n = buf.len();
        if self.plan.chunk != 0 {
            n = n.min(self.plan.chunk);
        }
        if let Some(s) = self.plan.stop_at {
            n = n.min(s - at);
        }
        if n > 1 && self.gaps[1].hit(self.plan.short) {
            n = range(1, n as u32 - 1) as usize;
        }
        if n < buf.len() {
            fault(F::ShortWrite);
        }
        l.got.extend_from_slice(&buf[..n]);
        ev!("write {} -> {n}", buf.len());
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut l = self.log.borrow_mut();
        l.flushes += 1;
        if self.plan.flush_fail {
            l.flush_failed = true;
            fault(F::FlushFail);
            return Err(io::Error::new(ErrorKind::Other, "flush fails"));
        }
        Ok(())
    }
}
