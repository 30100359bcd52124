//! Monitors at the boundary of the code under test: readers and writers that
//! log and perturb I/O, panic capture, memory accounting.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::io;
use std::io::{Read, Write};
use std::panic;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

use crate::rng::Rng;

// ---- memory ----

pub struct Alloc;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

fn took(n: usize) -> bool {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > CAP.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(live, Relaxed);
    true
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !took(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !took(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !took(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n < l.size() {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

pub fn set_cap(bytes: usize) {
    CAP.store(bytes, Relaxed);
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}

/// Extra memory in use at the worst moment of `f`
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed) - base)
}

// ---- panics ----

thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    static THEIRS: Cell<bool> = const { Cell::new(false) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    let old = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        // the harness is built from src/, the code under test from <repo>/lib/src/
        let theirs = info.location().map_or(false, |l| l.file().contains("/lib/src/") && !l.file().contains("/library/"));
        THEIRS.with(|t| t.set(theirs));
        if theirs || IN_SUT.with(|c| c.get()) > 0 {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let at = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let mut msg = msg.replace('\n', " ");
            if msg.len() > 300 {
                let mut k = 300;
                while !msg.is_char_boundary(k) {
                    k -= 1;
                }
                msg.truncate(k);
            }
            LAST.with(|l| *l.borrow_mut() = format!("{} at {}", msg, at));
        } else {
            old(info)
        }
    }));
}

/// Run code under test; a panic becomes an error message.
pub fn sut<T>(op: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|c| c.set(c.get() + 1));
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(c.get() - 1));
    r.map_err(|_| format!("{} panicked: {}", op, LAST.with(|l| l.borrow().clone())))
}

/// Run a case; a panic in the code under test fails it, wherever it was called.
pub fn guarded(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) if THEIRS.with(|t| t.get()) => Err(format!("panicked: {}", LAST.with(|l| l.borrow().clone()))),
        Err(e) => panic::resume_unwind(e),
    }
}

// ---- readers ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Chunk {
    Whole,
    One,
    /// up to so many bytes per call
    Upto(usize),
}

#[derive(Clone, Copy, Debug)]
pub struct IoPlan {
    pub chunk: Chunk,
    /// interrupted calls per 256
    pub interrupt: usize,
    /// fail once this many bytes went through
    pub fault_at: Option<usize>,
    /// fail only once
    pub transient: bool,
    pub kind: io::ErrorKind,
}

impl IoPlan {
    pub fn plain() -> IoPlan {
        IoPlan {
            chunk: Chunk::Whole,
            interrupt: 0,
            fault_at: None,
            transient: false,
            kind: io::ErrorKind::Other,
        }
    }
    pub fn random(r: &mut Rng) -> IoPlan {
        IoPlan {
            chunk: match r.below(4) {
                0 => Chunk::One,
                1 => Chunk::Upto(2),
                2 => Chunk::Upto(r.range(2, 700)),
                _ => Chunk::Whole,
            },
            interrupt: *r.pick(&[0, 0, 20, 120]),
            ..IoPlan::plain()
        }
    }
    pub fn fault(at: usize, r: &mut Rng) -> IoPlan {
        let mut p = IoPlan::random(r);
        p.fault_at = Some(at);
        p.transient = r.chance(1, 2);
        p.kind = *r.pick(&FAULTS);
        p
    }
}

pub const FAULTS: [io::ErrorKind; 7] = [
    // as a decompressor below would report
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
];

#[derive(Default, Clone, Debug)]
pub struct IoLog {
    pub calls: usize,
    pub interrupted: usize,
    pub faults: usize,
    /// calls made after the end of the data was reported
    pub eof: usize,
    pub short: usize,
    pub flushes: usize,
}

pub struct MonReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub plan: IoPlan,
    pub log: IoLog,
    rng: Rng,
}

impl<'a> MonReader<'a> {
    pub fn new(data: &'a [u8]) -> MonReader<'a> {
        MonReader::with(data, IoPlan::plain(), 0)
    }
    pub fn with(data: &'a [u8], plan: IoPlan, seed: u64) -> MonReader<'a> {
        MonReader {
            data,
            pos: 0,
            plan,
            log: IoLog::default(),
            rng: Rng::new(seed),
        }
    }
}

fn allowed(plan: &IoPlan, rng: &mut Rng, want: usize) -> usize {
    match plan.chunk {
        Chunk::Whole => want,
        Chunk::One => want.min(1),
        Chunk::Upto(k) => want.min(rng.range(1, k)),
    }
}

/// Injected faults carry this text, so that it can be recognised.
pub const INJECTED: &str = "injected fault";

impl<'a> Read for MonReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.log.calls += 1;
        if self.plan.interrupt > 0 && self.rng.below(256) < self.plan.interrupt {
            self.log.interrupted += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut lim = self.data.len();
        if let Some(at) = self.plan.fault_at {
            if self.pos >= at && (self.log.faults == 0 || !self.plan.transient) && !buf.is_empty() {
                self.log.faults += 1;
                return Err(io::Error::new(self.plan.kind, INJECTED));
            }
            if self.log.faults == 0 {
                lim = lim.min(at);
            }
        }
        if self.pos >= self.data.len() && !buf.is_empty() {
            self.log.eof += 1;
            return Ok(0);
        }
        let n = buf.len().min(lim - self.pos);
        let k = allowed(&self.plan, &mut self.rng, n);
        if k < n {
            self.log.short += 1;
        }
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
    fn read_vectored(&mut self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
        // as a file does: across as many buffers as there is data for
        let mut all = vec![0; bufs.iter().map(|b| b.len()).sum()];
        let n = self.read(&mut all)?;
        let mut rest = &all[..n];
        for b in bufs {
            let k = b.len().min(rest.len());
            b[..k].copy_from_slice(&rest[..k]);
            rest = &rest[k..];
        }
        Ok(n)
    }
}

pub struct MonWriter {
    pub out: Vec<u8>,
    pub plan: IoPlan,
    pub log: IoLog,
    /// report faults as "wrote nothing" instead of an error
    pub zero: bool,
    pub flush_fails: bool,
    rng: Rng,
}

impl MonWriter {
    pub fn new() -> MonWriter {
        MonWriter::with(IoPlan::plain(), 0)
    }
    pub fn with(plan: IoPlan, seed: u64) -> MonWriter {
        MonWriter {
            out: vec![],
            plan,
            log: IoLog::default(),
            zero: false,
            flush_fails: false,
            rng: Rng::new(seed),
        }
    }
}

impl Write for MonWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.log.calls += 1;
        if self.plan.interrupt > 0 && self.rng.below(256) < self.plan.interrupt {
            self.log.interrupted += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if let Some(at) = self.plan.fault_at {
            if self.out.len() >= at && (self.log.faults == 0 || !self.plan.transient) && n > 0 {
                self.log.faults += 1;
                if self.zero {
                    return Ok(0);
                }
                return Err(io::Error::new(self.plan.kind, INJECTED));
            }
            if self.log.faults == 0 {
                n = n.min(at - self.out.len());
            }
        }
        let k = allowed(&self.plan, &mut self.rng, n);
        if k < buf.len() {
            self.log.short += 1;
        }
        self.out.extend(&buf[..k]);
        Ok(k)
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        self.write(&bufs.iter().flat_map(|b| b.iter().cloned()).collect::<Vec<u8>>())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.log.flushes += 1;
        if self.flush_fails {
            if self.rng.below(3) == 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            return Err(io::Error::new(self.plan.kind, INJECTED));
        }
        Ok(())
    }
}
