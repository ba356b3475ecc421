//! One simulated run: its choices, clock, event log, statistics and verdict.

use super::alloc::{self, Used};
use super::seam;
use super::src::{mix, Src};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Fail {
    /// Stable name of the kind of violation (kept the same by minimisation).
    pub class: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Fail { class: class.to_string(), msg: msg.into() })
}

pub struct Ctx {
    pub src: Src,
    /// Simulated time in microseconds.
    pub now: u64,
    hash: u64,
    trace: Option<Vec<String>>,
    buf: String,
    stats: Vec<(&'static str, u64)>,
    pub states: HashSet<u64>,
    pub steps: u64,

    /// Faults fired and other reasons that make the run non-trivial.
    pub nontrivial: bool,
    pub sut_calls: u64,
    /// How many microseconds pass for the code under test in one of ours.
    pub pace: u64,
    pub skewed: bool,
    /// How gen::cut cuts in this run, once it has been asked.
    pub cut_style: Option<u8>,
}

const TRACE_CAP: usize = 4000;

impl Ctx {
    pub fn new(mut src: Src, tracing: bool) -> Ctx {
        let pace = [1, 1, 1, 1000, 100_000, 1_000_000][src.below(6)];
        let skewed = src.below(8) == 7;
        Ctx {
            pace, skewed, cut_style: None,
            src, now: 0, hash: 0x1234_5678_9abc_def0, trace: if tracing { Some(Vec::new()) } else { None },
            buf: String::new(), stats: Vec::with_capacity(48), states: HashSet::new(), steps: 0,
            nontrivial: false, sut_calls: 0,
        }
    }
    pub fn ev(&mut self, args: std::fmt::Arguments) {
        use std::fmt::Write;
        self.buf.clear();
        let _ = self.buf.write_fmt(args);
        let mut h = self.hash ^ self.now;
        for c in self.buf.as_bytes().chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            h = (h.rotate_left(23) ^ u64::from_le_bytes(x)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        self.hash = h ^ (h >> 29);
        if let Some(t) = &mut self.trace {
            if t.len() < TRACE_CAP {
                t.push(format!("t={}us {}", self.now, self.buf));
            }
        }
    }
    /// Simulated time as the code under test would see it.
    pub fn sut_time(&self) -> u64 { self.now.saturating_mul(self.pace).min(1 << 60) }
    pub fn log_hash(&self) -> u64 { mix(self.hash, self.now) }
    pub fn take_trace(&mut self) -> Vec<String> { self.trace.take().unwrap_or_default() }

    pub fn count(&mut self, key: &'static str) { self.add(key, 1) }
    pub fn add(&mut self, key: &'static str, n: u64) {
        for s in self.stats.iter_mut() {
            if std::ptr::eq(s.0, key) || s.0 == key { s.1 += n; return; }
        }
        self.stats.push((key, n));
    }
    /// A fault that really fired (key starts with "fault:").
    pub fn fault(&mut self, key: &'static str) {
        self.nontrivial = true;
        self.add(key, 1);
    }
    pub fn stats(&self) -> &[(&'static str, u64)] { &self.stats }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 256 { self.states.insert(h); }
    }
    /// Calls the code under test: a panic in it is a violation.
    pub fn sut<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R<T> {
        self.sut_m(what, f).map(|x| x.0)
    }
    pub fn sut_m<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R<(T, Used)> {
        self.sut_calls += 1;
        seam::set_clock(seam::Clock { us: self.sut_time(), skewed: self.skewed });
        match guard(|| alloc::measure(f)) {
            Ok(v) => Ok(v),
            Err(p) => fail("panic", format!("{} panicked: {}", what, p)),
        }
    }
}

#[macro_export]
macro_rules! ev {
    ($ctx:expr, $($arg:tt)*) => { $ctx.ev(format_args!($($arg)*)) };
}

thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "?".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} ({})", msg, loc);
        if IN_SUT.with(|x| x.get()) > 0 {
            LAST_PANIC.with(|p| *p.borrow_mut() = text);
        } else {
            eprintln!("HARNESS PANIC: {}", text);
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("harness: {}", text));
        }
    }));
}

/// Is this thread inside the code under test?
pub fn in_sut() -> bool { IN_SUT.try_with(|x| x.get() > 0).unwrap_or(false) }

/// What the last panic on this thread said.
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }

/// Runs code under test, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|x| x.set(x.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|x| x.set(x.get() - 1));
    r.map_err(|_| {
        let hook = alloc::hook();
        alloc::set_hook(None);
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        alloc::set_hook(hook);
        m
    })
}

pub fn hex(b: &[u8]) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let n = b.len().min(48);
    for x in &b[..n] { let _ = write!(s, "{:02x}", x); }
    if b.len() > n { let _ = write!(s, "..({} octets, fnv {:x})", b.len(), super::src::fnv(b)); }
    s
}

/// Short printable form of a string of octets.
pub fn show(b: &[u8]) -> String {
    if b.len() <= 40 && b.iter().all(|c| (32..127).contains(c)) {
        format!("\"{}\"", String::from_utf8_lossy(b))
    } else {
        format!("0x{}", hex(b))
    }
}
