//! The allocator seam. Counts live and peak bytes per thread, refuses absurd
//! requests made by the code under test (so that a runaway allocation ends
//! that run, not the sandbox), and offers every allocation made by the code
//! under test as a pre-emption point to the thread simulator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(isize::MAX) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static HOOK: Cell<Option<fn()>> = const { Cell::new(None) };
    static POISON: Cell<u8> = const { Cell::new(0) };
}

/// What fresh and freed memory of this thread is filled with (0: left alone).
/// While it is set no block grows in place.
pub fn set_poison(b: u8) { POISON.with(|p| p.set(b)) }
fn poison() -> u8 { POISON.try_with(|p| p.get()).unwrap_or(0) }

pub struct Counting;

#[inline]
fn add(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > LIMIT.with(|x| x.get()) { return false; }
        l.set(v);
        PEAK.with(|p| if v > p.get() { p.set(v) });
        true
    }).unwrap_or(true)
}

#[inline]
fn yield_point() {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    if let Ok(Some(f)) = HOOK.try_with(|h| h.get()) { f(); }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        yield_point();
        if !add(l.size() as isize) { return std::ptr::null_mut(); }
        let p = System.alloc(l);
        let b = poison();
        if b != 0 && !p.is_null() { p.write_bytes(b, l.size()); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        yield_point();
        if !add(l.size() as isize) { return std::ptr::null_mut(); }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as isize));
        let b = poison();
        if b != 0 { p.write_bytes(!b, l.size()); }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        yield_point();
        if !add(n as isize - l.size() as isize) { return std::ptr::null_mut(); }
        let b = poison();
        if b != 0 {
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                q.write_bytes(b, n);
                q.copy_from_nonoverlapping(p, n.min(l.size()));
                p.write_bytes(!b, l.size());
                System.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

pub fn live() -> isize { LIVE.with(|l| l.get()) }
pub fn set_hook(f: Option<fn()>) { HOOK.with(|h| h.set(f)) }
pub fn hook() -> Option<fn()> { HOOK.with(|h| h.get()) }

/// Bytes the code under test may have live at once inside one call.
pub const SUT_CAP: isize = 1 << 30;

#[derive(Clone, Copy, Default, Debug)]
pub struct Used {
    /// Highest number of bytes allocated above the level at entry.
    pub peak: isize,
    /// Bytes still allocated at exit above the level at entry.
    pub net: isize,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Used) {
    let base = live();
    let old_peak = PEAK.with(|p| p.replace(base));
    let old_lim = LIMIT.with(|p| p.replace(base + SUT_CAP));
    struct Restore(isize, isize);
    impl Drop for Restore {
        fn drop(&mut self) {
            LIMIT.with(|p| p.set(self.1));
            PEAK.with(|p| if p.get() < self.0 { p.set(self.0) });
        }
    }
    let r = Restore(old_peak, old_lim);
    let v = f();
    let used = Used { peak: PEAK.with(|p| p.get()) - base, net: live() - base };
    drop(r);
    (v, used)
}
