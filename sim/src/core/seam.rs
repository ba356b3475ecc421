//! Clocks and process randomness as the code under test sees them. The crates
//! use neither today; if a change makes them, what they read is simulated:
//! inside a call to the code under test the clocks show the run's simulated
//! time (with the run's pace and skew), and random bytes come from a fixed
//! sequence, so that a run stays repeatable. Everywhere else the real clocks
//! are read.

use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy)]
pub struct Clock {
    /// Microseconds since the run began, as seen by the code under test.
    pub us: u64,
    /// The wall clock jumps back and forth by an hour.
    pub skewed: bool,
}

thread_local! {
    static CLOCK: Cell<Clock> = const { Cell::new(Clock { us: 0, skewed: false }) };
    static READS: Cell<u64> = const { Cell::new(0) };
}
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static RANDOM_READS: AtomicU64 = AtomicU64::new(0);
static SALT: AtomicU64 = AtomicU64::new(0x5eed_0000_0000_0000);

/// Another sequence of random bytes from here on.
pub fn salt(s: u64) { SALT.store(s, Ordering::Relaxed) }

pub fn set_clock(c: Clock) { CLOCK.with(|x| x.set(c)); READS.with(|x| x.set(0)); }
/// How often the code under test looked at a clock, and how often anything
/// asked for random bytes.
pub fn reads() -> (u64, u64) { (CLOCK_READS.load(Ordering::Relaxed), RANDOM_READS.load(Ordering::Relaxed)) }

extern "C" { fn syscall(n: i64, ...) -> i64; }
const SYS_CLOCK_GETTIME: i64 = 228;

/// Overrides the C library's for everything linked into this program.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    // 0 real time, 1 monotonic, 4 to 7 raw, coarse and boot time
    if matches!(id, 0 | 1 | 4 | 5 | 6 | 7) && super::ctx::in_sut() {
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        let c = CLOCK.try_with(|x| x.get()).unwrap_or(Clock { us: 0, skewed: false });
        let n = READS.try_with(|x| { x.set(x.get() + 1); x.get() }).unwrap_or(0);
        let us = c.us + n;
        let wall = matches!(id, 0 | 5);
        let back = if wall && c.skewed && (c.us >> 8) & 1 == 1 { 3600 } else { 0 };
        let base: i64 = if wall { 1_700_000_000 } else { 1_000_000 };
        (*ts)[0] = base + (us / 1_000_000) as i64 - back;
        (*ts)[1] = (us % 1_000_000) as i64 * 1000;
        return 0;
    }
    syscall(SYS_CLOCK_GETTIME, id as i64, ts) as i32
}

/// Overrides the C library's: the standard library seeds its hash maps here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let n = RANDOM_READS.fetch_add(1, Ordering::Relaxed);
    let mut x = SALT.load(Ordering::Relaxed) ^ n;
    for i in 0..len {
        if i % 8 == 0 { super::src::splitmix(&mut x); }
        let mut y = x;
        *buf.add(i) = (super::src::splitmix(&mut y) >> (8 * (i % 8))) as u8;
    }
    len as isize
}

thread_local! { static SET_ALL: Cell<bool> = const { Cell::new(false) }; }
static ENV_READS: AtomicU64 = AtomicU64::new(0);

/// Every environment variable the code under test asks for is set.
pub fn set_all_variables(on: bool) { SET_ALL.with(|x| x.set(on)) }

extern "C" { static environ: *const *const u8; }

/// Overrides the C library's.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if super::ctx::in_sut() {
        ENV_READS.fetch_add(1, Ordering::Relaxed);
        if SET_ALL.try_with(|x| x.get()).unwrap_or(false) { return b"1\0".as_ptr(); }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let (mut a, mut b) = (name, *e);
        while *a != 0 && *a == *b { a = a.add(1); b = b.add(1); }
        if *a == 0 && *b == b'=' { return b.add(1); }
        e = e.add(1);
    }
    std::ptr::null()
}

thread_local! { static OTHER_MACHINE: Cell<u32> = const { Cell::new(0) }; }

/// The code under test finds itself on a machine with that many processors
/// and as another process and user (0: as it is).
pub fn other_machine(cpus: u32) { OTHER_MACHINE.with(|x| x.set(cpus)) }
fn elsewhere() -> Option<u32> {
    if !super::ctx::in_sut() { return None; }
    OTHER_MACHINE.try_with(|x| x.get()).ok().filter(|n| *n > 0)
}

/// Overrides the C library's.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> i32 {
    std::ptr::write_bytes(mask, 0, size);
    if let Some(n) = elsewhere() {
        for k in 0..(n as usize).min(size * 8) { *mask.add(k / 8) |= 1 << (k % 8); }
        return 0;
    }
    // 204: sched_getaffinity
    if syscall(204, pid as i64, size, mask) < 0 { -1 } else { 0 }
}
/// Overrides the C library's.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 { if let Some(n) = elsewhere() { return n as i32; } syscall(39) as i32 }
/// Overrides the C library's.
#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 { if let Some(n) = elsewhere() { return 1000 + n; } syscall(102) as u32 }
/// Overrides the C library's.
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if elsewhere().is_some() { return 1; }
    let mut t = [0u64; 16];
    // ioctl TCGETS
    (syscall(16, fd as i64, 0x5401i64, t.as_mut_ptr()) == 0) as i32
}

/// Does the interposition work in this build? Called once per process.
pub fn selftest() -> Result<(), String> {
    use std::hash::{BuildHasher, Hasher};
    let t = super::ctx::guard(|| { set_clock(Clock { us: 5_000_000, skewed: false }); (std::time::Instant::now(), std::time::SystemTime::now()) }).map_err(|_| "panic")?;
    let u = super::ctx::guard(|| { set_clock(Clock { us: 65_000_000, skewed: false }); (std::time::Instant::now(), std::time::SystemTime::now()) }).map_err(|_| "panic")?;
    set_clock(Clock { us: 0, skewed: false });
    let d = u.0.duration_since(t.0).as_secs();
    let e = u.1.duration_since(t.1).map(|x| x.as_secs()).unwrap_or(0);
    if d != 60 || e != 60 { return Err(format!("the simulated clocks moved {} s and {} s instead of 60 s", d, e)); }
    let before = reads().1;
    let h = std::thread::spawn(|| std::collections::hash_map::RandomState::new().build_hasher().finish()).join();
    if h.is_err() || reads().1 == before { return Err("hash maps are not seeded through the simulated random source".into()); }
    set_all_variables(true);
    let v = super::ctx::guard(|| std::env::var("HTTLIB_SELFTEST"));
    set_all_variables(false);
    if v != Ok(Ok("1".into())) { return Err("environment variables are not simulated".into()); }
    other_machine(3);
    let m = super::ctx::guard(|| (std::thread::available_parallelism().map(|x| x.get()).unwrap_or(0), std::process::id()));
    other_machine(0);
    // (a quota of the container may allow fewer)
    if !matches!(m, Ok((1..=3, 3))) { return Err(format!("the machine is not simulated: {:?}", m.ok())); }
    CLOCK_READS.store(0, Ordering::Relaxed);
    Ok(())
}
