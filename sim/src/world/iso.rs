//! Independent sessions over simulated threads (C11). Every session runs once
//! alone in a fresh process and once beside the others, on one to four real
//! threads of which exactly one holds the baton at any time. The schedule of
//! the baton is drawn from the run's choices beforehand.

use super::val::{self, Val, KINDS};
use crate::core::{alloc, runner, seam};
use crate::core::ctx::{fail, guard, hex, Ctx, R};
use crate::core::src::{fnv, mix};
use crate::ev;
use crate::gen;
use httlib_hpack::table::Table;
use httlib_hpack::{Decoder, Encoder};
use httlib_huffman::DecoderSpeed;
use httlib_protos as pb;
use std::cell::Cell;
use std::fs::File;
use std::io::{self, Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- sessions

#[derive(Clone, Debug)]
enum Act {
    // HPACK connection
    HpNew(u32, u32),
    Lit(Vec<u8>, Vec<u8>, u8),
    Idx(u32),
    NameIdx(u32, Vec<u8>, u8),
    Resize(u32),
    Limit(u32),
    Deliver(usize),
    Pull(usize),
    Getters,
    /// many literals with indexing at once, delivered at once
    LitMany(u32, usize, u8),
    /// many short-lived encoders and decoders
    HpChurn(u32),
    // public table
    TabNew(u32),
    TabInsert(Vec<u8>, Vec<u8>),
    TabGet(u32),
    TabFind(Vec<u8>, Vec<u8>),
    TabResize(u32),
    TabMany(u32, usize),
    // Huffman
    HufEncode(Vec<u8>),
    HufDecode(usize),
    HufDamage(usize, u8),
    // Protocol Buffers
    PbNew,
    PbEncode(u32, Box<Val>, usize),
    PbDeliver(usize),
    PbConvert(usize),
    PbValue(usize, Vec<u8>),
    PbJunk(Vec<u8>),
    PbMany(u32, usize),
    // octets from elsewhere, or damage, on the way to a decoder
    Inject(Vec<u8>),
    Damage(usize, u8),
}

#[derive(Default)]
struct State {
    enc: Option<Encoder<'static>>,
    dec: Option<Decoder<'static>>,
    table: Option<Table<'static>>,
    pdec: Option<pb::Decoder>,
    wire: Vec<u8>,
    buf: Vec<u8>,
    lit: Vec<u8>,
    last: Vec<u8>,
}

/// Sessions travel between threads whole; whether their types allow it is
/// checked separately.
struct Travel(State);
unsafe impl Send for Travel {}

struct Pipe<'a> { to: &'a mut Vec<u8>, at_once: usize }
impl Write for Pipe<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        preempt();
        let n = b.len().min(self.at_once);
        self.to.extend_from_slice(&b[..n]);
        preempt();
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.write(&all)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn fields(d: &[(Vec<u8>, Vec<u8>, u8)]) -> String {
    let mut h = 0;
    for f in d { h = mix(h, mix(fnv(&f.0), mix(fnv(&f.1), f.2 as u64))); }
    let first = d.first().map(|f| format!(" first {}={}/{:x}", hex(&f.0), hex(&f.1), f.2)).unwrap_or_default();
    format!("{} fields {:x}{}", d.len(), h, first)
}

/// Performs one call of a session and says what it observed.
fn perform(s: &mut State, a: &Act) -> String {
    // what the code under test returned is described with pre-emption off
    fn quiet<T>(f: impl FnOnce() -> T) -> T {
        let h = alloc::hook();
        alloc::set_hook(None);
        let r = f();
        alloc::set_hook(h);
        r
    }
    match a {
        Act::HpNew(e, d) => {
            s.enc = Some(if *e == 4096 { Encoder::default() } else { Encoder::with_dynamic_size(*e) });
            s.dec = Some(if *d == 4096 { Decoder::default() } else { Decoder::with_dynamic_size(*d) });
            String::new()
        }
        Act::Lit(..) | Act::Idx(_) | Act::NameIdx(..) => {
            let e = s.enc.as_mut().expect("encoder");
            let at = s.wire.len();
            let r = match a {
                Act::Lit(n, v, f) => { let x = quiet(|| (n.clone(), v.clone(), *f)); e.encode(x, &mut s.wire) }
                Act::Idx(i) => e.encode(*i, &mut s.wire),
                Act::NameIdx(i, v, f) => { let x = quiet(|| (*i, v.clone(), *f)); e.encode(x, &mut s.wire) }
                _ => Ok(()),
            };
            quiet(|| format!("{:?} {}", r, hex(s.wire.get(at..).unwrap_or(&[]))))
        }
        Act::Resize(n) => {
            let at = s.wire.len();
            let r = s.enc.as_mut().expect("encoder").update_max_dynamic_size(*n, &mut s.wire);
            quiet(|| format!("{:?} {}", r, hex(s.wire.get(at..).unwrap_or(&[]))))
        }
        Act::Limit(n) => { s.dec.as_mut().expect("decoder").set_max_dynamic_size(*n); String::new() }
        Act::Deliver(k) | Act::Pull(k) => {
            let pull = matches!(a, Act::Pull(_));
            quiet(|| { let n = if pull { s.wire.len() } else { (*k).min(s.wire.len()) }; s.buf.extend(s.wire.drain(..n)); });
            let d = s.dec.as_mut().expect("decoder");
            let mut out = quiet(|| if pull { Vec::with_capacity(*k) } else { Vec::new() });
            let r = if pull { d.decode_exact(&mut s.buf, &mut out) } else { d.decode(&mut s.buf, &mut out) };
            quiet(|| {
                let t = format!("{:?} {} left {} {:x}", r, fields(&out), s.buf.len(), fnv(&s.buf));
                if let Err(e) = &r { if *e != httlib_hpack::DecoderError::IntegerUnderflow { s.buf.clear(); s.wire.clear(); } }
                drop(out);
                t
            })
        }
        Act::Getters => {
            let a = s.enc.as_mut().expect("encoder").max_dynamic_size();
            let b = s.dec.as_ref().expect("decoder").max_dynamic_size();
            quiet(|| format!("{} {}", a, b))
        }
        Act::LitMany(n, len, f) => {
            let e = s.enc.as_mut().expect("encoder");
            let at = s.wire.len();
            let mut bad = 0;
            for i in 0..*n {
                let (name, value) = quiet(|| (format!("m{}", i % 7).into_bytes(), format!("{:0w$}", i, w = *len).into_bytes()));
                bad += e.encode((name, value, *f), &mut s.wire).is_err() as u32;
            }
            quiet(|| format!("{} refused, {} octets {:x}", bad, s.wire.len() - at, fnv(&s.wire[at..])))
        }
        Act::HpChurn(n) => {
            let mut h = 0;
            for i in 0..*n {
                let mut e = Encoder::default();
                let mut d = Decoder::default();
                let mut w = vec![];
                let a = e.encode(quiet(|| (format!("c{}", i % 5).into_bytes(), b"value".to_vec(), 0x4u8)), &mut w).is_ok();
                let b = e.encode(62u32, &mut w).is_ok();
                let mut out = vec![];
                let r = d.decode(&mut w, &mut out);
                quiet(|| { h = mix(h, fnv(format!("{} {} {:?} {}", a, b, r, fields(&out)).as_bytes())); drop(out); });
            }
            quiet(|| format!("{:x}", h))
        }
        Act::TabMany(n, len) => {
            let t = s.table.as_mut().expect("table");
            for i in 0..*n {
                let (name, value) = quiet(|| (format!("m{}", i % 7).into_bytes(), format!("{:0w$}", i, w = *len).into_bytes()));
                t.insert(name, value);
            }
            quiet(|| format!("{} {} {}", t.len(), t.dynamic_size(), t.max_dynamic_size()))
        }
        Act::PbMany(n, len) => {
            let at = s.wire.len();
            let mut bad = 0;
            for i in 0..*n {
                let v = quiet(|| vec![i as u8; *len]);
                bad += pb::Encoder::default().encode((&(1 + i % 3000), &v), &mut s.wire).is_err() as u32;
            }
            quiet(|| format!("{} refused, {} octets {:x}", bad, s.wire.len() - at, fnv(&s.wire[at..])))
        }
        Act::TabNew(n) => { s.table = Some(if *n == 4096 { Table::default() } else { Table::with_dynamic_size(*n) }); String::new() }
        Act::TabInsert(n, v) => {
            let t = s.table.as_mut().expect("table");
            let (n, v) = quiet(|| (n.clone(), v.clone()));
            t.insert(n, v);
            quiet(|| format!("{} {} {}", t.len(), t.dynamic_size(), t.max_dynamic_size()))
        }
        Act::TabGet(i) => {
            let r = s.table.as_ref().expect("table").get(*i);
            quiet(|| r.map(|x| format!("{}={}", hex(x.0), hex(x.1))).unwrap_or_default())
        }
        Act::TabFind(n, v) => { let r = s.table.as_ref().expect("table").find(n, v); quiet(|| format!("{:?}", r)) }
        Act::TabResize(n) => {
            let t = s.table.as_mut().expect("table");
            t.update_max_dynamic_size(*n);
            quiet(|| format!("{} {} {}", t.dynamic_len(), t.dynamic_size(), t.max_dynamic_size()))
        }
        Act::HufEncode(t) => {
            let mut out = vec![];
            let r = httlib_huffman::encode(t, &mut out);
            quiet(|| { let x = format!("{:?} {}", r, hex(&out)); s.lit = out; x })
        }
        Act::HufDamage(i, m) => { if !s.lit.is_empty() { let k = *i % s.lit.len(); s.lit[k] ^= *m; } String::new() }
        Act::HufDecode(k) => {
            let speed = [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits][*k % 5];
            let mut out = vec![];
            let r = httlib_huffman::decode(&s.lit, &mut out, speed);
            quiet(|| { let x = if r.is_ok() { format!("Ok {}", hex(&out)) } else { format!("{:?}", r) }; drop(out); x })
        }
        Act::PbNew => { s.pdec = Some(pb::Decoder::default()); s.buf.clear(); String::new() }
        Act::PbEncode(t, v, k) => {
            let at = s.wire.len();
            let mut w = Pipe { to: &mut s.wire, at_once: *k };
            let r = v.encode(*t, &mut w);
            quiet(|| format!("{:?} {}", r, hex(s.wire.get(at..).unwrap_or(&[]))))
        }
        Act::Damage(i, m) => { if !s.wire.is_empty() { let k = *i % s.wire.len(); s.wire[k] ^= *m; } String::new() }
        Act::PbJunk(b) | Act::Inject(b) => { quiet(|| s.wire.extend_from_slice(b)); String::new() }
        Act::PbDeliver(k) => {
            quiet(|| { let n = (*k).min(s.wire.len()); s.buf.extend(s.wire.drain(..n)); });
            let mut out = vec![];
            let r = s.pdec.as_mut().expect("decoder").decode(&mut s.buf, &mut out);
            quiet(|| {
                let mut h = 0;
                for f in &out { h = mix(h, mix(f.0 as u64, mix(fnv(&f.2), fnv(format!("{:?}", f.1).as_bytes())))); }
                let t = format!("{:?} {} fields {:x} left {} {:x}", r, out.len(), h, s.buf.len(), fnv(&s.buf));
                if let Some(f) = out.last() { s.last = f.2.clone(); }
                if r.is_err() { s.buf.clear(); s.pdec = Some(pb::Decoder::default()); }
                drop(out);
                t
            })
        }
        Act::PbConvert(kind) => { let o = quiet(|| s.last.clone()); let n = val::digest(*kind, o); quiet(|| format!("{:x}", n)) }
        Act::PbValue(kind, o) => { let o = quiet(|| o.clone()); let n = val::digest(*kind, o); quiet(|| format!("{:x}", n)) }
    }
}

fn show_act(a: &Act) -> String {
    let t = format!("{:?}", a);
    if t.len() > 160 { format!("{}... ({} characters, {:x})", t.chars().take(140).collect::<String>(), t.len(), fnv(t.as_bytes())) } else { t }
}

/// A script made without looking at any state, so that it can be run anywhere.
fn script(ctx: &mut Ctx, p: &gen::Profile, kind: usize) -> Vec<Act> {
    let n = 3 + ctx.src.below(14);
    let mut v = vec![];
    let small = |mut b: Vec<u8>| { b.truncate(600); b };
    match kind {
        0 => {
            let e = gen::initial(ctx);
            let d = if ctx.src.chance(1, 4) { gen::limit(ctx) } else { e };
            v.push(Act::HpNew(e, d));
            for _ in 0..n {
                ctx.src.begin();
                v.push(match ctx.src.weighted(&[60, 30, 20, 10, 10, 50, 10, 10, 20, 10, 10, 2, 1]) {
                    0 => Act::Lit(small(gen::name(ctx, p)), small(gen::value(ctx, p)), super::hp::flags(ctx, p)),
                    1 => Act::Idx(ctx.src.below(72) as u32),
                    2 => Act::NameIdx(ctx.src.below(70) as u32, small(gen::value(ctx, p)), super::hp::flags(ctx, p) & 0xf),
                    3 => Act::Resize(gen::limit(ctx)),
                    4 => Act::Limit(gen::limit(ctx)),
                    5 => Act::Deliver(match ctx.src.below(3) { 0 => usize::MAX, 1 => 1 + ctx.src.below(4), _ => ctx.src.below(60) }),
                    6 => Act::Pull(ctx.src.below(4)),
                    7 => Act::Getters,
                    8 => Act::Inject(foreign(ctx, p)),
                    9 => Act::Damage(ctx.src.below(64), 1 << ctx.src.below(8)),
                    11 => Act::LitMany(1 + ctx.src.below(400) as u32, ctx.src.below(90), 4 | ctx.src.below(4) as u8),
                    12 => Act::HpChurn(1 + ctx.src.below(300) as u32),
                    _ => Act::HpNew(e, d),
                });
                ctx.src.end();
            }
            v.push(Act::Deliver(usize::MAX));
        }
        1 => {
            v.push(Act::TabNew(gen::limit(ctx)));
            for _ in 0..n {
                ctx.src.begin();
                v.push(match ctx.src.weighted(&[40, 30, 30, 10, 2]) {
                    0 => Act::TabInsert(small(gen::name(ctx, p)), small(gen::value(ctx, p))),
                    1 => Act::TabGet(ctx.src.below(72) as u32),
                    2 => Act::TabFind(small(gen::name(ctx, p)), small(gen::value(ctx, p))),
                    4 => Act::TabMany(1 + ctx.src.below(400) as u32, ctx.src.below(90)),
                    _ => Act::TabResize(gen::limit(ctx)),
                });
                ctx.src.end();
            }
        }
        2 => {
            for i in 0..n {
                ctx.src.begin();
                v.push(match if i == 0 { 0 } else { ctx.src.weighted(&[3, 5, 1]) } {
                    0 => Act::HufEncode(small(gen::value(ctx, p))),
                    1 => Act::HufDecode(ctx.src.below(5)),
                    _ => Act::HufDamage(ctx.src.below(64), 1 << ctx.src.below(8)),
                });
                ctx.src.end();
            }
        }
        _ => {
            v.push(Act::PbNew);
            for _ in 0..n {
                ctx.src.begin();
                v.push(match ctx.src.weighted(&[50, 50, 10, 10, 10, 1, 20]) {
                    6 => {
                        let x = val::val(ctx);
                        let mut o = x.octets();
                        o.truncate(600);
                        if ctx.src.chance(1, 6) { o.pop(); }
                        Act::PbValue(if ctx.src.chance(1, 6) { ctx.src.below(KINDS + 1) } else { val::kind_of(&x) }, o)
                    }
                    0 => {
                        let t = if ctx.src.chance(1, 12) { val::bad_tag(ctx) } else { val::tag(ctx) };
                        let x = val::val(ctx);
                        Act::PbEncode(t, Box::new(x), *ctx.src.pick(&[usize::MAX, 1, 2, 3]))
                    }
                    1 => Act::PbDeliver(match ctx.src.below(3) { 0 => usize::MAX, 1 => 1 + ctx.src.below(4), _ => ctx.src.below(60) }),
                    2 => Act::PbConvert(ctx.src.below(KINDS + 1)),
                    5 => Act::PbMany(1 + ctx.src.below(400) as u32, ctx.src.below(90)),
                    3 => { let l = ctx.src.below(8); let seed = ctx.src.u64(); Act::PbJunk(gen::fill(2, seed | 1, l)) }
                    _ => Act::Damage(ctx.src.below(64), 1 << ctx.src.below(8)),
                });
                ctx.src.end();
            }
            v.push(Act::PbDeliver(usize::MAX));
        }
    }
    v
}

/// A literal from some other encoder, complete or broken in a way that makes
/// a decoder stop half way through a string.
fn foreign(ctx: &mut Ctx, p: &gen::Profile) -> Vec<u8> {
    let mut out = vec![*ctx.src.pick(&[0u8, 0x40, 0x10])];
    let hit = ctx.src.below(4);
    for k in 0..2 {
        let mut t = if k == 0 { gen::name(ctx, p) } else { gen::value(ctx, p) };
        t.truncate(60);
        let mut b = vec![];
        if ctx.src.chance(3, 4) || hit == k {
            b.extend(crate::refm::huff::encode(&t));
            if hit == k { match ctx.src.below(3) { 0 => b.push(0xff), 1 => b.extend_from_slice(&[0xff; 4]), _ => { if let Some(x) = b.last_mut() { *x ^= 1; } } } }
            crate::refm::hpack::put_int(&mut out, 0x80, 7, b.len() as u64, 0);
        } else {
            b = t;
            crate::refm::hpack::put_int(&mut out, 0, 7, b.len() as u64, 0);
        }
        out.extend_from_slice(&b);
    }
    if hit == 2 { let n = ctx.src.below(out.len()); out.truncate(n); }
    out
}

/// A script made from another one by dropping, repeating and adding calls.
fn variant(ctx: &mut Ctx, from: &[Act], other: &[Act]) -> Vec<Act> {
    let mut v = vec![];
    for (i, a) in from.iter().enumerate() {
        match ctx.src.below(8) {
            5 if i > 0 => {}
            6 => { v.push(a.clone()); v.push(a.clone()); }
            7 if i > 0 && !other.is_empty() => { v.push(a.clone()); v.push(other[ctx.src.below(other.len())].clone()); }
            _ => v.push(a.clone()),
        }
    }
    v
}

fn one_step(s: &mut State, a: &Act, hook: Option<fn()>) -> String {
    let r = guard(|| alloc::measure(|| {
        alloc::set_hook(hook);
        let o = perform(s, a);
        alloc::set_hook(None);
        o
    }).0);
    alloc::set_hook(None);
    match r { Ok(o) => o, Err(e) => format!("panic {}", e) }
}

// ------------------------------------------------------------------- baton

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
static TIDS: [AtomicU32; 4] = [const { AtomicU32::new(0) }; 4];
/// Children that needed the real-lock fallback, in this process's lifetime.
static FALLBACKS: AtomicUsize = AtomicUsize::new(0);

fn preempt() { if let Some(f) = alloc::hook() { f() } }

const NONE: usize = usize::MAX;

struct Baton {
    holder: usize,
    /// per worker: session it is in the middle of
    doing: Vec<Option<usize>>,
    blocked: Vec<bool>,
    home: Vec<Option<Travel>>,
    next: Vec<usize>,
    lens: Vec<usize>,
    slices: Vec<(usize, usize)>,
    at: usize,
    left: usize,
    mid_off: bool,
    fallback: bool,
    over: bool,
    done: usize,
    progress: u64,
    out: Vec<Vec<String>>,
    log: Vec<String>,
    mid_switches: u64,
    migrations: u64,
    last_on: Vec<usize>,
}

struct Sim { m: Mutex<Baton>, cv: Condvar, acts: Vec<Vec<Act>> }
static SIM: std::sync::OnceLock<Sim> = std::sync::OnceLock::new();

impl Baton {
    fn slice(&mut self) -> usize {
        match self.slices.get(self.at) {
            Some((skip, pick)) => { self.left = *skip; self.at += 1; *pick }
            None => { self.left = usize::MAX; 0 }
        }
    }
    /// Threads that could run next: in the middle of a call, or idle with a
    /// waiting session.
    fn options(&self) -> Vec<(usize, Option<usize>)> {
        let mut v: Vec<(usize, Option<usize>)> = vec![];
        for (w, d) in self.doing.iter().enumerate() { if d.is_some() && !self.blocked[w] { v.push((w, None)); } }
        for s in 0..self.home.len() {
            if self.home[s].is_some() && self.next[s] < self.lens[s] {
                for (w, d) in self.doing.iter().enumerate() { if d.is_none() && !self.blocked[w] { v.push((w, Some(s))); } }
            }
        }
        v
    }
    fn give(&mut self, pick: usize) -> bool {
        let o = self.options();
        if o.is_empty() {
            self.holder = NONE;
            return false;
        }
        let (w, s) = o[pick % o.len()];
        if let Some(s) = s { self.doing[w] = Some(s); }
        self.holder = w;
        true
    }
}

fn hook() {
    alloc::set_hook(None);
    let w = ME.with(|m| m.get());
    if w != NONE {
        let sim = SIM.get().expect("sim");
        let mut b = sim.m.lock().expect("baton");
        b.progress += 1;
        if !b.mid_off && b.holder == w {
            if b.left > 0 { b.left -= 1; }
            else {
                let pick = b.slice();
                b.give(pick);
                if b.holder != w {
                    b.mid_switches += 1;
                    let t = format!("worker {} pre-empted in session {:?}, baton to {}", w, b.doing[w], b.holder);
                    b.log.push(t);
                    sim.cv.notify_all();
                    while b.holder != w { b = sim.cv.wait(b).expect("baton"); }
                }
            }
        }
    }
    alloc::set_hook(Some(hook));
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn prctl(option: i32, arg: u64) -> i32;
    fn poll(fds: *mut i32, n: u64, ms: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setrlimit(what: i32, limit: &[u64; 2]) -> i32;
    fn _exit(c: i32) -> !;
    fn syscall(n: i64, ...) -> i64;
}

fn work(w: usize) {
    ME.with(|m| m.set(w));
    TIDS[w].store(unsafe { syscall(186) } as u32, Ordering::SeqCst);
    let sim = SIM.get().expect("sim");
    loop {
        let (s, k, mut st, mid) = {
            let mut b = sim.m.lock().expect("baton");
            loop {
                if b.over { return; }
                if b.holder == w { break; }
                b = sim.cv.wait(b).expect("baton");
            }
            let s = b.doing[w].expect("assignment");
            let k = b.next[s];
            let t = format!("worker {} session {} call {}", w, s, k);
            b.log.push(t);
            if b.last_on[s] != w { if b.last_on[s] != NONE { b.migrations += 1; } b.last_on[s] = w; }
            (s, k, b.home[s].take().expect("session"), !b.mid_off)
        };
        let o = one_step(&mut st.0, &sim.acts[s][k], if mid { Some(hook) } else { None });
        let mut b = sim.m.lock().expect("baton");
        b.progress += 1;
        b.out[s].push(o);
        b.next[s] += 1;
        b.done += 1;
        b.home[s] = Some(st);
        b.doing[w] = None;
        b.blocked[w] = false;
        if b.holder == w || b.holder == NONE {
            let total: usize = b.lens.iter().sum();
            if b.done == total { b.over = true; }
            else if b.left > 0 && b.left != usize::MAX && b.next[s] < b.lens[s] {
                // the same thread goes on with the same session
                b.left -= 1;
                b.doing[w] = Some(s);
                b.holder = w;
            } else {
                let pick = b.slice();
                b.give(pick);
            }
            sim.cv.notify_all();
        }
    }
}

/// Is the thread asleep in the kernel?
fn asleep(w: usize) -> bool {
    let tid = TIDS[w].load(Ordering::SeqCst);
    let t = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    t.rsplit(')').next().map(|x| x.trim_start().starts_with('S')).unwrap_or(false)
}

fn together(acts: Vec<Vec<Act>>, workers: usize, slices: Vec<(usize, usize)>, mid_off: bool) -> Vec<String> {
    let n = acts.len();
    let b = Baton {
        holder: NONE, doing: vec![None; workers], blocked: vec![false; workers],
        home: (0..n).map(|_| Some(Travel(State::default()))).collect(), next: vec![0; n],
        lens: acts.iter().map(|a| a.len()).collect(), slices, at: 0, left: 0, mid_off, fallback: false, over: false, done: 0,
        progress: 0, out: vec![vec![]; n], log: vec![], mid_switches: 0, migrations: 0, last_on: vec![NONE; n],
    };
    let _ = SIM.set(Sim { m: Mutex::new(b), cv: Condvar::new(), acts });
    let sim = SIM.get().expect("sim");
    let hs: Vec<_> = (0..workers).map(|w| std::thread::spawn(move || work(w))).collect();
    {
        let mut b = sim.m.lock().expect("baton");
        let pick = b.slice();
        b.give(pick);
        sim.cv.notify_all();
        // watch for the holder sleeping on a lock of the code under test
        let (mut seen, mut idle) = (0u64, 0);
        while !b.over {
            b = sim.cv.wait_timeout(b, Duration::from_millis(30)).expect("baton").0;
            let h = b.holder;
            if b.progress != seen || h == NONE { seen = b.progress; idle = 0; continue; }
            let started = b.doing[h].map(|s| b.home[s].is_none()).unwrap_or(false);
            if started && asleep(h) { idle += 1; } else { idle = 0; }
            if idle >= 4 {
                idle = 0;
                b.fallback = true;
                b.mid_off = true;
                b.blocked[h] = true;
                let t = format!("worker {} sleeps on a lock, pre-emption inside calls ends", h);
                b.log.push(t);
                let o: Vec<usize> = (0..workers).filter(|w| b.doing[*w].is_some() && !b.blocked[*w]).collect();
                if let Some(w) = o.first() { b.holder = *w; } else { b.give(0); }
                sim.cv.notify_all();
            }
        }
    }
    for h in hs { let _ = h.join(); }
    let b = sim.m.lock().expect("baton");
    let mut v = vec![];
    for (s, o) in b.out.iter().enumerate() { for x in o { v.push(format!("T {} {}", s, x)); } }
    for l in &b.log { v.push(format!("L {}", l)); }
    v.push(format!("M {} {} {}", b.mid_switches, b.migrations, b.fallback as u8));
    v
}

// ---------------------------------------------------------------- processes

/// What a process has used of the processors, in milliseconds.
fn used(pid: i32) -> u64 {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) * 10
}

/// Runs `f` in a fresh process and returns its lines, or how it died. It has
/// `secs` seconds of processor time; one that gets next to nothing done over
/// 300 looks at it (100 ms apart, more on a busy machine) is blocked for good.
fn child(secs: u32, f: impl FnOnce() -> Vec<String>) -> Result<Vec<String>, String> {
    let mut fds = [0i32; 2];
    if unsafe { pipe(fds.as_mut_ptr()) } != 0 { panic!("pipe failed"); }
    let pid = unsafe { fork() };
    if pid < 0 { panic!("fork failed"); }
    if pid == 0 {
        unsafe { close(fds[0]); prctl(1, 9); }
        let lines = f();
        let mut t = String::new();
        for l in lines { t.push_str(&l.replace('\n', " ")); t.push('\n'); }
        t.push_str("END\n");
        let mut w = unsafe { File::from_raw_fd(fds[1]) };
        let _ = w.write_all(t.as_bytes());
        unsafe { _exit(0) }
    }
    unsafe { close(fds[1]); }
    let mut r = unsafe { File::from_raw_fd(fds[0]) };
    let mut t = vec![];
    let (mut cpu, mut idle, mut killed) = (0, 0, false);
    runner::elsewhere(true);
    loop {
        let mut p = [fds[0], 1];
        if unsafe { poll(p.as_mut_ptr(), 1, 100) } == 1 {
            let mut b = [0u8; 65536];
            match r.read(&mut b) { Ok(0) | Err(_) => break, Ok(n) => { t.extend_from_slice(&b[..n]); idle = 0; } }
            continue;
        }
        let now = used(pid);
        if now > cpu + 50 { cpu = now; idle = 0; } else { idle += 1; }
        if !killed && (now > secs as u64 * 1000 || idle > 300) { killed = true; unsafe { kill(pid, 9); } }
    }
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0); }
    runner::elsewhere(false);
    let t = String::from_utf8_lossy(&t).to_string();
    if st == 0 && t.ends_with("END\n") {
        let mut v: Vec<String> = t.lines().map(|s| s.to_string()).collect();
        v.pop();
        return Ok(v);
    }
    Err(if killed { "did not end".to_string() } else { format!("died (status {:x})", st) })
}

// Send, decided without failing to compile when it does not hold.
struct IsSend<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait Otherwise { fn get(&self) -> bool { false } }
impl<T> Otherwise for IsSend<T> {}
impl<T: Send> IsSend<T> { fn get(&self) -> bool { true } }
macro_rules! is_send { ($t:ty) => { IsSend::<$t>(std::marker::PhantomData).get() } }

/// The same calls in two worlds that differ in everything but the calls.
pub fn anywhere(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let kind = ctx.src.weighted(&[5, 2, 2, 4]);
    let acts = if kind < 2 && ctx.src.chance(1, 4) { shuffled(ctx, &p).swap_remove(0) } else { script(ctx, &p, kind) };
    let before: Vec<Act> = if ctx.src.chance(1, 3) { let k = ctx.src.below(4); script(ctx, &p, k) } else { vec![] };
    let w = Elsewhere {
        pace: *ctx.src.pick(&[0u64, 0, 1_000, 1_000_000, 61_000_000, 3_700_000_000, 90_000_000_000]),
        epoch: *ctx.src.pick(&[0u64, 0, 1 << 31, 1 << 45, 1 << 53]),
        skewed: ctx.src.chance(1, 3),
        salt: ctx.src.raw(1 << 40),
        poison: *ctx.src.pick(&[0u8, 0xa5, 0xff, 0x01, 0x80]),
        blocks: ctx.src.below(4),
        seed: ctx.src.raw(1 << 20),
        stack: *ctx.src.pick(&[1024usize, 256, 16_384]),
        environment: ctx.src.chance(1, 3),
        no_files: ctx.src.chance(1, 3),
        thread_per_call: ctx.src.chance(1, 3),
        cpus: *ctx.src.pick(&[0u32, 0, 1, 2, 3, 61]),
        named: ctx.src.chance(1, 3),
        unwinding: ctx.src.chance(1, 5),
    };
    for (k, x) in acts.iter().enumerate() { ev!(ctx, "call {}: {}", k, show_act(x)); }
    ev!(ctx, "elsewhere, after {} calls of another session: {:?}", before.len(), w);
    let here = child(20, || { let mut st = State::default(); acts.iter().map(|a| one_step(&mut st, a, None)).collect() });
    let there = child(20, || w.run(&acts, &before));
    ctx.sut_calls += 2 * acts.len() as u64 + before.len() as u64;
    ctx.now += acts.len() as u64 * w.pace.max(1);
    ctx.nontrivial = true;
    for (on, key) in [(w.pace > 0, "fault:time_passes_between_calls"), (w.epoch > 0, "fault:another_time"), (w.skewed, "fault:wall_clock_jumps"), (w.poison > 0, "fault:memory_filled"), (w.blocks > 0, "fault:other_addresses"), (w.stack < 1024, "fault:small_stack"),
        (w.environment, "fault:other_environment"), (w.no_files, "fault:no_files_can_be_opened"), (w.thread_per_call, "fault:thread_per_call"), (w.cpus > 0, "fault:other_machine"), (w.named, "fault:named_threads"), (w.unwinding, "fault:called_while_unwinding"), (!before.is_empty(), "fault:used_process"), (true, "fault:other_random_numbers")] {
        if on { ctx.count(key); }
    }
    match (here, there) {
        (Ok(a), Ok(b)) => {
            for (k, x) in acts.iter().enumerate() {
                if a.get(k) != b.get(k) {
                    return fail("differs", format!("call {} ({}) gives {} here and {} elsewhere ({:?})", k, show_act(x), a.get(k).map(|s| s.as_str()).unwrap_or("nothing"), b.get(k).map(|s| s.as_str()).unwrap_or("nothing"), w));
                }
            }
            ctx.state(fnv(a.join(" ").as_bytes()));
            ctx.count("probe:compared");
            Ok(())
        }
        (Err(e), Err(_)) => { ctx.count("probe:session_dies_everywhere"); ev!(ctx, "the session {} in either world", e); Ok(()) }
        (Ok(_), Err(e)) => fail("differs", format!("calls that end here: elsewhere the process {} ({:?})", e, w)),
        (Err(e), Ok(_)) => fail("differs", format!("calls that end elsewhere ({:?}): here the process {}", w, e)),
    }
}

#[derive(Debug)]
struct Elsewhere {
    /// microseconds between calls and at the first of them
    pace: u64,
    epoch: u64,
    skewed: bool,
    salt: u64,
    poison: u8,
    /// blocks of other sizes held by the caller
    blocks: usize,
    seed: u64,
    /// kilobytes
    stack: usize,
    environment: bool,
    no_files: bool,
    thread_per_call: bool,
    /// as seen by the code under test (0: those of this machine)
    cpus: u32,
    named: bool,
    /// every other call is made by a destructor while its thread unwinds
    unwinding: bool,
}

/// Calls when it is dropped.
struct AtDrop<F: FnMut()>(F);
impl<F: FnMut()> Drop for AtDrop<F> { fn drop(&mut self) { (self.0)() } }

impl Elsewhere {
    fn run(&self, acts: &[Act], before: &[Act]) -> Vec<String> {
        seam::salt(self.salt);
        if self.environment {
            for (k, v) in [("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Pacific/Apia"), ("HOME", "/nowhere"), ("TMPDIR", "/nowhere")] { std::env::set_var(k, v); }
            let _ = std::env::set_current_dir("/");
        }
        if self.no_files { unsafe { setrlimit(7, &[3, 3]); } }
        let mut st = Travel(State::default());
        let mut rng = crate::core::src::Rng::new(self.seed);
        let mut held: Vec<Vec<u8>> = vec![];
        let mut out = vec![];
        let mut at = 0;
        while at < acts.len() {
            let n = if self.thread_per_call { 1 } else { acts.len() };
            let mut job = |st: &mut Travel| {
                if at == 0 {
                    let mut s = State::default();
                    for a in before { one_step(&mut s, a, None); }
                }
                let mut got = vec![];
                for (k, a) in acts.iter().enumerate().skip(at).take(n) {
                    for _ in 0..self.blocks { held.push(vec![1u8; 1 + rng.below(3000) as usize]); }
                    if held.len() > 2 { let i = rng.below(held.len() as u64) as usize; held.remove(i); }
                    seam::set_clock(seam::Clock { us: self.epoch + self.pace * k as u64, skewed: self.skewed });
                    seam::set_all_variables(self.environment && k % 2 == 1);
                    seam::other_machine(self.cpus);
                    let mut call = || {
                        alloc::set_poison(self.poison);
                        got.push(one_step(&mut st.0, a, None));
                        alloc::set_poison(0);
                    };
                    if self.unwinding && k % 2 == 1 {
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _later = AtDrop(call); std::panic::resume_unwind(Box::new(0u8)) }));
                    } else { call(); }
                    seam::other_machine(0);
                    seam::set_all_variables(false);
                }
                got
            };
            let st = &mut st;
            let r = std::thread::scope(|s| { let b = std::thread::Builder::new().stack_size(self.stack << 10); if self.named { b.name("h2 worker".into()) } else { b } }.spawn_scoped(s, move || job(st)).ok().and_then(|h| h.join().ok()));
            match r { Some(r) => out.extend(r), None => { out.push("the thread died".into()); break; } }
            at += n;
        }
        out
    }
}

/// Sessions of one shape that do the same few things in another order.
fn shuffled(ctx: &mut Ctx, p: &gen::Profile) -> Vec<Vec<Act>> {
    let table = ctx.src.chance(1, 4);
    let mut base: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..ctx.src.range(2, 4) {
        let n = match base.last() { Some(b) if ctx.src.chance(1, 2) => b.0.clone(), _ => gen::name(ctx, p) };
        let mut v = gen::value(ctx, p);
        v.truncate(100);
        base.push((n, v));
    }
    let most = *ctx.src.pick(&[4096u32, 4096, 150, 70_000]);
    let searches = ctx.src.range(1, 3);
    (0..ctx.src.range(2, 4)).map(|_| {
        ctx.src.begin();
        let mut fields = base.clone();
        for i in (1..fields.len()).rev() { let k = ctx.src.below(i + 1); fields.swap(i, k); }
        let mut v = vec![if table { Act::TabNew(most) } else { Act::HpNew(most, most) }];
        for (n, x) in fields { v.push(if table { Act::TabInsert(n, x) } else { Act::Lit(n, x, 4) }); }
        for k in 0..searches {
            let (n, x) = base[if k == 0 { 0 } else { ctx.src.below(base.len()) }].clone();
            v.push(if table { Act::TabFind(n, x) } else { Act::Lit(n, x, 0x10) });
        }
        if !table { v.push(Act::Deliver(usize::MAX)); }
        ctx.src.end();
        v
    }).collect()
}

/// Very many sessions of a few kinds in one process: each must behave like
/// the only one of its kind.
fn crowd(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let kinds: Vec<Vec<Act>> = match ctx.src.below(4) {
        0 => { let kind = ctx.src.below(4); (0..ctx.src.range(2, 4)).map(|_| { let mut s = script(ctx, &p, kind); s.retain(|a| !matches!(a, Act::LitMany(..) | Act::HpChurn(_) | Act::TabMany(..) | Act::PbMany(..))); s }).collect() }
        _ => shuffled(ctx, &p),
    };
    let members = if ctx.src.chance(1, 60) { 70_000 } else { *ctx.src.pick(&[40usize, 270, 300, 600, 1100]) };
    // all side by side, call by call; one after the other, dropped at its end;
    // or one after the other but kept
    let order = ctx.src.below(3);
    let seed = ctx.src.raw(1 << 20);
    let in_turn = ctx.src.chance(1, 3);
    for (k, s) in kinds.iter().enumerate() { for (c, x) in s.iter().enumerate() { ev!(ctx, "kind {} call {}: {}", k, c, show_act(x)); } }
    let mut alone: Vec<Vec<String>> = vec![];
    for s in &kinds {
        match child(20, || { let mut st = State::default(); s.iter().map(|a| one_step(&mut st, a, None)).collect() }) {
            Ok(v) => alone.push(v),
            Err(e) => { ctx.count("probe:session_dies_alone"); ev!(ctx, "a session {} when alone, nothing to compare", e); return Ok(()); }
        }
    }
    let r = child(60, || {
        let mut rng = crate::core::src::Rng::new(seed);
        let kind: Vec<usize> = (0..members).map(|i| if in_turn { i % kinds.len() } else { rng.below(kinds.len() as u64) as usize }).collect();
        let mut st: Vec<State> = (0..members).map(|_| State::default()).collect();
        let mut odd = vec![];
        let mut call = |st: &mut State, m: usize, c: usize| {
            let k = kind[m];
            if odd.len() < 3 && c < kinds[k].len() {
                let got = one_step(st, &kinds[k][c], None);
                if got != alone[k][c] { odd.push(format!("session {} of {}, kind {} call {} ({}): alone {}, in the crowd {}", m + 1, members, k, c, show_act(&kinds[k][c]), alone[k][c], got)); }
            }
        };
        let most = kinds.iter().map(|k| k.len()).max().unwrap_or(0);
        if order == 0 { for c in 0..most { for (m, s) in st.iter_mut().enumerate() { call(s, m, c); } } }
        else { for (m, s) in st.iter_mut().enumerate() { for c in 0..most { call(s, m, c); } if order == 1 { *s = State::default(); } } }
        odd
    });
    ctx.sut_calls += (members * kinds[0].len()) as u64;
    ctx.now += members as u64;
    ctx.fault("fault:crowd_of_sessions");
    ctx.fault("fault:interleaved_calls");
    ctx.state(mix(seed, members as u64));
    match r {
        Err(e) => fail("together", format!("{} sessions that end when alone: together the process {}", members, e)),
        Ok(v) => match v.first() { Some(l) => fail("differs", l.clone()), None => { ev!(ctx, "{} sessions in order {} are like those alone", members, order); Ok(()) } },
    }
}

pub fn sessions(ctx: &mut Ctx) -> R {
    let types = [("hpack Encoder", is_send!(Encoder<'static>)), ("hpack Decoder", is_send!(Decoder<'static>)), ("Table", is_send!(Table<'static>)), ("protos Decoder", is_send!(pb::Decoder)), ("protos Encoder", is_send!(pb::Encoder))];
    for (n, ok) in types { if !ok { return fail("not-send", format!("a {} cannot be moved to another thread", n)); } }
    if ctx.src.chance(1, 25) { return crowd(ctx); }
    let n = 2 + ctx.src.below(3);
    let workers = *ctx.src.pick(&[1usize, 2, 2, 3, 4]);
    let mut acts: Vec<Vec<Act>> = vec![];
    let mut kinds: Vec<usize> = vec![];
    // sessions often are of one kind and use the same strings, so that shared
    // state, if there is any, collides
    let common = gen::profile(ctx);
    let same = ctx.src.weighted(&[3, 4, 1, 1, 2]);
    for s in 0..n {
        ctx.src.begin();
        let kind = if same > 0 { same - 1 } else { ctx.src.weighted(&[5, 2, 2, 3]) };
        let like = if s > 0 { kinds.iter().position(|k| *k == kind) } else { None };
        kinds.push(kind);
        let a = match (like, ctx.src.below(6)) {
            (Some(o), 5) => acts[o].clone(),
            (Some(o), 3) | (Some(o), 4) => { let x = script(ctx, &common, kind); let o = acts[o].clone(); variant(ctx, &o, &x[1..]) }
            (_, 2) => { let p = gen::profile(ctx); script(ctx, &p, kind) }
            _ => script(ctx, &common, kind),
        };
        ctx.src.end();
        acts.push(a);
    }
    let total: usize = acts.iter().map(|a| a.len()).sum();
    let grain = *ctx.src.pick(&[0usize, 1, 3, 10, 40]);
    let mut slices = vec![];
    let count = total + ctx.src.below(40);
    for _ in 0..count {
        let skip = if grain == 0 { 0 } else { ctx.src.below(grain * 2 + 1) };
        slices.push((skip, ctx.src.below(64)));
    }
    ev!(ctx, "{} sessions on {} threads, {} slices", n, workers, slices.len());
    for (s, a) in acts.iter().enumerate() { for (k, x) in a.iter().enumerate() { ev!(ctx, "session {} call {}: {}", s, k, show_act(x)); } }
    // alone, each in its own process
    let mut alone: Vec<Vec<String>> = vec![];
    for s in 0..n {
        let r = child(20, || {
            let mut st = State::default();
            acts[s].iter().map(|a| one_step(&mut st, a, None)).collect()
        });
        ctx.sut_calls += acts[s].len() as u64;
        match r {
            Ok(v) => alone.push(v),
            Err(e) => { ctx.count("probe:session_dies_alone"); ev!(ctx, "session {} {} when alone, nothing to compare", s, e); return Ok(()); }
        }
    }
    // together
    let mid_off = FALLBACKS.load(Ordering::Relaxed) > 40;
    let (a2, s2) = (acts.clone(), slices.clone());
    let r = child(20, move || together(a2, workers, s2, mid_off));
    ctx.sut_calls += total as u64;
    let lines = match r {
        Ok(v) => v,
        Err(e) => return fail("together", format!("{} sessions that end when alone: side by side on {} threads the process {}", n, workers, e)),
    };
    let mut got: Vec<Vec<String>> = vec![vec![]; n];
    let mut h = 0;
    for l in &lines {
        match l.as_bytes().first() {
            Some(b'T') => {
                let mut p = l.splitn(3, ' ');
                p.next();
                let s: usize = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                got[s].push(p.next().unwrap_or("").to_string());
            }
            Some(b'L') => { ev!(ctx, "{}", &l[2..]); ctx.steps += 1; ctx.now += 1; h = mix(h, fnv(l.as_bytes())); }
            Some(b'M') => {
                let v: Vec<u64> = l.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
                if v.len() == 3 {
                    if v[0] > 0 { ctx.fault("fault:preempted_inside_call"); ctx.add("probe:preemptions_inside_calls", v[0]); }
                    if v[1] > 0 { ctx.fault("fault:moved_between_threads"); ctx.add("probe:migrations", v[1]); }
                    if v[2] > 0 { ctx.count("probe:lock_fallback"); FALLBACKS.fetch_add(1, Ordering::Relaxed); }
                }
            }
            _ => {}
        }
    }
    ctx.fault("fault:interleaved_calls");
    ctx.count(if workers == 1 { "probe:one_thread" } else { "probe:several_threads" });
    ctx.state(h);
    for s in 0..n {
        for k in 0..alone[s].len() {
            let g = got[s].get(k).map(|x| x.as_str()).unwrap_or("(not run)");
            if g != alone[s][k] {
                return fail("differs", format!("session {} call {} ({}): alone {}, beside the others {}", s, k, show_act(&acts[s][k]), alone[s][k], g));
            }
        }
    }
    Ok(())
}
