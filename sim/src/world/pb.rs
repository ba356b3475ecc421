//! Worlds around the real Protocol Buffers codec: streams in pieces (C13,
//! C14), damage (C15), faulty writers (C16), crash-prone logs (C17), typed
//! end-to-end paths (C18), hostile input (C19).

use super::val::{self, Val, KINDS};
use crate::core::ctx::{fail, hex, last_panic, Ctx, R};
use crate::core::src::{fnv, mix, Rng};
use crate::ev;
use crate::gen;
use crate::refm::proto::{self as rp, Raw, Step};
use httlib_protos::{Decoder, DecoderError, DecoderLit, Encoder, EncoderError, EncoderLit, Typ};
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub(super) type Out = Vec<(u32, Typ, Vec<u8>)>;

pub(super) fn typ(t: &Typ) -> u8 {
    match t { Typ::Varint => 0, Typ::Bit64 => 1, Typ::LengthDelimited => 2, Typ::Bit32 => 5, Typ::Unknown => 255 }
}
fn show_raw(f: &Raw) -> String { format!("tag {} type {} octets {}", f.0, f.1, hex(&f.2)) }

// -------------------------------------------------------------- generation

/// Writes a stream of fields, by the real encoder or by a foreign writer that
/// may pad its integers.
fn stream(ctx: &mut Ctx, avg: usize, out: &mut Vec<u8>) -> R<Vec<Raw>> {
    let mut fields = vec![];
    let real = ctx.src.chance(1, 2);
    let pad = if real { 0 } else { *ctx.src.pick(&[0u32, 0, 3]) };
    let mut k = 0;
    while k < 40 && out.len() < 60_000 && ctx.src.more(avg) {
        k += 1;
        ctx.src.begin();
        let t = val::tag(ctx);
        let v = val::val(ctx);
        let mut oct = v.octets();
        if real {
            let at = out.len();
            let r = ctx.sut("Encoder::encode", || v.encode(t, out))?;
            let raw = (t, v.wire(), oct);
            let mut want = vec![];
            rp::put_raw(&mut want, &raw);
            if r != Ok(want.len()) || out.get(at..) != Some(&want[..]) {
                return fail("encode", format!("encoding {} with tag {} gave {:?} and {} instead of {}", v.name(), t, r, hex(out.get(at..).unwrap_or(&[])), hex(&want)));
            }
            fields.push(raw);
        } else {
            let p = |ctx: &mut Ctx| if pad > 0 && ctx.src.chance(pad, 8) { ctx.count("probe:padded_varint"); 1 + ctx.src.below(9) } else { 0 };
            let key = ((t as u64) << 3) | v.wire() as u64;
            let a = p(ctx);
            rp::put_varint_padded(out, key, a);
            if v.wire() == rp::LEN { let b = p(ctx); rp::put_varint_padded(out, oct.len() as u64, b); }
            if v.wire() == rp::VARINT {
                let c = p(ctx);
                let mut x = 0u64;
                for (i, b) in oct.iter().enumerate() { x |= ((*b & 127) as u64) << (7 * i).min(63); }
                oct.clear();
                rp::put_varint_padded(&mut oct, x, c);
            }
            out.extend_from_slice(&oct);
            fields.push((t, v.wire(), oct));
        }
        if fields.last().map(|f| f.1 == rp::LEN && f.2.is_empty()).unwrap_or(false) { ctx.count("probe:empty_field"); }
        ctx.src.end();
    }
    Ok(fields)
}

/// Very many small fields at once, drawn from one seed.
fn bulk(ctx: &mut Ctx, out: &mut Vec<u8>, fields: &mut Vec<Raw>) {
    let most = if ctx.src.chance(1, 200) { 90_000 } else { *ctx.src.pick(&[150usize, 300, 300, 600, 600, 1200, 1200, 5000, 20_000]) };
    let n = most - ctx.src.below(most / 4);
    let seed = ctx.src.raw(1 << 20);
    let mut r = Rng::new(seed);
    ctx.count("probe:many_fields");
    for i in 0..n {
        let tag = if r.below(8) == 0 { 1 + r.below(536_870_911) as u32 } else { 1 + r.below(20) as u32 };
        let f = match r.below(5) {
            0 | 1 => { let mut o = vec![]; rp::put_varint(&mut o, if r.below(9) == 0 { r.next() } else { i as u64 }); (tag, rp::VARINT, o) }
            2 => (tag, rp::LEN, vec![i as u8; r.below(3) as usize]),
            3 => (tag, rp::BIT32, (i as u32).to_le_bytes().to_vec()),
            _ => (tag, rp::BIT64, (i as u64).to_le_bytes().to_vec()),
        };
        rp::put_raw(out, &f);
        fields.push(f);
    }
}

fn check_delivered(want: &[Raw], from: usize, dst: &Out) -> R {
    for (i, d) in dst.iter().enumerate() {
        match want.get(from + i) {
            Some(w) if w.0 == d.0 && w.1 == typ(&d.1) && w.2 == d.2 => {}
            Some(w) => return fail("field", format!("field {} is tag {} type {} octets {}, the stream says {}", from + i, d.0, typ(&d.1), hex(&d.2), show_raw(w))),
            None => return fail("phantom", format!("extra field tag {} type {} octets {}", d.0, typ(&d.1), hex(&d.2))),
        }
    }
    Ok(())
}

// --------------------------------------------------------- pieces, prompt

/// `strict`: every call must deliver all it can and account for its octets.
fn feed(ctx: &mut Ctx, strict: bool) -> R {
    let conns = ctx.src.range(1, 3);
    let mut data: Vec<(Vec<u8>, Vec<Raw>)> = vec![];
    for _ in 0..conns {
        let mut s = vec![];
        let mut f = stream(ctx, 6, &mut s)?;
        if ctx.src.chance(1, 400) { bulk(ctx, &mut s, &mut f); }
        data.push((s, f));
    }
    struct Conn { dec: Decoder, buf: Vec<u8>, at: usize, got: usize, returned: usize, calls: usize, dst: Out }
    let mut cs: Vec<Conn> = (0..conns).map(|_| Conn { dec: Decoder::default(), buf: vec![], at: 0, got: 0, returned: 0, calls: 0, dst: vec![] }).collect();
    for (i, d) in data.iter().enumerate() { ev!(ctx, "stream {}: {} fields in {} octets {}", i, d.1.len(), d.0.len(), hex(&d.0)); }
    let keep_dst = ctx.src.chance(1, 3); // reuse one output vector across calls
    let mut steps = 0;
    loop {
        let open: Vec<usize> = (0..conns).filter(|i| cs[*i].at < data[*i].0.len()).collect();
        if open.is_empty() { break; }
        steps += 1;
        ctx.steps += 1;
        ctx.src.begin();
        let i = open[ctx.src.below(open.len())];
        let (s, want) = &data[i];
        let c = &mut cs[i];
        let left = s.len() - c.at;
        let n = if c.calls > 250 || (s.len() > 60_000 && c.calls > 40) { left } else { match ctx.src.below(8) { 0 => 0, _ => gen::cut(ctx, left) } };
        if n == 0 { ctx.fault("fault:call_without_data"); }
        c.buf.extend_from_slice(&s[c.at..c.at + n]);
        c.at += n;
        c.calls += 1;
        ctx.now += 1 + n as u64;
        if c.at < s.len() { ctx.fault("fault:cut"); }
        if ctx.src.chance(1, 40_000) { storm(ctx, &mut c.dec, &c.buf, c.at - n, n, s, want, &mut c.got, &mut c.returned)?.into_iter().for_each(|b| c.buf = b); }
        one_call(ctx, &mut c.dec, &mut c.buf, &mut c.dst, &mut c.got, &mut c.returned, s, c.at, want, strict, keep_dst)?;
        ctx.state(mix(c.at as u64, mix(c.got as u64, c.buf.len() as u64)));
        ctx.src.end();
        if steps > 3000 { break; }
    }
    for i in 0..conns {
        // a final call with nothing new
        let (s, want) = &data[i];
        let c = &mut cs[i];
        one_call(ctx, &mut c.dec, &mut c.buf, &mut c.dst, &mut c.got, &mut c.returned, s, c.at, want, strict, keep_dst)?;
        if c.got != want.len() { return fail("lost", format!("all {} octets of stream {} arrived but {} of {} fields were delivered", s.len(), i, c.got, want.len())); }
        if !c.buf.is_empty() { return fail("leftover", format!("stream {} ended at a field boundary but {} octets remain", i, c.buf.len())); }
        if strict && c.returned != s.len() { return fail("accounting", format!("returned sizes of stream {} add up to {} of {} octets", i, c.returned, s.len())); }
        ctx.add("probe:fields_delivered", c.got as u64);
    }
    Ok(())
}

/// Very many calls without new data: only the first may do anything.
#[allow(clippy::too_many_arguments)]
fn storm(ctx: &mut Ctx, dec: &mut Decoder, buf: &[u8], at: usize, n: usize, s: &[u8], want: &[Raw], got: &mut usize, returned: &mut usize) -> R<Option<Vec<u8>>> {
    let mut buf = buf.to_vec();
    let mut dst: Out = vec![];
    one_call(ctx, dec, &mut buf, &mut dst, got, returned, s, at + n, want, false, false)?;
    if buf.len() > 400 { return Ok(Some(buf)); }
    let k = *ctx.src.pick(&[300usize, 1100, 66_000]);
    ctx.fault("fault:retry_storm");
    let keep = buf.clone();
    dst.clear();
    let odd = ctx.sut("Decoder::decode", || (0..k).find(|_| dec.decode(&mut buf, &mut dst) != Ok(0) || !dst.is_empty() || buf.len() != keep.len()))?;
    ev!(ctx, "{} calls without new data", k);
    if odd.is_some() || buf != keep { return fail("repeat", format!("call {:?} without new data changed something", odd)); }
    Ok(Some(buf))
}

#[allow(clippy::too_many_arguments)]
fn one_call(ctx: &mut Ctx, dec: &mut Decoder, buf: &mut Vec<u8>, dst: &mut Out, got: &mut usize, returned: &mut usize, s: &[u8], at: usize, want: &[Raw], strict: bool, keep: bool) -> R {
    let before = buf.clone();
    if !keep { dst.clear(); }
    let base = dst.len();
    let r = ctx.sut("Decoder::decode", || dec.decode(buf, dst))?;
    if dst.len() < base { return fail("clobbered", "decode removed fields from the output"); }
    let new: Out = dst[base..].to_vec();
    ev!(ctx, "decode of {} octets: {:?}, {} fields, {} left", before.len(), r, new.len(), buf.len());
    let n = match r { Ok(n) => n, Err(e) => return fail("rejected", format!("a valid stream was rejected with {:?} at octet {}", e, at)) };
    check_delivered(want, *got, &new)?;
    *got += new.len();
    *returned = returned.wrapping_add(n);
    let used = match before.len().checked_sub(buf.len()) { Some(u) if before[u..] == buf[..] => u, _ => return fail("buffer", format!("the input after the call is not a suffix of the input before it ({} and {} octets)", buf.len(), before.len())) };
    if strict {
        if n != used { return fail("accounting", format!("decode returned {} but removed {} octets", n, used)); }
        if returned.wrapping_add(buf.len()) != at { return fail("accounting", format!("{} octets were fed, {} returned so far, {} remain", at, returned, buf.len())); }
        let due = rp::parse(&s[..at]).fields.len();
        if *got < due { return fail("late", format!("after {} octets {} fields are complete but only {} were delivered", at, due, got)); }
    }
    Ok(())
}

pub fn pieces(ctx: &mut Ctx) -> R { feed(ctx, false) }
pub fn prompt(ctx: &mut Ctx) -> R { feed(ctx, true) }

// ------------------------------------------------------------------ damage

fn aimed(ctx: &mut Ctx, s: &mut Vec<u8>, ends: &[usize]) -> String {
    let mut b = vec![];
    let what = match ctx.src.below(7) {
        0 => { let w = *ctx.src.pick(&[0u8, 1, 2, 5]); rp::put_varint(&mut b, w as u64); "tag 0" }
        1 => { let w = *ctx.src.pick(&[3u64, 4, 6, 7]); let t = val::tag(ctx) as u64; rp::put_varint(&mut b, t << 3 | w); "unknown wire type" }
        2 => { let hi = 1 + ctx.src.raw(200); let t = val::tag(ctx) as u64; rp::put_varint(&mut b, (hi << 32) | t << 3 | ctx.src.raw(3)); "key above 32 bits" }
        3 => { let k = 10 + ctx.src.below(5); b.extend(vec![*ctx.src.pick(&[0x80u8, 0xff]); k]); b.push(1); "key of more than ten octets" }
        4 => { rp::put_key(&mut b, 3, 0); let k = 9 + ctx.src.below(5); b.extend(vec![*ctx.src.pick(&[0x80u8, 0xff]); k]); b.push(1); "long varint value" }
        5 => { rp::put_key(&mut b, 4, 2); let k = 10 + ctx.src.below(5); b.extend(vec![*ctx.src.pick(&[0x80u8, 0xff]); k]); b.push(1); "length of more than ten octets" }
        _ => { rp::put_key(&mut b, 5, 2); rp::put_varint(&mut b, *ctx.src.pick(&[100u64, 1 << 31, 1 << 32, 1 << 40, u64::MAX, i64::MAX as u64])); "length beyond the input" }
    };
    ctx.fault("fault:aimed_defect");
    let pos = if ends.is_empty() { 0 } else { match ctx.src.below(4) { 0 => 0, 1 => ctx.src.below(s.len() + 1), _ => ends[ctx.src.below(ends.len())] } };
    for (i, x) in b.into_iter().enumerate() { s.insert(pos + i, x); }
    format!("{} at {}", what, pos)
}

/// Feeds arbitrary octets in pieces and judges each call leniently where the
/// wire format leaves freedom. Returns whether the stream was rejected.
fn judge(ctx: &mut Ctx, s: &[u8], in_pieces: bool, repeat: bool) -> R<bool> {
    let mut dec = Decoder::default();
    let mut buf: Vec<u8> = vec![];
    let mut got = 0usize;
    let mut at = 0;
    let mut calls = 0;
    loop {
        let n = if in_pieces && calls < 120 { gen::cut(ctx, s.len() - at) } else { s.len() - at };
        buf.extend_from_slice(&s[at..at + n]);
        at += n;
        calls += 1;
        ctx.now += 1 + n as u64;
        let before = buf.clone();
        let mut dst: Out = vec![];
        let (r, used_mem) = ctx.sut_m("Decoder::decode", || dec.decode(&mut buf, &mut dst))?;
        if used_mem.peak > 65_536 + 128 * before.len() as isize {
            return fail("memory", format!("a call given {} octets allocated {} bytes", before.len(), used_mem.peak));
        }
        let want = rp::parse(&s[..at]);
        ev!(ctx, "decode of {} octets: {:?}, {} fields, {} left; reference at {}: {:?}", before.len(), r, dst.len(), buf.len(), want.end, if let Step::Field(..) = want.last { Step::Pending } else { want.last.clone() });
        if want.last == Step::Ambiguous { ctx.count("probe:ambiguous"); return Ok(false); }
        check_delivered(&want.fields, got, &dst)?;
        got += dst.len();
        let pos = at - buf.len().min(at);
        if before.len() < buf.len() || before[before.len() - buf.len()..] != buf[..] {
            return fail("buffer", "the input after the call is not a suffix of the input before it");
        }
        if got < want.fields.len() { return fail("lost", format!("{} complete fields arrived, {} were delivered ({:?})", want.fields.len(), got, r)); }
        let (may_ok, may_err, off) = match want.last {
            Step::Pending => (true, false, 0),
            Step::Bad(o) => (false, true, o),
            Step::Limit(o) => (true, true, o),
            _ => return fail("harness-step", "unexpected reference step"),
        };
        match r {
            Ok(n) => {
                if !may_ok { return fail("accepted", format!("the malformed element at octet {} was not reported", want.end + off)); }
                if n != before.len() - buf.len() { return fail("accounting", format!("decode returned {} but removed {} octets", n, before.len() - buf.len())); }
            }
            Err(e) => {
                if !may_err { return fail("rejected", format!("octets {} are well-formed so far but were rejected with {:?}", hex(&s[..at]), e)); }
                if e != DecoderError::InvalidInput { return fail("error-kind", format!("a malformed element was reported as {:?}", e)); }
                if pos > want.end + off { return fail("consumed", format!("octets of the malformed element at {} were consumed (input now starts at {})", want.end + off, pos)); }
                if pos < want.end { return fail("consumed", format!("complete fields end at {} but the input still starts at {}", want.end, pos)); }
                ctx.count("probe:rejected");
                if repeat {
                    let keep = buf.clone();
                    let mut d2: Out = vec![];
                    let r2 = ctx.sut("Decoder::decode", || dec.decode(&mut buf, &mut d2))?;
                    if r2 != Err(DecoderError::InvalidInput) || !d2.is_empty() || buf != keep {
                        return fail("repeat", format!("repeating the failed call gave {:?}, {} fields, and {} of {} octets", r2, d2.len(), buf.len(), keep.len()));
                    }
                    // more data does not cure it
                    buf.extend_from_slice(&[8, 1]);
                    let r3 = ctx.sut("Decoder::decode", || dec.decode(&mut buf, &mut d2))?;
                    if matches!(want.last, Step::Bad(_)) && (r3.is_ok() || !d2.is_empty()) {
                        return fail("repeat", format!("after more octets the malformed element is {:?} with {} fields", r3, d2.len()));
                    }
                }
                return Ok(true);
            }
        }
        if at == s.len() { return Ok(false); }
        if at < s.len() { ctx.fault("fault:cut"); }
    }
}

pub fn damaged(ctx: &mut Ctx) -> R {
    let mut s = vec![];
    let mut fields = stream(ctx, 5, &mut s)?;
    if ctx.src.chance(1, 2000) { bulk(ctx, &mut s, &mut fields); }
    let mut ends = vec![0];
    { let mut e = 0; let mut rest = &s[..]; while let Step::Field(_, n) = rp::step(rest) { e += n; ends.push(e); rest = &s[e..]; } }
    if ends.len() != fields.len() + 1 { return fail("harness-ends", "reference lost its own fields"); }
    let k = ctx.src.below(3) + 1;
    for _ in 0..k {
        let d = if ctx.src.chance(1, 2) { aimed(ctx, &mut s, &ends) } else { gen::damage(ctx, &mut s) };
        ends.retain(|e| *e <= s.len());
        ev!(ctx, "damage: {}", d);
    }
    ev!(ctx, "stream now {} octets {}", s.len(), hex(&s));
    let in_pieces = ctx.src.chance(1, 2);
    let bad = judge(ctx, &s, in_pieces, true)?;
    ctx.steps += 1;
    if !bad { ctx.count("probe:damage_left_stream_valid"); }
    ctx.state(mix(bad as u64, fnv(&s)));
    Ok(())
}

// ----------------------------------------------------------------- writers

#[derive(Clone, Copy, PartialEq, Debug)]
enum Break { None, At(usize, u8), Zero(usize), Panic(usize) }

/// A writer whose behaviour is fixed by a few drawn numbers.
pub(super) struct Sink {
    pub(super) data: Vec<u8>,
    rng: Rng,
    short: u64,
    eintr: u64,
    /// interruptions in a row, once one strikes
    burst: u64,
    in_burst: u64,
    brk: Break,
    pub(super) failed: bool,
    after: usize,
    pub(super) calls: u64,
    shorts: u64,
    eintrs: u64,
    /// encodes this itself, to somewhere else, whenever it is written to
    nested: Option<(u32, Val, Vec<u8>)>,
    nested_calls: u64,
    nested_bad: Option<String>,
    vectored: u64,
}

impl Sink {
    pub(super) fn new(ctx: &mut Ctx, hard_at: Option<usize>) -> Sink {
        let short = *ctx.src.pick(&[0u64, 1, 4, 8, 9]);
        let burst = *ctx.src.pick(&[1u64, 1, 1, 2, 5, 40, 300]);
        let eintr = *ctx.src.pick(&[0u64, 0, 1, 4]);
        let seed = ctx.src.raw(1 << 32);
        let brk = match hard_at {
            None => Break::None,
            Some(n) => if ctx.src.chance(1, 5) { Break::Zero(n) } else { Break::At(n, ctx.src.below(9) as u8) },
        };
        Sink { data: vec![], rng: Rng::new(seed), short, eintr, burst, in_burst: 0, brk, failed: false, after: 0, calls: 0, shorts: 0, eintrs: 0, nested: None, nested_calls: 0, nested_bad: None, vectored: 0 }
    }
    fn nest(&mut self) {
        if self.nested_calls >= 6 { return; }
        if let Some((t, v, want)) = &self.nested {
            self.nested_calls += 1;
            let mut out = vec![];
            let r = v.encode(*t, &mut out);
            if self.nested_bad.is_none() && (r != Ok(want.len()) || out != *want) {
                self.nested_bad = Some(format!("encoding {} tag {} from within the writer gave {:?} and {} instead of {}", v.name(), t, r, hex(&out), hex(want)));
            }
        }
    }
    /// Empties it; the next octets meet the given end.
    pub(super) fn reset(&mut self, hard_at: Option<usize>) {
        self.data.clear();
        self.failed = false;
        self.after = 0;
        self.in_burst = 0;
        self.eintrs = 0;
        self.brk = match hard_at { None => Break::None, Some(n) => Break::At(n, n as u8) };
    }
    pub(super) fn report(&self, ctx: &mut Ctx) {
        if self.shorts > 0 { ctx.nontrivial = true; ctx.add("fault:short_write", self.shorts); }
        if self.eintrs > 0 { ctx.nontrivial = true; ctx.add("fault:interrupted_write", self.eintrs); }
        if self.vectored > 0 { ctx.add("probe:vectored_write", self.vectored); }
        if self.nested_calls > 0 { ctx.nontrivial = true; ctx.add("fault:reentrant_write", self.nested_calls); }
        if self.failed { match self.brk { Break::Zero(_) => ctx.fault("fault:zero_write"), Break::Panic(_) => ctx.fault("fault:panicking_write"), _ => ctx.fault("fault:failed_write") } }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        self.calls += 1;
        if self.nested.is_some() { self.nest(); }
        if self.failed { self.after += b.len(); self.data.extend_from_slice(b); return Ok(b.len()); }
        if self.in_burst > 0 || self.eintr > 0 && self.eintrs < 1000 && self.rng.below(8) < self.eintr {
            if self.in_burst == 0 { self.in_burst = self.burst; }
            self.in_burst -= 1;
            self.eintrs += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len();
        if self.short > 0 && n > 1 && self.rng.below(8) < self.short { n = if self.short == 9 { 1 } else { 1 + self.rng.below(n as u64 - 1) as usize }; self.shorts += 1; }
        match self.brk {
            Break::At(at, _) | Break::Zero(at) | Break::Panic(at) if self.data.len() + n > at => {
                let room = at - self.data.len();
                if room > 0 { self.data.extend_from_slice(&b[..room]); return Ok(room); }
                self.failed = true;
                match self.brk {
                    Break::Zero(_) => return Ok(0),
                    Break::Panic(_) => panic!("the writer gives up"),
                    Break::At(_, k) => return Err([io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidInput, io::ErrorKind::OutOfMemory][k as usize % 9].into()),
                    Break::None => {}
                }
            }
            _ => {}
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    /// Like a file: may take part of several buffers.
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        self.vectored += 1;
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.write(&all)
    }
    /// Nobody asked for it: what comes of it is no part of an encode.
    fn flush(&mut self) -> io::Result<()> {
        match self.calls % 3 { 0 => Ok(()), 1 => Err(io::ErrorKind::Interrupted.into()), _ => Err(io::ErrorKind::Other.into()) }
    }
}

/// One writer after the other gives up on the same value; the thread must be
/// none the worse for it.
fn writers_giving_up(ctx: &mut Ctx) -> R {
    let t = val::tag(ctx);
    let v = val::val(ctx);
    let mut want = vec![];
    rp::put_raw(&mut want, &(t, v.wire(), v.octets()));
    if want.len() > 2000 { return Ok(()); }
    let at = ctx.src.below(want.len());
    let kind = ctx.src.below(3);
    let times = ctx.src.range(5, 200);
    for k in 0..times {
        let mut w = Sink::new(ctx, Some(at));
        w.brk = match kind { 0 => Break::Panic(at), 1 => Break::Zero(at), _ => Break::At(at, k as u8) };
        let r = ctx.sut("Encoder::encode", || catch_unwind(AssertUnwindSafe(|| v.encode(t, &mut w))))?;
        let ok = match r { Ok(r) => r.is_err(), Err(_) => kind == 0 };
        ctx.now += 1 + w.calls;
        w.report(ctx);
        if !ok || !w.failed || w.after > 0 || w.data != want[..at] {
            return fail("prefix", format!("writer {} of {} that give up after {} octets of {} got {} and {} octets afterwards", k + 1, times, at, hex(&want), hex(&w.data), w.after));
        }
    }
    let mut out = vec![];
    let r = ctx.sut("Encoder::encode", || v.encode(t, &mut out))?;
    ev!(ctx, "{} writers gave up after {} octets of {} tag {}, then {:?}", times, at, v.name(), t, r);
    if r != Ok(want.len()) || out != want {
        return fail("aftermath", format!("after {} writers gave up, encoding {} tag {} gave {:?} and {} instead of {}", times, v.name(), t, r, hex(&out), hex(&want)));
    }
    ctx.count("probe:many_writers_gave_up");
    Ok(())
}

/// One field whose length takes five octets, through a writer and back.
fn colossal(ctx: &mut Ctx) -> R {
    let n = (1usize << 28) - 8 + ctx.src.below(3) * 8;
    let t = val::tag(ctx);
    let doubles = ctx.src.chance(1, 2);
    ev!(ctx, "a field of {} octets, tag {}", n, t);
    ctx.count("probe:colossal");
    ctx.steps += 1;
    let mut out: Vec<u8> = Vec::with_capacity(n + 16);
    let r = if doubles {
        let mut v = vec![1.5f64; n / 8];
        v[n / 8 - 1] = -2.25;
        let o = &mut out;
        ctx.sut("Encoder::encode", || Encoder::default().encode((&t, EncoderLit::DoubleVec(&v)), o))?
    } else {
        let mut v = vec![0x5au8; n];
        v[n - 1] = 0xc3;
        let o = &mut out;
        ctx.sut("Encoder::encode", || Encoder::default().encode((&t, EncoderLit::Bytes(&v)), o))?
    };
    let mut head = vec![];
    rp::put_varint(&mut head, (t as u64) << 3 | 2);
    rp::put_varint(&mut head, n as u64);
    match r {
        Ok(k) if k == head.len() + n && out.len() == k && out.starts_with(&head) => {}
        r => return fail("colossal", format!("encoding {} octets: {:?}, {} octets that begin with {} instead of {}", n, r, out.len(), hex(&out[..out.len().min(12)]), hex(&head))),
    }
    let body = &out[head.len()..];
    let unit: Vec<u8> = if doubles { 1.5f64.to_le_bytes().to_vec() } else { vec![0x5a; 8] };
    let last: Vec<u8> = if doubles { (-2.25f64).to_le_bytes().to_vec() } else { vec![0x5a, 0x5a, 0x5a, 0x5a, 0x5a, 0x5a, 0x5a, 0xc3] };
    let same = |b: &[u8]| b.len() == n && b[..n - 8].chunks_exact(8).all(|c| c == &unit[..]) && b[n - 8..] == last[..];
    if !same(body) { return fail("colossal", format!("the {} octets of a field were changed on the way to the writer", n)); }
    let mut got = vec![];
    let (o, g) = (&mut out, &mut got);
    let r = ctx.sut("Decoder::decode", || Decoder::default().decode(o, g))?;
    let ok = match got.first() { Some((tag, Typ::LengthDelimited, b)) => *tag == t && same(b), _ => false };
    if !ok || got.len() != 1 || !out.is_empty() || r != Ok(head.len() + n) { return fail("colossal", format!("a field of {} octets was decoded as {:?} with {} fields, {} octets left", n, r, got.len(), out.len())); }
    Ok(())
}

pub fn writers(ctx: &mut Ctx) -> R {
    if ctx.src.chance(1, 400_000) { colossal(ctx)?; }
    if ctx.src.chance(1, 60) { writers_giving_up(ctx)?; }
    let mut n = 0;
    while n < 20 && ctx.src.more(6) {
        n += 1;
        ctx.steps += 1;
        ctx.src.begin();
        let t = val::tag(ctx);
        let v = val::val(ctx);
        let mut want = vec![];
        rp::put_raw(&mut want, &(t, v.wire(), v.octets()));
        let hard = if ctx.src.chance(1, 2) {
            Some(match ctx.src.below(4) { 0 => want.len() - 1, 1 => ctx.src.below(want.len().min(12)), 2 => ctx.src.below(want.len()), _ => want.len() + ctx.src.below(3) })
        } else { None };
        let mut w = Sink::new(ctx, hard);
        let how = ctx.src.below(4);
        if ctx.src.chance(1, 6) {
            if let Some(n) = hard { w.brk = Break::Panic(n); }
        }
        if ctx.src.chance(1, 5) {
            // the writer frames or indexes what it takes with an encoder of its own
            let (t, v) = (val::tag(ctx), val::val(ctx));
            let mut o = vec![];
            rp::put_raw(&mut o, &(t, v.wire(), v.octets()));
            if o.len() <= 600 { w.nested = Some((t, v, o)); }
        }
        let r = ctx.sut("Encoder::encode", || catch_unwind(AssertUnwindSafe(|| match how {
            0 => v.encode(t, &mut w),
            3 => val::encode_direct(&v, t, &mut w),
            1 => { let d: &mut dyn Write = &mut w; v.encode(t, d) }
            _ => val::encode_plain(&v, t, &mut w),
        })))?;
        let r = match r {
            Ok(r) => r.map_err(Some),
            Err(_) if w.failed && matches!(w.brk, Break::Panic(_)) => Err(None),
            Err(_) => return fail("panic", format!("encoding {} tag {} panicked although the writer did not: {}", v.name(), t, last_panic())),
        };
        ev!(ctx, "encode {} tag {} to a writer (short {}/8, interrupted {}/8, {:?}): {:?}, {} of {} octets written", v.name(), t, w.short, w.eintr, w.brk, r, w.data.len(), want.len());
        ctx.now += 1 + w.calls;
        w.report(ctx);
        if let Some(b) = w.nested_bad.take() { return fail("nested", b); }
        match r {
            Ok(k) => {
                if w.failed { return fail("failure-hidden", format!("the writer failed after {} octets but encoding {} reported Ok({})", w.data.len() - w.after, v.name(), k)); }
                if w.data != want { return fail("bytes", format!("encoding {} tag {} reported Ok but wrote {} instead of {}", v.name(), t, hex(&w.data), hex(&want))); }
                if k != want.len() { return fail("size", format!("encoding {} returned {} for {} octets", v.name(), k, want.len())); }
                ctx.count("probe:encoded");
            }
            Err(e) => {
                if !w.failed { return fail("spurious", format!("encoding {} failed with {:?} although the writer never did", v.name(), e)); }
                if w.after > 0 { return fail("written-after", format!("{} octets were written after the writer had failed", w.after)); }
                if w.data.len() >= want.len() || w.data[..] != want[..w.data.len()] {
                    return fail("prefix", format!("the failed encode of {} wrote {} which is not a proper prefix of {}", v.name(), hex(&w.data), hex(&want)));
                }
                ctx.count("probe:encode_failed");
            }
        }
        ctx.state(mix(n as u64, mix(want.len() as u64, w.data.len() as u64)));
        ctx.src.end();
    }
    Ok(())
}

// --------------------------------------------------------------------- log

/// An append-only file: what is synced survives a crash, of the rest any
/// prefix may. The disk may be full, interrupt, write short or fail.
struct Disk { cache: Vec<u8>, synced: usize, capacity: usize, io_error_at: Option<usize>, rng: Rng, short: u64, eintr: u64, hits: [u64; 4], writes: u64 }

impl Write for Disk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        self.writes += 1;
        if self.eintr > 0 && self.rng.below(16) < self.eintr { self.hits[0] += 1; return Err(io::ErrorKind::Interrupted.into()); }
        if let Some(n) = self.io_error_at { if self.cache.len() >= n { self.io_error_at = None; self.hits[1] += 1; return Err(io::ErrorKind::Other.into()); } }
        let room = self.capacity.saturating_sub(self.cache.len());
        if room == 0 { self.hits[2] += 1; return Err(io::ErrorKind::Other.into()); }
        let mut n = b.len().min(room);
        if let Some(k) = self.io_error_at { n = n.min(k - self.cache.len()); }
        if n > 1 && self.short > 0 && self.rng.below(8) < self.short { n = 1 + self.rng.below(n as u64 - 1) as usize; self.hits[3] += 1; }
        self.cache.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.write(&all)
    }
    /// The application syncs by other means; on this disk flushing fails.
    fn flush(&mut self) -> io::Result<()> { Err(io::ErrorKind::Other.into()) }
}

pub fn log(ctx: &mut Ctx) -> R {
    let capacity = *ctx.src.pick(&[1usize << 20, 200, 2000, 60]);
    let seed = ctx.src.raw(1 << 32);
    let mut disk = Disk { cache: vec![], synced: 0, capacity, io_error_at: None, rng: Rng::new(seed), short: *ctx.src.pick(&[0u64, 3]), eintr: *ctx.src.pick(&[0u64, 2]), hits: [0; 4], writes: 0 };
    let mut records: Vec<Raw> = vec![]; // whole records in the log, in order
    let mut acked = 0usize; // of those, acknowledged as durable
    let mut size = 0usize; // the application's own idea of the log size
    let mut n = 0;
    ev!(ctx, "log on a disk of {} octets", capacity);
    if capacity > 1 << 19 && ctx.src.chance(1, 1500) {
        ctx.count("probe:long_log");
        let k = *ctx.src.pick(&[300u64, 300, 1200, 1200, 1200, 5000, 5000, 20_000, 70_000]);
        let mut r = Rng::new(seed);
        for i in 0..k {
            // decoding takes time quadratic in what is buffered: keep the longest small
            let t = 1 + r.below(if k > 20_000 { 15 } else { 5000 }) as u32;
            let x = if k > 20_000 { i % 128 } else if i % 7 == 0 { r.next() } else { i };
            let mut want = vec![];
            rp::put_varint(&mut want, x);
            let v = Val::UInt64(x);
            let e = ctx.sut("Encoder::encode", || v.encode(t, &mut disk))?;
            match e { Ok(k) => size += k, Err(_) => break }
            records.push((t, rp::VARINT, want));
        }
        if disk.cache.len() > size { disk.cache.truncate(size); }
        ev!(ctx, "{} records appended", records.len());
    }
    while n < (if records.len() > 10_000 { 4 } else { 60 }) && ctx.src.more(20) {
        n += 1;
        ctx.steps += 1;
        ctx.now += 1 + ctx.src.raw(2000);
        ctx.src.begin();
        match ctx.src.weighted(&[8, 3, 2, 2, 1]) {
            0 => {
                let t = val::tag(ctx);
                let v = val::val(ctx);
                let raw: Raw = (t, v.wire(), v.octets());
                let mut want = vec![];
                rp::put_raw(&mut want, &raw);
                if ctx.src.chance(1, 6) { disk.io_error_at = Some(disk.cache.len() + ctx.src.below(want.len() + 2)); }
                let crash_mid = ctx.src.chance(1, 12);
                let r = ctx.sut("Encoder::encode", || v.encode(t, &mut disk))?;
                ev!(ctx, "append {} tag {} ({} octets): {:?}", v.name(), t, want.len(), r);
                match r {
                    Ok(k) => { size += k; records.push(raw); }
                    Err(EncoderError::InvalidTag) => return fail("valid-tag-refused", format!("tag {} was refused", t)),
                    Err(_) => {
                        ctx.count("probe:append_failed");
                        if disk.cache.len() < size || disk.cache.len() >= size + want.len() || disk.cache[size..] != want[..disk.cache.len() - size] {
                            return fail("torn", format!("the failed append left {} instead of a proper prefix of the record {}", hex(disk.cache.get(size..).unwrap_or(&[])), hex(&want)));
                        }
                        if crash_mid {
                            // power fails before the application can clean up
                            recover(ctx, &mut disk, &mut records, &mut acked, &mut size)?;
                        } else if disk.cache.len() > size {
                            ctx.count("probe:torn_append_cut");
                            disk.cache.truncate(size);
                            disk.synced = disk.synced.min(size);
                        }
                    }
                }
            }
            1 => {
                // an append with a tag the format does not allow
                let t = val::bad_tag(ctx);
                let v = val::val(ctx);
                let (len, writes) = (disk.cache.len(), disk.writes);
                let r = ctx.sut("Encoder::encode", || v.encode(t, &mut disk))?;
                ev!(ctx, "append {} with invalid tag {}: {:?}", v.name(), t, r);
                ctx.fault("fault:invalid_tag");
                if r != Err(EncoderError::InvalidTag) { return fail("invalid-tag", format!("encoding {} with tag {} gave {:?}", v.name(), t, r)); }
                if disk.cache.len() != len || disk.writes != writes { return fail("invalid-tag", format!("encoding {} with invalid tag {} wrote {}", v.name(), t, hex(disk.cache.get(len..).unwrap_or(&[])))); }
            }
            2 => {
                disk.synced = disk.cache.len();
                acked = records.len();
                ctx.count("probe:synced");
                ev!(ctx, "sync: {} records acknowledged", acked);
            }
            3 => recover(ctx, &mut disk, &mut records, &mut acked, &mut size)?,
            _ => replay(ctx, &disk.cache, &records, records.len())?,
        }
        ctx.state(mix(disk.cache.len() as u64, mix(records.len() as u64, acked as u64)));
        ctx.src.end();
    }
    for (i, k) in ["fault:interrupted_write", "fault:io_error", "fault:disk_full", "fault:short_write"].iter().enumerate() {
        if disk.hits[i] > 0 { ctx.nontrivial = true; ctx.add(k, disk.hits[i]); }
    }
    recover(ctx, &mut disk, &mut records, &mut acked, &mut size)
}

fn recover(ctx: &mut Ctx, disk: &mut Disk, records: &mut Vec<Raw>, acked: &mut usize, size: &mut usize) -> R {
    ctx.fault("fault:crash");
    let lose = ctx.src.below(disk.cache.len() - disk.synced + 1);
    if lose > 0 { ctx.fault("fault:unsynced_lost"); }
    disk.cache.truncate(disk.cache.len() - lose);
    let whole = rp::parse(&disk.cache);
    if whole.end < disk.cache.len() { ctx.fault("fault:torn_tail"); }
    ev!(ctx, "crash: {} octets lost, {} remain, {} in whole records", lose, disk.cache.len(), whole.end);
    disk.cache.truncate(whole.end);
    disk.synced = disk.cache.len();
    let kept = whole.fields.len();
    if kept < *acked || kept > records.len() {
        return fail("log", format!("{} whole records remain of {} appended and {} acknowledged", kept, records.len(), acked));
    }
    replay(ctx, &disk.cache, records, kept)?;
    records.truncate(kept);
    *acked = kept;
    *size = disk.cache.len();
    Ok(())
}

/// Reads the log through the real decoder in arbitrary read sizes.
fn replay(ctx: &mut Ctx, log: &[u8], records: &[Raw], count: usize) -> R {
    let mut dec = Decoder::default();
    let mut buf = vec![];
    let mut got = 0;
    let mut at = 0;
    let mut reads = 0;
    while at < log.len() {
        let n = if reads > 60 { log.len() - at } else { gen::cut(ctx, log.len() - at) };
        reads += 1;
        buf.extend_from_slice(&log[at..at + n]);
        at += n;
        let mut dst: Out = vec![];
        let r = ctx.sut("Decoder::decode", || dec.decode(&mut buf, &mut dst))?;
        if let Err(e) = r { return fail("replay", format!("replaying the log failed with {:?} at octet {}", e, at)); }
        check_delivered(&records[..count], got, &dst)?;
        got += dst.len();
    }
    if got != count { return fail("replay-lost", format!("the log replays {} of its {} records", got, count)); }
    ctx.add("probe:replayed", got as u64);
    Ok(())
}

// ------------------------------------------------------------------- typed

enum Node { Leaf(u32, Val), Text(u32, String), Msg(u32, Vec<Node>) }

fn tree(ctx: &mut Ctx, depth: usize, avg: usize) -> Vec<Node> {
    let mut v = vec![];
    let mut k = 0;
    while k < 14 && ctx.src.more(avg) {
        k += 1;
        ctx.src.begin();
        let t = val::tag(ctx);
        let n = match ctx.src.weighted(&[10, 1, if depth > 0 { 3 } else { 0 }]) {
            0 => Node::Leaf(t, val::val(ctx)),
            1 => {
                let n = if ctx.src.chance(1, 10) { ctx.src.below(700) } else { ctx.src.below(12) };
                let seed = ctx.src.raw(1 << 30);
                let mut r = Rng::new(seed);
                Node::Text(t, (0..n).filter_map(|_| char::from_u32(match r.below(5) { 0 => 32 + r.below(90) as u32, 1 => 0x400 + r.below(200) as u32, 2 => r.below(0x11_0000) as u32, 3 => [0, 9, 10, 13, 32, 127, 128, 0xa0, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x2028][r.below(18) as usize], _ => 0x1F300 + r.below(300) as u32 })).collect())
            }
            _ => Node::Msg(t, tree(ctx, depth - 1, 3)),
        };
        v.push(n);
        ctx.src.end();
    }
    v
}

fn ref_bytes(nodes: &[Node]) -> Vec<u8> {
    let mut o = vec![];
    for n in nodes {
        let raw = match n {
            Node::Leaf(t, v) => (*t, v.wire(), v.octets()),
            Node::Text(t, s) => (*t, rp::LEN, s.as_bytes().to_vec()),
            Node::Msg(t, m) => (*t, rp::LEN, ref_bytes(m)),
        };
        rp::put_raw(&mut o, &raw);
    }
    o
}

/// The same message from a writer that pads its variable-length integers.
fn padded_bytes(ctx: &mut Ctx, nodes: &[Node]) -> Vec<u8> {
    let mut o = vec![];
    for n in nodes {
        let (t, w, raw) = match n {
            Node::Leaf(t, v) => (*t, v.wire(), repad(ctx, v)),
            Node::Text(t, s) => (*t, rp::LEN, s.as_bytes().to_vec()),
            Node::Msg(t, m) => (*t, rp::LEN, padded_bytes(ctx, m)),
        };
        let pad = ctx.src.below(8).saturating_sub(3);
        rp::put_varint_padded(&mut o, ((t as u64) << 3) | w as u64, pad);
        if w == rp::LEN { let pad = ctx.src.below(14).saturating_sub(4); rp::put_varint_padded(&mut o, raw.len() as u64, pad); }
        o.extend(raw);
    }
    o
}
fn repad(ctx: &mut Ctx, v: &Val) -> Vec<u8> {
    let raw = v.octets();
    let name = v.name();
    if name == "Bytes" || name.contains("Fixed") || name.contains("Float") || name.contains("Double") { return raw; }
    let mut o = vec![];
    let mut x = 0u64;
    let mut shift = 0;
    for b in &raw {
        x |= ((b & 127) as u64) << shift;
        shift += 7;
        if b & 128 == 0 {
            let pad = if raw.len() < 200 { ctx.src.below(14).saturating_sub(4) } else { 0 };
            rp::put_varint_padded(&mut o, x, pad);
            x = 0;
            shift = 0;
        }
    }
    ctx.count("probe:padded_value");
    o
}

/// Encodes with the real encoder over faulty writers, retrying whole messages
/// after a failure.
fn send(ctx: &mut Ctx, nodes: &[Node], depth: usize) -> R<Vec<u8>> {
    let want = ref_bytes(nodes);
    let mut attempt = 0;
    loop {
        attempt += 1;
        let hard = if attempt < 3 && depth == 0 && !want.is_empty() && ctx.src.chance(1, 5) { Some(ctx.src.below(want.len())) } else { None };
        let mut w = Sink::new(ctx, hard);
        let mut bad = false;
        for n in nodes {
            let nested = if let Node::Msg(_, m) = n { Some(send(ctx, m, depth + 1)?) } else { None };
            let at = w.data.len();
            let r = ctx.sut("Encoder::encode", || {
                let e = Encoder::default();
                match n {
                    Node::Leaf(t, v) => v.encode(*t, &mut w),
                    Node::Text(t, s) => e.encode((t, EncoderLit::Bytes(&s.as_bytes().to_vec())), &mut w),
                    Node::Msg(t, _) => match &nested { Some(b) => e.encode((t, EncoderLit::Bytes(b)), &mut w), None => Ok(0) },
                }
            })?;
            match r {
                Ok(k) => if k != w.data.len() - at { return fail("size", format!("an encode returned {} for {} octets", k, w.data.len() - at)); },
                Err(e) => { if !w.failed { return fail("spurious", format!("encoding failed with {:?} although the writer never did", e)); } bad = true; break; }
            }
        }
        ctx.now += w.calls;
        w.report(ctx);
        if bad { ctx.fault("fault:send_retried"); continue; }
        if w.failed { return fail("failure-hidden", "the writer failed but every encode reported success"); }
        if w.data != want { return fail("octets", format!("the encoder wrote {} where the wire format has {}", hex(&w.data), hex(&want))); }
        return Ok(w.data);
    }
}

/// Delivers a stream in pieces to a fresh decoder.
fn receive(ctx: &mut Ctx, s: &[u8]) -> R<Vec<Raw>> {
    let mut dec = Decoder::default();
    let mut buf = vec![];
    let mut out: Vec<Raw> = vec![];
    let (mut at, mut k) = (0, 0);
    while at < s.len() {
        let n = if k > 50 { s.len() - at } else { gen::cut(ctx, s.len() - at) };
        k += 1;
        buf.extend_from_slice(&s[at..at + n]);
        at += n;
        ctx.now += 1 + n as u64;
        if at < s.len() { ctx.fault("fault:cut"); }
        let mut dst: Out = vec![];
        let r = ctx.sut("Decoder::decode", || dec.decode(&mut buf, &mut dst))?;
        if let Err(e) = r { return fail("rejected", format!("a valid message was rejected with {:?}", e)); }
        out.extend(dst.into_iter().map(|d| { let t = typ(&d.1); (d.0, t, d.2) }));
    }
    if !buf.is_empty() { return fail("leftover", format!("{} octets of a whole message were not consumed", buf.len())); }
    Ok(out)
}

fn compare_tree(ctx: &mut Ctx, nodes: &[Node], got: &[Raw], at: &str) -> R {
    if nodes.len() != got.len() { return fail("count", format!("message {} has {} fields, {} arrived", at, nodes.len(), got.len())); }
    for (i, (n, g)) in nodes.iter().zip(got).enumerate() {
        let (t, w) = match n { Node::Leaf(t, v) => (*t, v.wire()), Node::Text(t, _) | Node::Msg(t, _) => (*t, rp::LEN) };
        if g.0 != t || g.1 != w { return fail("field", format!("field {} of message {}: tag {} type {} arrived as tag {} type {}", i, at, t, w, g.0, g.1)); }
        match n {
            Node::Leaf(_, v) => {
                let o = g.2.clone();
                let r = ctx.sut("DecoderLit conversion", || v.same(o))?;
                ctx.count("probe:values_compared");
                if let Err(m) = r { return fail("value", format!("field {} of message {} ({}) arrived as {}", i, at, v.name(), m)); }
            }
            Node::Text(_, s) => {
                let o = g.2.clone();
                let r: String = ctx.sut("DecoderLit conversion", || DecoderLit::Bytes(o).into())?;
                if r != *s { return fail("value", format!("text field {} of message {} arrived as {:?} instead of {:?}", i, at, r, s)); }
            }
            Node::Msg(_, m) => {
                ctx.count("probe:nested");
                let inner = receive(ctx, &g.2)?;
                compare_tree(ctx, m, &inner, &format!("{}.{}", at, i))?;
            }
        }
    }
    Ok(())
}

pub fn typed(ctx: &mut Ctx) -> R {
    let nodes = tree(ctx, 3, 5);
    let mut padded = false;
    let mut s = if ctx.src.chance(1, 5) {
        ctx.count("probe:foreign_writer");
        padded = ctx.src.chance(1, 2);
        if padded { padded_bytes(ctx, &nodes) } else { ref_bytes(&nodes) }
    } else { send(ctx, &nodes, 0)? };
    ev!(ctx, "message of {} fields in {} octets {}", nodes.len(), s.len(), hex(&s));
    let relays = if padded { 0 } else { ctx.src.below(3) };
    for r in 0..relays {
        ctx.steps += 1;
        let raws = receive(ctx, &s)?;
        let mut w = Sink::new(ctx, None);
        for (t, ty, o) in &raws {
            let (t, o) = (*t, o.clone());
            // a relay that knows only wire types
            let res = ctx.sut("relay", || {
                let e = Encoder::default();
                match *ty {
                    rp::VARINT => { let v: u64 = DecoderLit::UInt64(o).into(); e.encode((&t, EncoderLit::UInt64(&v)), &mut w) }
                    rp::BIT32 => { let v: u32 = DecoderLit::Fixed32(o).into(); e.encode((&t, EncoderLit::Fixed32(&v)), &mut w) }
                    rp::BIT64 => { let v: u64 = DecoderLit::Fixed64(o).into(); e.encode((&t, EncoderLit::Fixed64(&v)), &mut w) }
                    _ => e.encode((&t, EncoderLit::Bytes(&o)), &mut w),
                }
            })?;
            if res.is_err() { return fail("relay", format!("the relay could not re-encode a field: {:?}", res)); }
        }
        w.report(ctx);
        if w.data != s { return fail("relay", format!("relay {} changed {} into {}", r, hex(&s), hex(&w.data))); }
        s = w.data;
        ctx.count("probe:relayed");
    }
    let got = receive(ctx, &s)?;
    ctx.state(mix(got.len() as u64, fnv(&s)));
    compare_tree(ctx, &nodes, &got, "0")
}

// ----------------------------------------------------------------- hostile

/// One decoder fed for a long time: what it retains between calls must not
/// grow with what it has delivered.
fn soak(ctx: &mut Ctx) -> R {
    let mut s = vec![];
    stream(ctx, 8, &mut s)?;
    let bad = ctx.src.chance(1, 4);
    if bad { let n = 1 + ctx.src.below(2); aimed(ctx, &mut s, &vec![0; n]); }
    s.truncate(4000);
    if s.is_empty() { return Ok(()); }
    let piece = 1 + ctx.src.below(s.len());
    // one round may have the decoder look at all that waits again and again
    let cost = (s.len() + 20) + s.len() * 4 * (s.len() / piece) / 64;
    let rounds = (200 + ctx.src.below(1_200_000)) / cost;
    ev!(ctx, "soak: {} times {} octets in pieces of {}: {}", rounds, s.len(), piece, hex(&s));
    ctx.count("probe:soak");
    ctx.fault("fault:hostile_octets");
    let mut dec = Decoder::default();
    let mut kept = 0isize;
    let mut buf: Vec<u8> = vec![];
    for r in 0..rounds {
        for c in s.chunks(piece) {
            buf.extend_from_slice(c);
            let given = std::mem::take(&mut buf);
            let ((left, err), used) = ctx.sut_m("Decoder::decode", || {
                let mut b = given.as_slice().to_vec();
                let mut d: Out = vec![];
                let e = dec.decode(&mut b, &mut d).is_err();
                drop(d);
                (b.as_slice().to_vec(), e)
            })?;
            kept += used.net - left.capacity() as isize;
            // an error is permanent: whatever is left is thrown away
            buf = if err { vec![] } else { left };
        }
        ctx.steps += 1;
        ctx.now += 100;
        if kept > 32_768 + 128 * (s.len() + buf.len()) as isize {
            return fail("creep", format!("the decoder retains {} bytes after {} rounds of {} octets", kept, r + 1, s.len()));
        }
        if buf.len() > 8 * s.len() + 64 { buf = vec![]; }
    }
    ctx.state(mix(rounds as u64, fnv(&s)));
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> R {
    if ctx.src.chance(1, 1500) { return soak(ctx); }
    let mut n = 0;
    while n < 6 && ctx.src.more(2) {
        n += 1;
        ctx.steps += 1;
        ctx.src.begin();
        let mut s = vec![];
        let k = ctx.src.below(8);
        for _ in 0..=k {
            match ctx.src.below(7) {
                0 => { let l = ctx.src.below(60); let seed = ctx.src.u64(); let c = ctx.src.below(4); s.extend(gen::fill([2, 3, 6, 4][c], seed, l)); }
                1 => { rp::put_key(&mut s, val::tag(ctx), rp::LEN); rp::put_varint(&mut s, val::bits(ctx)); ctx.fault("fault:announced_length"); }
                2 => { let l = ctx.src.below(40); s.extend(vec![*ctx.src.pick(&[0xffu8, 0x80, 0, 8, 10]); l]); }
                3 => { stream(ctx, 2, &mut s)?; }
                4 => { let e = 1 + ctx.src.below(3); aimed(ctx, &mut s, &vec![0; e]); }
                5 => { rp::put_key(&mut s, val::tag(ctx), *ctx.src.pick(&[0u8, 1, 5])); }
                _ => if ctx.src.chance(1, 8) { let l = 2000 + ctx.src.below(12000); s.extend([8u8, 0].iter().cycle().take(l)); ctx.count("probe:tiny_fields"); } else { gen::damage(ctx, &mut s); }
            }
            if s.len() > 16_000 { break; }
        }
        ctx.fault("fault:hostile_octets");
        ev!(ctx, "hostile octets {}: {}", s.len(), hex(&s));
        let in_pieces = ctx.src.chance(1, 2);
        judge(ctx, &s, in_pieces, false)?;
        // convert whatever octets to every kind
        let from = ctx.src.below(s.len() + 1);
        let len = ctx.src.below(s.len() - from + 1).min(600);
        let o = &s[from..from + len];
        for kind in 0..=KINDS {
            let copy = o.to_vec();
            let (_, used) = ctx.sut_m("DecoderLit conversion", || val::convert(kind, copy))?;
            if used.peak > 16_384 + 64 * len as isize { return fail("memory", format!("converting {} octets (kind {}) allocated {} bytes", len, kind, used.peak)); }
        }
        if ctx.src.chance(1, 8) {
            // a literal taken for another type converts to something, quietly
            let copy = o[..len.min(40)].to_vec();
            ctx.sut("DecoderLit conversion", || val::mismatched(&copy))?;
            ctx.count("probe:mismatched_conversions");
        }
        retained(ctx, &s)?;
        ctx.state(fnv(&s));
        ctx.src.end();
    }
    Ok(())
}

/// Memory kept by a decoder between calls.
fn retained(ctx: &mut Ctx, s: &[u8]) -> R {
    let mut dec = Decoder::default();
    let mut kept = 0isize;
    let mut rest: Vec<u8> = vec![];
    let piece = (1 + ctx.src.below(64) * 8).max(s.len() / 300);
    for c in s.chunks(piece) {
        rest.extend_from_slice(c);
        let given = rest.clone();
        let ((left, err), used) = ctx.sut_m("Decoder::decode", || {
            let mut b = given.to_vec();
            let mut d: Out = vec![];
            let e = dec.decode(&mut b, &mut d).is_err();
            drop(d);
            (b.as_slice().to_vec(), e)
        })?;
        kept += used.net - left.capacity() as isize;
        rest = left;
        if kept > 16_384 + 128 * s.len() as isize { return fail("retained", format!("the decoder retains {} bytes after at most {} octets", kept, s.len())); }
        if err { break; }
    }
    Ok(())
}
