//! Memory over the life of connections (C24): both HPACK endpoints and the
//! Protocol Buffers encoder and decoder under a measuring allocator. What an
//! endpoint keeps follows its table, up and down; nothing else accumulates.

use super::hp::{self, Op, Out};
use super::pb::Sink;
use super::val;
use crate::core::ctx::{fail, hex, Ctx, R};
use crate::core::src::{mix, Rng};
use crate::ev;
use crate::gen;
use crate::refm::hpack::{self as rh, RTable, Rep};
use crate::refm::proto as rp;
use httlib_hpack::{Decoder, DecoderError, Encoder};

/// Kept beside the table, whatever the history.
const KEEP: isize = 64 * 1024;

struct Ends {
    enc: Encoder<'static>,
    dec: Decoder<'static>,
    /// The table both ends hold once the wire is empty.
    t: RTable,
    enc_kept: isize,
    dec_kept: isize,
    limit: u32,
    most_entries: usize,
    /// The largest single call so far, in octets in and out.
    largest: isize,
    wire: Vec<u8>,
    total: u64,
}

impl Ends {
    fn open(ctx: &mut Ctx, size: u32) -> R<Ends> {
        let (enc, u) = ctx.sut_m("Encoder::with_dynamic_size", || Encoder::with_dynamic_size(size))?;
        let (dec, v) = ctx.sut_m("Decoder::with_dynamic_size", || Decoder::with_dynamic_size(size))?;
        let e = Ends { enc, dec, t: RTable::new(size as u64), enc_kept: u.net, dec_kept: v.net, limit: size, most_entries: 0, largest: 0, wire: vec![], total: 0 };
        e.check("a fresh pair")?;
        Ok(e)
    }
    /// What an end may keep: its entries, room for as many as it ever held,
    /// and buffers no larger than the largest call needed.
    fn allowance(&self) -> isize {
        KEEP + 2 * self.t.size as isize + 160 * self.most_entries as isize + 8 * self.largest
    }
    fn check(&self, after: &str) -> R {
        let a = self.allowance();
        for (who, kept) in [("encoder", self.enc_kept), ("decoder", self.dec_kept)] {
            if kept > a {
                return fail("kept", format!("after {} the {} keeps {} bytes; its table has {} entries of {} octets (at most {} entries ever, largest call {} octets, {} octets in all)",
                    after, who, kept, self.t.dynq.len(), self.t.size, self.most_entries, self.largest, self.total));
            }
        }
        Ok(())
    }
    fn spent(&mut self, who: &str, n: usize, peak: isize) -> R {
        self.largest = self.largest.max(n as isize);
        let bound = KEEP + 32 * n as isize + self.allowance();
        if peak > bound { return fail("peak", format!("one {} call on {} octets used {} bytes with a table of {} octets", who, n, peak, self.t.size)); }
        Ok(())
    }
    fn encode(&mut self, ctx: &mut Ctx, o: &Op) -> R {
        let enc = &mut self.enc;
        let (r, u) = ctx.sut_m("Encoder::encode", || {
            let mut out = vec![];
            let r = match o {
                Op::Index(i) => enc.encode(*i, &mut out),
                Op::NameIndex(i, v, f) => enc.encode((*i, v.clone(), *f), &mut out),
                Op::Lit(n, v, f) => enc.encode((n.clone(), v.clone(), *f), &mut out),
            };
            (out.into_boxed_slice(), r.is_ok())
        })?;
        self.enc_kept += u.net - r.0.len() as isize;
        let n = r.0.len() + match o { Op::Index(_) => 0, Op::NameIndex(_, v, _) => v.len(), Op::Lit(n, v, _) => n.len() + v.len() };
        self.total += n as u64;
        if r.1 {
            match rh::rep(&r.0, &self.t, u64::MAX) {
                Ok((rep, k)) if k == r.0.len() => { let _ = rh::apply(&rep, &mut self.t); }
                _ => return fail("out-of-step", format!("{} wrote {}, which no peer can read", hp::show_op(o), hex(&r.0))),
            }
            self.most_entries = self.most_entries.max(self.t.dynq.len() + 1);
            self.wire.extend_from_slice(&r.0);
        } else { ctx.fault("fault:refused_call"); }
        self.spent("encode", n, u.peak)
    }
    fn resize(&mut self, ctx: &mut Ctx, s: u32) -> R {
        let (enc, dec) = (&mut self.enc, &mut self.dec);
        if s > self.limit {
            let ((), u) = ctx.sut_m("Decoder::set_max_dynamic_size", || dec.set_max_dynamic_size(s))?;
            self.dec_kept += u.net;
            self.limit = s;
        }
        let (o, u) = ctx.sut_m("Encoder::update_max_dynamic_size", || { let mut out = vec![]; let _ = enc.update_max_dynamic_size(s, &mut out); out.into_boxed_slice() })?;
        self.enc_kept += u.net - o.len() as isize;
        self.t.set_max(s as u64);
        self.wire.extend_from_slice(&o);
        ctx.fault("fault:resize");
        Ok(())
    }
    /// Everything written is delivered, in pieces of at most `piece` octets.
    fn deliver(&mut self, ctx: &mut Ctx, piece: usize) -> R {
        let wire = std::mem::take(&mut self.wire);
        let mut buf: Vec<u8> = vec![];
        for c in wire.chunks(piece.max(1)) {
            buf.extend_from_slice(c);
            let given = std::mem::take(&mut buf);
            let dec = &mut self.dec;
            let ((left, ok, octets), u) = ctx.sut_m("Decoder::decode", || {
                let mut b = given.as_slice().to_vec();
                let mut d: Out = vec![];
                let r = dec.decode(&mut b, &mut d);
                let octets: usize = d.iter().map(|f| f.0.len() + f.1.len() + 64).sum();
                drop(d);
                (b.into_boxed_slice(), r.is_ok() || r == Err(DecoderError::IntegerUnderflow), octets)
            })?;
            if !ok { return fail("out-of-step", format!("{} was rejected", hex(&given))); }
            self.dec_kept += u.net - left.len() as isize;
            self.spent("decode", given.len() + octets, u.peak)?;
            buf = left.into_vec();
        }
        if !buf.is_empty() { return fail("out-of-step", format!("{} of whole fields was left", hex(&buf))); }
        Ok(())
    }
    /// Octets that cannot be read, then the connection goes on with a clean
    /// block (the damaged one is dropped).
    fn abuse(&mut self, ctx: &mut Ctx, kind: usize, tail: usize) -> R {
        let n = self.t.len() as u64;
        let mut s = vec![];
        match kind {
            0 => { let i = gen::wild_index(ctx, n, 1 << 27); rh::put_rep(&mut s, &Rep::Indexed(i), [0; 3]); }
            1 => { s.extend([0x00, 0x7f, 0xff, 0xff, 0x03]); s.extend(vec![b'a'; 900]); }
            2 => s.extend([0x00, 0x84, 0xff, 0xff, 0xff, 0xff, 0x01, b'a']),
            3 if self.limit < 1 << 27 => rh::put_rep(&mut s, &Rep::Size(self.limit as u64 + 1), [0; 3]),
            _ => s.extend([0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
        }
        s.resize(s.len() + tail, b'a');
        ctx.fault("fault:unreadable");
        let dec = &mut self.dec;
        let (left, u) = ctx.sut_m("Decoder::decode", || {
            let mut b = s.clone();
            let mut d: Out = vec![];
            let _ = dec.decode(&mut b, &mut d);
            drop(d);
            b.into_boxed_slice()
        })?;
        self.dec_kept += u.net - left.len() as isize;
        self.spent("decode", 64 + s.len(), u.peak)
    }
    fn close(self, ctx: &mut Ctx) -> R<isize> {
        let Ends { enc, dec, enc_kept, dec_kept, .. } = self;
        let ((), u) = ctx.sut_m("drop", || { drop(enc); drop(dec); })?;
        Ok(enc_kept + dec_kept + u.net)
    }
}

/// What a phase of a connection's life consists of, repeated many times.
fn op(r: &mut Rng, kind: usize, i: u64, len: usize, t: &RTable) -> Op {
    let f = r.below(4) as u8;
    let d = t.dynq.len() as u64;
    match kind {
        // every field new
        0 => Op::Lit(format!("{:x}-{}", i, i).into_bytes(), vec![b'0' + (i % 10) as u8; len], 4 | f),
        // a few names, every value new
        1 => Op::NameIndex(1 + r.below(61) as u32, format!("{:0w$x}", i, w = len.max(1)).into_bytes(), 4 | f),
        // what the table already has
        2 if d > 0 => { let e = &t.dynq[r.below(d) as usize]; Op::Lit(e.0.clone(), e.1.clone(), 0x10 | f | [0u8, 4][r.below(2) as usize]) }
        3 if d > 0 => Op::Index(62 + r.below(d) as u32),
        // fields that never enter the table
        4 => Op::Lit(format!("{:x}", i).into_bytes(), vec![b'v'; len], 8 | f | (0x10 & (i as u8))),
        // indexes that denote nothing
        5 => if i % 2 == 0 { Op::Index(t.len() as u32 + 1 + r.below(100) as u32) } else { Op::NameIndex(t.len() as u32 + 1, vec![b'v'; len], f | 4) },
        6 if d > 0 => Op::NameIndex(62 + r.below(d) as u32, vec![b'z'; len], 4 | f),
        // fields larger than the table
        7 => Op::Lit(vec![b'n'; 10], vec![b'b'; (t.max.min(3000) as usize) + 1], 4 | f),
        _ => Op::Lit(b"n".to_vec(), vec![(i & 255) as u8; len], f),
    }
}

pub fn endure(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[6, 2, 2]) {
        0 => life(ctx),
        1 => many_lives(ctx),
        _ => protos(ctx),
    }
}

fn life(ctx: &mut Ctx) -> R {
    let size = match ctx.src.below(12) { 0 => u32::MAX, 1 => 1 << 20, _ => gen::limit(ctx).min(1 << 16) };
    let mut e = Ends::open(ctx, size)?;
    ev!(ctx, "a connection with tables of {}", size);
    let mut phases = 0;
    let mut i = 0u64;
    let soak = ctx.src.chance(1, 40);
    if soak { ctx.count("probe:soak"); }
    while phases < 14 && ctx.src.more(6) {
        phases += 1;
        ctx.src.begin();
        let kind = ctx.src.below(12);
        match kind {
            9 => { let s = gen::limit(ctx).min(1 << 17); ev!(ctx, "resize to {}", s); e.resize(ctx, s)?; }
            10 => {
                // down to nothing and up again, many times
                let n = 1 + ctx.src.below(if soak { 3000 } else { 12 });
                let s = gen::limit(ctx).min(1 << 16);
                ev!(ctx, "{} times to 0 and to {}", n, s);
                ctx.count("probe:resize_storm");
                for _ in 0..n {
                    e.resize(ctx, 0)?;
                    e.resize(ctx, s)?;
                    i += 1;
                    e.encode(ctx, &Op::Lit(format!("{}", i).into_bytes(), vec![b'x'; 20], 4))?;
                }
            }
            11 => { 
                let n = 1 + ctx.src.below(if soak { 8000 } else { 6 });
                let (bad, tail) = (ctx.src.below(5), *ctx.src.pick(&[0usize, 10, 400]));
                ev!(ctx, "{} unreadable blocks of kind {} with {} octets more", n, bad, tail);
                e.deliver(ctx, 4096)?;
                for _ in 0..n { e.abuse(ctx, bad, tail)?; }
                e.check("unreadable blocks")?;
            }
            _ => {
                let n = 1 + ctx.src.below(if soak { 9000 } else { 150 });
                let len = *ctx.src.pick(&[0usize, 1, 10, 40, 200]) * if ctx.src.chance(1, 10) { 20 } else { 1 };
                let n = if size > 1 << 17 && e.t.size > 1 << 19 { n.min(50) } else { n };
                let seed = ctx.src.u64();
                let mut r = Rng::new(seed);
                ev!(ctx, "{} calls of kind {} with values of {}", n, kind, len);
                for k in 0..n {
                    i += 1;
                    ctx.steps += 1;
                    let o = op(&mut r, kind, i, len, &e.t);
                    e.encode(ctx, &o)?;
                    if k % 64 == 63 { e.check("a call")?; if e.wire.len() > 20_000 { e.deliver(ctx, 8192)?; } }
                }
            }
        }
        ctx.now += 1000;
        let piece = *ctx.src.pick(&[usize::MAX, 1000, 64, 7, 1]);
        let piece = if e.wire.len() > 4000 { piece.max(500) } else { piece };
        if piece < e.wire.len() { ctx.fault("fault:cut"); }
        e.deliver(ctx, piece)?;
        e.check("a phase")?;
        ctx.state(mix(e.t.size, e.t.dynq.len() as u64));
        ctx.src.end();
    }
    // the tables are emptied: so is the memory
    e.resize(ctx, 0)?;
    e.deliver(ctx, usize::MAX)?;
    e.check("emptying the table")?;
    ctx.count("probe:emptied");
    let largest = e.largest;
    let left = e.close(ctx)?;
    if left > KEEP + 8 * largest { return fail("leak", format!("{} bytes remain after both ends were dropped", left)); }
    Ok(())
}

/// Very many short connections: nothing may remain of them.
fn many_lives(ctx: &mut Ctx) -> R {
    let n = if ctx.src.chance(1, 30) { 1000 + ctx.src.below(6000) } else { 1 + ctx.src.below(60) };
    if n >= 1000 { ctx.count("probe:many_connections"); }
    let size = gen::limit(ctx).min(1 << 14);
    let kind = ctx.src.below(9);
    let k = 1 + ctx.src.below(6);
    let how = ctx.src.below(3);
    let len = ctx.src.below(60);
    let seed = ctx.src.u64();
    let mut r = Rng::new(seed);
    ev!(ctx, "{} connections with tables of {}, {} calls of kind {}, ending {}", n, size, k, kind, how);
    let mut left = 0isize;
    let mut largest = 0;
    for c in 0..n {
        let mut e = Ends::open(ctx, size)?;
        ctx.steps += 1;
        for i in 0..k {
            let o = op(&mut r, kind, (c * k + i) as u64, len, &e.t);
            e.encode(ctx, &o)?;
        }
        match how {
            0 => e.deliver(ctx, usize::MAX)?,
            // reset with data under way, or in the middle of a block
            1 => ctx.fault("fault:reset"),
            _ => { let bad = ctx.src.below(5); e.abuse(ctx, bad, 0)?; ctx.fault("fault:reset"); }
        }
        largest = largest.max(e.largest);
        left += e.close(ctx)?;
        if left > KEEP + 8 * largest { return fail("leak", format!("{} bytes remain after {} connections were opened and closed", left, c + 1)); }
    }
    ctx.state(mix(n as u64, kind as u64));
    Ok(())
}

/// Protocol Buffers: encoders write to faulty writers, decoders are given
/// broken and unfinished streams, thousands of times.
fn protos(ctx: &mut Ctx) -> R {
    let n = if ctx.src.chance(1, 30) { 500 + ctx.src.below(3000) } else { 1 + ctx.src.below(60) };
    if n >= 500 { ctx.count("probe:soak"); }
    let v = val::val(ctx);
    let tag = if ctx.src.chance(1, 8) { 0 } else { val::tag(ctx) };
    let octets = v.octets();
    let mut kept = 0isize;
    let mut w = Sink::new(ctx, None);
    let hard = ctx.src.chance(1, 2);
    let len = octets.len() + 12;
    let seed = ctx.src.u64();
    let mut r = Rng::new(seed);
    let mut dec = httlib_protos::Decoder::default();
    let mut whole = vec![];
    rp::put_raw(&mut whole, &(1, v.wire(), octets.clone()));
    ev!(ctx, "{} times {} ({} octets), tag {}", n, v.name(), octets.len(), tag);
    for i in 0..n {
        ctx.steps += 1;
        w.reset(if hard { Some(r.below(len as u64) as usize) } else { None });
        let room = w.data.capacity();
        let (res, u) = ctx.sut_m("Encoder::encode", || v.encode(tag, &mut w).is_ok())?;
        if w.failed { ctx.fault("fault:failed_write"); }
        if !res { ctx.count("probe:encode_failed"); }
        kept += u.net - (w.data.capacity() - room) as isize;
        if kept > KEEP + 8 * len as isize { return fail("kept", format!("{} bytes remain after {} encodes of {} octets", kept, i + 1, len)); }
        if u.peak > KEEP + 32 * len as isize { return fail("peak", format!("encoding {} octets used {} bytes", len, u.peak)); }
        // the other side: a prefix of the field, sometimes broken
        let k = r.below(whole.len() as u64 + 1) as usize;
        let mut s = whole[..k].to_vec();
        if r.below(4) == 0 && k > 0 { s[r.below(k as u64) as usize] ^= 1 << r.below(8); }
        let fresh = r.below(3) == 0;
        let ((), u) = ctx.sut_m("Decoder::decode", || {
            let mut b = s.clone();
            let mut d = vec![];
            let _ = dec.decode(&mut b, &mut d);
            if fresh { dec = httlib_protos::Decoder::default(); }
        })?;
        kept += u.net;
        if kept > KEEP + 8 * len as isize { return fail("kept", format!("{} bytes remain after {} unfinished or broken messages of {} octets", kept, i + 1, len)); }
        if fresh { ctx.fault("fault:reset"); }
    }
    ctx.state(mix(octets.len() as u64, n as u64));
    Ok(())
}
