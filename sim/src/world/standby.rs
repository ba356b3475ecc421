//! Standby replay (C23): a connection keeps a record of what was asked of its
//! encoder and of the octets its decoder was given. Standbys that replay the
//! record, at another pace and in other pieces, take over when one side crashes.

use super::hp::{self, show_field, show_op, Op, Out, SutDec, SutEnc};
use crate::core::ctx::{fail, hex, Ctx, R};
use crate::core::src::mix;
use crate::ev;
use crate::gen;
use crate::refm::hpack::{self as rh, RTable};
use httlib_hpack::{Decoder, DecoderError};
use std::collections::VecDeque;

#[derive(Clone)]
enum Call { Encode(Op), Refused(Op), Resize(u32) }

struct Record { call: Call, wrote: Vec<u8> }

/// A standby encoder: has replayed the first `at` records.
struct EncBy { enc: SutEnc, at: usize, skips: bool, out: Vec<u8>, shared: bool }

/// A standby decoder: has been given the first `at` octets and the first
/// `limits` changes of the limit.
struct DecBy { dec: Decoder<'static>, at: usize, limits: usize, buf: Vec<u8>, got: Out, pulls: bool }

struct Conn {
    size: u32,
    enc: SutEnc,
    rx: SutDec,
    wire: VecDeque<u8>,
    buf: Vec<u8>,
    got: Out,
    record: Vec<Record>,
    fed: Vec<u8>,
    limits: Vec<(usize, u32)>,
    eb: EncBy,
    db: DecBy,
}

fn enc_by(ctx: &mut Ctx, size: u32) -> EncBy {
    EncBy { enc: SutEnc::new(size), at: 0, skips: ctx.src.chance(1, 2), out: vec![], shared: ctx.src.chance(1, 2) }
}
fn dec_by(ctx: &mut Ctx, size: u32) -> DecBy {
    let dec = if size == 4096 { Decoder::default() } else { Decoder::with_dynamic_size(size) };
    DecBy { dec, at: 0, limits: 0, buf: vec![], got: vec![], pulls: ctx.src.chance(1, 3) }
}
fn conn(ctx: &mut Ctx) -> Conn {
    let size = gen::initial(ctx);
    let (eb, db) = (enc_by(ctx, size), dec_by(ctx, size));
    Conn { size, enc: SutEnc::new(size), rx: SutDec::new(size), wire: VecDeque::new(), buf: vec![], got: vec![], record: vec![], fed: vec![], limits: vec![], eb, db }
}

impl Conn {
    fn encode(&mut self, ctx: &mut Ctx, o: Op) -> R {
        let mut out = vec![];
        let rep = self.enc.emit(ctx, &o, &mut out, false)?;
        hp::log_op(ctx, "encoder:", &o, &rep);
        self.wire.extend(&out);
        self.record.push(Record { call: Call::Encode(o), wrote: out });
        Ok(())
    }
    fn refuse(&mut self, ctx: &mut Ctx, o: Op) -> R {
        let mut out = vec![];
        let r = self.enc.call(ctx, &o, &mut out)?;
        ev!(ctx, "encoder: {} -> {:?}", show_op(&o), r.is_ok());
        if r.is_ok() || !out.is_empty() { return fail("refusal", format!("{} gave {:?} and {} octets", show_op(&o), r, out.len())); }
        ctx.fault("fault:refused_call");
        self.record.push(Record { call: Call::Refused(o), wrote: vec![] });
        Ok(())
    }
    fn resize(&mut self, ctx: &mut Ctx, s: u32) -> R {
        // the receiver's limit first, then the announcement
        if s as u64 > self.rx.limit { self.limit(ctx, s)?; }
        let mut out = vec![];
        self.enc.resize(ctx, s, &mut out)?;
        ctx.fault("fault:resize");
        ev!(ctx, "encoder: resize to {}", s);
        self.wire.extend(&out);
        self.record.push(Record { call: Call::Resize(s), wrote: out });
        Ok(())
    }
    fn limit(&mut self, ctx: &mut Ctx, n: u32) -> R {
        self.rx.set_limit(ctx, n)?;
        ev!(ctx, "decoder: limit {} after {} octets", n, self.fed.len());
        self.limits.push((self.fed.len(), n));
        Ok(())
    }
    fn deliver(&mut self, ctx: &mut Ctx, k: usize) -> R {
        let piece: Vec<u8> = self.wire.drain(..k).collect();
        self.buf.extend_from_slice(&piece);
        self.fed.extend_from_slice(&piece);
        let d = self.rx.decode(ctx, &mut self.buf, &mut self.got)?;
        if let Some(e) = d.err.filter(|e| *e != rh::UNDERFLOW) { return fail("stream", format!("what the encoder wrote is {}", rh::err_names(e))); }
        Ok(())
    }

    /// The standby encoder replays one record.
    fn replay_call(&mut self, ctx: &mut Ctx) -> R {
        let b = &mut self.eb;
        let r = &self.record[b.at];
        b.at += 1;
        if !b.shared { b.out.clear(); }
        let at = b.out.len();
        match &r.call {
            Call::Refused(_) if b.skips => return Ok(()),
            Call::Refused(o) => {
                let x = b.enc.call(ctx, o, &mut b.out)?;
                if x.is_ok() { return fail("replay-refusal", format!("{} was refused, its replay is accepted", show_op(o))); }
            }
            Call::Encode(o) => {
                let x = b.enc.call(ctx, o, &mut b.out)?;
                if let Err(e) = x { return fail("replay-refusal", format!("{} was accepted, its replay is refused with {:?}", show_op(o), e)); }
            }
            Call::Resize(s) => {
                let (e, out) = (&mut b.enc.enc, &mut b.out);
                let x = ctx.sut("Encoder::update_max_dynamic_size", || e.update_max_dynamic_size(*s, out))?;
                if x.is_err() { return fail("replay-refusal", format!("resize to {} was accepted, its replay is refused", s)); }
            }
        }
        ctx.count("probe:calls_replayed");
        let wrote = b.out.get(at..).unwrap_or(&[]);
        if wrote != &r.wrote[..] {
            let what = match &r.call { Call::Encode(o) | Call::Refused(o) => show_op(o), Call::Resize(s) => format!("resize to {}", s) };
            return fail("replay-octets", format!("call {}, {}, wrote {}; its replay by the standby wrote {}", b.at - 1, what, hex(&r.wrote), hex(wrote)));
        }
        Ok(())
    }
    /// The standby decoder is given up to `k` more of the recorded octets.
    fn replay_octets(&mut self, ctx: &mut Ctx, k: usize) -> R {
        let b = &mut self.db;
        while b.limits < self.limits.len() && self.limits[b.limits].0 == b.at {
            let n = self.limits[b.limits].1;
            b.limits += 1;
            let d = &mut b.dec;
            ctx.sut("Decoder::set_max_dynamic_size", || d.set_max_dynamic_size(n))?;
        }
        let end = self.limits.get(b.limits).map(|l| l.0).unwrap_or(self.fed.len()).min(b.at + k);
        b.buf.extend_from_slice(&self.fed[b.at..end]);
        b.at = end;
        let had = b.got.len();
        let r = if b.pulls {
            // pulled in batches, until a pull brings nothing
            let mut idle = 0;
            loop {
                let c = 1 + ctx.src.below(4);
                let (d, buf) = (&mut b.dec, &mut b.buf);
                let left = buf.len();
                let (r, mut o) = ctx.sut("Decoder::decode_exact", || { let mut o: Out = Vec::with_capacity(c); let r = d.decode_exact(buf, &mut o); (r, o) })?;
                idle = if o.is_empty() && b.buf.len() == left { idle + 1 } else { 0 };
                b.got.append(&mut o);
                if r.is_err() || b.buf.is_empty() || idle > 0 { break r; }
            }
        } else {
            let (d, buf, got) = (&mut b.dec, &mut b.buf, &mut b.got);
            ctx.sut("Decoder::decode", || d.decode(buf, got))?
        };
        if let Some(e) = r.err().filter(|e| *e != DecoderError::IntegerUnderflow) { return fail("replay-rejected", format!("octets the decoder accepted are rejected by the standby with {:?} at {} of {}", e, b.at, self.fed.len())); }
        for i in had..b.got.len() {
            ctx.count("probe:fields_replayed");
            match self.got.get(i) {
                Some(f) if *f == b.got[i] => {}
                Some(f) => return fail("replay-fields", format!("field {} was {}, the standby has {}", i, show_field(f), show_field(&b.got[i]))),
                None => return fail("replay-fields", format!("the standby has a field {} that never was: {}", i, show_field(&b.got[i]))),
            }
        }
        Ok(())
    }
    fn catch_up_encoder(&mut self, ctx: &mut Ctx) -> R {
        while self.eb.at < self.record.len() { self.replay_call(ctx)?; }
        Ok(())
    }
    fn catch_up_decoder(&mut self, ctx: &mut Ctx) -> R {
        let mut n = 0;
        while self.db.at < self.fed.len() || self.db.limits < self.limits.len() {
            let left = self.fed.len() - self.db.at;
            n += 1;
            let k = if n > 20 { left } else { gen::cut(ctx, left) };
            self.replay_octets(ctx, k)?;
        }
        if self.db.got.len() != self.got.len() { return fail("replay-fields", format!("{} fields were delivered, the standby has {} of them", self.got.len(), self.db.got.len())); }
        if self.db.buf != self.buf { return fail("replay-left", format!("{} octets wait, with the standby {}", hex(&self.buf), hex(&self.db.buf))); }
        Ok(())
    }
    /// The encoder crashes; the standby catches up and takes its place.
    fn encoder_fails_over(&mut self, ctx: &mut Ctx) -> R {
        self.catch_up_encoder(ctx)?;
        std::mem::swap(&mut self.enc.enc, &mut self.eb.enc.enc);
        ctx.fault("fault:encoder_takeover");
        ev!(ctx, "the standby encoder takes over after {} records", self.record.len());
        self.eb = enc_by(ctx, self.size);
        Ok(())
    }
    fn decoder_fails_over(&mut self, ctx: &mut Ctx) -> R {
        self.catch_up_decoder(ctx)?;
        std::mem::swap(&mut self.rx.dec, &mut self.db.dec);
        self.buf = std::mem::take(&mut self.db.buf);
        ctx.fault("fault:decoder_takeover");
        ev!(ctx, "the standby decoder takes over after {} octets, {} waiting", self.fed.len(), self.buf.len());
        self.db = dec_by(ctx, self.size);
        self.rx.check_limit(ctx)
    }
}

/// An index the table does not have.
fn beyond(ctx: &mut Ctx, t: &RTable) -> Op {
    let len = t.len() as u64;
    let i = match ctx.src.below(3) { 0 => 0, 1 => len as u32 + 1, _ => gen::wild_index(ctx, len, u32::MAX as u64) as u32 };
    if ctx.src.chance(1, 2) { Op::Index(i) } else { Op::NameIndex(i, b"v".to_vec(), ctx.src.below(16) as u8) }
}

fn step(ctx: &mut Ctx, p: &gen::Profile, c: &mut Conn) -> R {
    match ctx.src.weighted(&[8, 8, 6, 6, 2, 1, 1, 1, 1, 1]) {
        0 => { let n = ctx.src.range(1, 4); for _ in 0..n { let o = hp::op(ctx, p, &c.enc.peer); c.encode(ctx, o)?; } }
        1 => {
            let k = gen::cut(ctx, c.wire.len());
            if k < c.wire.len() { ctx.fault("fault:cut"); }
            c.deliver(ctx, k)?;
        }
        2 => { let n = ctx.src.range(1, 5); for _ in 0..n { if c.eb.at < c.record.len() { c.replay_call(ctx)?; } } }
        3 => { let k = gen::cut(ctx, c.fed.len() - c.db.at); c.replay_octets(ctx, k)?; }
        4 => { let o = beyond(ctx, &c.enc.peer); c.refuse(ctx, o)?; }
        5 => { let s = if ctx.src.chance(1, 12) { gen::initial(ctx).min(1 << 28) } else { gen::limit(ctx) }; c.resize(ctx, s)?; }
        6 => {
            // the limit alone; lowered only when nothing under way could exceed it
            let n = gen::limit(ctx);
            if n as u64 >= c.rx.limit || (c.wire.is_empty() && c.buf.is_empty() && n as u64 >= c.enc.peer.max) { ctx.count("probe:limit_changed"); c.limit(ctx, n)?; }
        }
        7 => c.encoder_fails_over(ctx)?,
        8 => c.decoder_fails_over(ctx)?,
        _ => {
            // a standby crashes too and starts from the beginning of the record
            ctx.fault("fault:standby_crash");
            if ctx.src.chance(1, 2) { c.eb = enc_by(ctx, c.size); } else { c.db = dec_by(ctx, c.size); }
        }
    }
    Ok(())
}

fn finish(ctx: &mut Ctx, p: &gen::Profile, c: &mut Conn) -> R {
    ev!(ctx, "faults stop: {} octets under way, {} records, {} octets delivered", c.wire.len(), c.record.len(), c.fed.len());
    let k = c.wire.len();
    c.deliver(ctx, k)?;
    c.encoder_fails_over(ctx)?;
    c.decoder_fails_over(ctx)?;
    if !c.buf.is_empty() { return fail("leftover", format!("{} octets of whole blocks wait", hex(&c.buf))); }
    let sent = c.got.len();
    for _ in 0..2 { let o = hp::op(ctx, p, &c.enc.peer); c.encode(ctx, o)?; }
    let k = c.wire.len();
    c.deliver(ctx, k)?;
    if c.got.len() != sent + 2 { return fail("lost", "fields sent after the takeover did not arrive"); }
    c.enc.observe(ctx, &[])?;
    c.rx.observe(ctx)?;
    ctx.state(mix(c.record.len() as u64, mix(c.fed.len() as u64, c.rx.model.size)));
    Ok(())
}

pub fn standby(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let n = ctx.src.range(1, 2);
    let mut cs: Vec<Conn> = (0..n).map(|_| conn(ctx)).collect();
    ev!(ctx, "{} connections, table sizes {:?}", n, cs.iter().map(|c| c.size).collect::<Vec<_>>());
    if ctx.src.chance(1, 3000) {
        // a long record
        let (mut h, s) = hp::Haul::new(ctx);
        h.left = h.left.min(12_000);
        cs[0].size = s;
        cs[0].enc = SutEnc::new(s);
        cs[0].rx = SutDec::new(s);
        cs[0].eb = enc_by(ctx, s);
        cs[0].db = dec_by(ctx, s);
        ctx.steps += h.left as u64;
        while let Some(o) = h.next(&cs[0].enc.peer) {
            let c = &mut cs[0];
            if c.enc.meaning(&o).is_none() { continue; }
            c.encode(ctx, o)?;
            if c.wire.len() > 3000 { let k = c.wire.len(); c.deliver(ctx, k)?; }
        }
    } else if ctx.src.chance(1, 20) {
        for o in hp::many_small(ctx) { cs[0].encode(ctx, o)?; }
    }
    let mut steps = 0;
    while steps < 120 && ctx.src.more(30) {
        steps += 1;
        ctx.steps += 1;
        ctx.now += 10 + ctx.src.raw(100);
        ctx.src.begin();
        let i = ctx.src.below(n);
        if ctx.src.chance(1, 60) {
            // the connection is reset: its record ends with it
            ctx.fault("fault:reset");
            let p2 = &p;
            finish(ctx, p2, &mut cs[i])?;
            cs[i] = conn(ctx);
        } else { step(ctx, &p, &mut cs[i])?; }
        ctx.src.end();
    }
    for c in cs.iter_mut() { finish(ctx, &p, c)?; }
    Ok(())
}

