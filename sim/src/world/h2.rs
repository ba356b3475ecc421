//! Two HTTP/2-like endpoints around the real codec: ordered byte streams with
//! arbitrary segmentation, stalls and resets, HEADERS/CONTINUATION framing and
//! the SETTINGS/ACK handshake for the table size (framing is a stub).

use super::hp::{self, show_field, Op, Out, SutDec, SutEnc};
use crate::core::ctx::{fail, hex, show, Ctx, R};
use crate::core::src::{fnv, mix};
use crate::ev;
use crate::gen::{self, Profile};
use crate::refm::hpack::{Kind, Rep};
use httlib_hpack::table::Table;
use httlib_hpack::DecoderError;
use std::collections::VecDeque;

pub struct Cfg {
    /// Compare every call and table with the reference model, and mirror the
    /// public table; otherwise only judge what arrives end to end.
    pub lockstep: bool,
    pub max_steps: usize,
}

struct Msg { id: u32, fields: Vec<(Vec<u8>, Vec<u8>, bool)>, len: usize }

const HEADERS: u8 = 1;
const CONT: u8 = 9;
const SETTINGS: u8 = 4;
const ACK: u8 = 5;

struct Dir {
    enc: SutEnc,
    dec: SutDec,
    mirror: Option<Table<'static>>,
    wire: VecDeque<u8>,
    sent: VecDeque<Msg>,
    rx: Vec<u8>,
    hdr: Vec<u8>,
    cur: Out,
    block_len: usize,
    /// Smallest and last size the encoder must announce with its next block.
    update: Option<(u32, u32)>,
    /// Limits sent to the encoder's side and not yet acknowledged.
    outstanding: VecDeque<u32>,
    stalled: usize,
    delivered: u32,
    recent: VecDeque<(Vec<u8>, Vec<u8>)>,
}

impl Dir {
    fn new(size: u32, lockstep: bool) -> Dir {
        Dir {
            enc: SutEnc::new(size), dec: SutDec::new(size),
            mirror: if lockstep { Some(if size == 4096 { Table::default() } else { Table::with_dynamic_size(size) }) } else { None },
            wire: VecDeque::new(), sent: VecDeque::new(), rx: vec![], hdr: vec![], cur: vec![], block_len: 0,
            update: None, outstanding: VecDeque::new(), stalled: 0, delivered: 0, recent: VecDeque::new(),
        }
    }
}

pub struct World {
    cfg: Cfg,
    p: Profile,
    d: [Dir; 2],
    incremental: bool,
    max_frame: usize,
    next_id: u32,
    epoch: u32,
    mega_left: u32,
    budget: usize,
    last_limit: Option<u32>,
    haul: Option<hp::Haul>,
}

fn put_frame(w: &mut VecDeque<u8>, typ: u8, end: bool, payload: &[u8]) {
    w.extend([typ, end as u8]);
    w.extend((payload.len() as u32).to_be_bytes());
    w.extend(payload);
}

impl World {
    pub fn new(ctx: &mut Ctx, cfg: Cfg) -> World {
        let p = gen::profile(ctx);
        let mut s0 = gen::initial(ctx);
        let mut haul = None;
        if ctx.src.chance(1, 1200) { let (h, s) = hp::Haul::new(ctx); haul = Some(h); s0 = s; }
        let s1 = if ctx.src.chance(1, 2) { s0 } else { gen::initial(ctx) };
        let incremental = ctx.src.chance(1, 2);
        let max_frame = *ctx.src.pick(&[16384usize, 1, 2, 7, 40, 300]);
        let mega_left = ctx.src.chance(1, 600) as u32;
        ev!(ctx, "connect epoch 0: table sizes {} / {}, {} receiver, frames up to {}", s0, s1, if incremental { "incremental" } else { "buffering" }, max_frame);
        let l = cfg.lockstep;
        World { cfg, p, d: [Dir::new(s0, l), Dir::new(s1, l)], incremental, max_frame, next_id: 0, epoch: 0, mega_left, budget: 600_000, last_limit: None, haul }
    }

    pub fn run(&mut self, ctx: &mut Ctx) -> R {
        let w_send = 4;
        let w_set = *ctx.src.pick(&[1u32, 0, 3]);
        let w_reset = *ctx.src.pick(&[0u32, 0, 1]);
        let mut n = 0;
        while self.haul.is_some() {
            ctx.steps += 1;
            ctx.now += 100;
            self.send(ctx, 0)?;
            self.deliver(ctx, 0, false)?;
        }
        ctx.src.begin();
        while n < self.cfg.max_steps && ctx.src.more(40) {
            n += 1;
            ctx.steps += 1;
            ctx.src.begin();
            ctx.now += 20 + ctx.src.raw(400);
            let side = ctx.src.below(2);
            match ctx.src.weighted(&[w_send, 5, w_set, 1, w_reset]) {
                0 => self.send(ctx, side)?,
                1 => self.deliver(ctx, side, true)?,
                2 => self.settings(ctx, side)?,
                3 => {
                    if !self.d[side].wire.is_empty() {
                        ctx.fault("fault:stall");
                        self.d[side].stalled = 1 + ctx.src.below(12);
                        ctx.now += 1_000_000;
                        ev!(ctx, "link {} stalls for {} steps", side, self.d[side].stalled);
                    }
                }
                _ => self.reset(ctx)?,
            }
            ctx.src.end();
            if self.budget == 0 { break; }
        }
        ctx.src.end();
        self.drain(ctx)
    }

    /// Faults stop: everything sent must arrive within a bounded number of steps.
    fn drain(&mut self, ctx: &mut Ctx) -> R {
        ev!(ctx, "faults stop");
        let mut steps = 0;
        while self.d.iter().any(|d| !d.wire.is_empty()) {
            for side in 0..2 {
                self.d[side].stalled = 0;
                self.deliver(ctx, side, false)?;
                ctx.now += 50;
            }
            steps += 1;
            if steps > 1000 { return fail("no-progress", "bytes still in flight long after faults stopped"); }
        }
        for side in 0..2 {
            if let Some(m) = self.d[side].sent.front() {
                return fail("lost", format!("message {} of direction {} never completed although all its octets were delivered", m.id, side));
            }
        }
        for side in 0..2 { self.check_tables(ctx, side, true)?; }
        Ok(())
    }

    fn check_tables(&mut self, ctx: &mut Ctx, side: usize, rest: bool) -> R {
        if !self.cfg.lockstep { return Ok(()); }
        let d = &mut self.d[side];
        if rest {
            // quiescent: both ends must hold the same table
            if d.enc.peer.dynq != d.dec.model.dynq || (d.update.is_none() && d.enc.peer.max != d.dec.model.max) {
                return fail("divergence", format!("encoder table ({} entries, max {}) and decoder table ({} entries, max {}) differ at rest", d.enc.peer.dynq.len(), d.enc.peer.max, d.dec.model.dynq.len(), d.dec.model.max));
            }
            ctx.count("probe:quiescent_compare");
        }
        d.dec.observe(ctx)?;
        let probe: Vec<(Vec<u8>, Vec<u8>)> = d.recent.iter().cloned().collect();
        d.enc.observe(ctx, &probe)?;
        let m = &d.enc.peer;
        ctx.state(mix(mix(m.dynq.len() as u64, m.size), m.max));
        mirror_check(ctx, d.mirror.as_mut(), m, &probe)
    }

    fn send(&mut self, ctx: &mut Ctx, side: usize) -> R {
        let lockstep = self.cfg.lockstep;
        let p = self.p.clone();
        let mega = if self.mega_left > 0 && ctx.src.chance(1, 3) { self.mega_left -= 1; true } else { false };
        let kind = ctx.src.weighted(&[60, 1]);
        let d = &mut self.d[side];
        let mut block = vec![];
        if let Some((lo, last)) = d.update.take() {
            if lo < last { d.enc.resize(ctx, lo, &mut block)?; mirror_resize(ctx, d.mirror.as_mut(), lo)?; }
            d.enc.resize(ctx, last, &mut block)?;
            mirror_resize(ctx, d.mirror.as_mut(), last)?;
            ev!(ctx, "side {} announces table size {} then {}", side, lo, last);
        }
        let mut fields = vec![];
        let ops: Vec<Op> = if kind == 1 { hp::many_small(ctx) } else { vec![] };
        let log = self.haul.is_none();
        let mut one = |ctx: &mut Ctx, d: &mut Dir, o: &Op, block: &mut Vec<u8>| -> R {
            let m = match d.enc.meaning(o) { Some(m) => m, None => return Ok(()) };
            let rep = d.enc.emit(ctx, o, block, false)?;
            if log && ops_log(o) { hp::log_op(ctx, if side == 0 { "A" } else { "B" }, o, &rep); }
            if let Rep::Lit { kind: Kind::Inc, name, value, .. } = &rep {
                if let Some(t) = d.mirror.as_mut() {
                    ctx.sut("Table::insert", || t.insert(name.clone(), value.clone()))?;
                }
                if lockstep && name.len() + value.len() < 3000 {
                    d.recent.push_back((name.clone(), value.clone()));
                    if d.recent.len() > 6 { d.recent.pop_front(); }
                }
            }
            fields.push(m);
            Ok(())
        };
        for o in &ops { one(ctx, d, o, &mut block)?; }
        if let Some(mut h) = self.haul.take() {
            let mut k = 0;
            while k < 2500 {
                match h.next(&d.enc.peer) { Some(o) => one(ctx, d, &o, &mut block)?, None => break }
                k += 1;
            }
            if h.left > 0 { self.haul = Some(h); }
        }
        if mega {
            ctx.count("probe:mega_string");
            let v = gen::mega(ctx);
            let f = ctx.src.below(16) as u8 & 0x7;
            one(ctx, d, &Op::Lit(b"mega".to_vec(), v, f), &mut block)?;
        }
        let mut k = 0;
        while k < 40 && self.haul.is_none() && ctx.src.more(3) {
            k += 1;
            ctx.src.begin();
            let o = hp::op(ctx, &p, &d.enc.peer);
            one(ctx, d, &o, &mut block)?;
            ctx.src.end();
        }
        self.budget = self.budget.saturating_sub(block.len());
        let id = self.next_id;
        self.next_id += 1;
        ev!(ctx, "side {} sends message {} of {} fields in {} octets {}", side, id, fields.len(), block.len(), hex(&block));
        let len = block.len();
        // fragments
        let (mut at, mut first, mut frames) = (0, true, 0);
        loop {
            let left = len - at;
            let mut n = left.min(self.max_frame.max(len / 200 + 1));
            if n < left && ctx.src.chance(1, 4) { n = ctx.src.below(n + 1); }
            if n == 0 && frames > 400 { n = left; }
            let end = at + n == len;
            put_frame(&mut d.wire, if first { HEADERS } else { CONT }, end, &block[at..at + n]);
            frames += 1;
            first = false;
            at += n;
            if end { break; }
        }
        if frames > 1 { ctx.fault("fault:block_fragmented"); }
        d.sent.push_back(Msg { id, fields, len });
        Ok(())
    }

    fn settings(&mut self, ctx: &mut Ctx, side: usize) -> R {
        // biased to sizes in relation to what the table holds now
        let peer = 1 - side;
        let m = &self.d[peer].enc.peer;
        let v = match ctx.src.below(4) {
            0 | 1 => gen::limit(ctx),
            2 => (m.size as u32).saturating_sub(ctx.src.below(40) as u32),
            _ => self.last_limit.unwrap_or(0),
        };
        self.last_limit = Some(v);
        put_frame(&mut self.d[side].wire, SETTINGS, true, &v.to_be_bytes());
        self.d[peer].outstanding.push_back(v);
        if !self.d[peer].sent.is_empty() { ctx.fault("fault:settings_with_blocks_in_flight"); }
        ev!(ctx, "side {} sends SETTINGS table size {}", side, v);
        Ok(())
    }

    fn reset(&mut self, ctx: &mut Ctx) -> R {
        if self.d.iter().any(|d| !d.wire.is_empty()) { ctx.fault("fault:reset_in_flight"); } else { ctx.fault("fault:reset_idle"); }
        self.epoch += 1;
        let (s0, s1) = (gen::initial(ctx), gen::initial(ctx));
        ev!(ctx, "connection reset; epoch {} table sizes {} / {}", self.epoch, s0, s1);
        let l = self.cfg.lockstep;
        self.d = [Dir::new(s0, l), Dir::new(s1, l)];
        Ok(())
    }

    fn deliver(&mut self, ctx: &mut Ctx, side: usize, faulty: bool) -> R {
        let d = &mut self.d[side];
        if d.stalled > 0 { d.stalled -= 1; return Ok(()); }
        let avail = d.wire.len();
        if avail == 0 { return Ok(()); }
        let n = if faulty { gen::cut(ctx, avail) } else { avail };
        if n < avail { ctx.fault("fault:segment_cut"); }
        let bytes: Vec<u8> = d.wire.drain(..n).collect();
        d.rx.extend_from_slice(&bytes);
        let mut at = 0;
        let rx = std::mem::take(&mut self.d[side].rx);
        while rx.len() - at >= 6 {
            let len = u32::from_be_bytes([rx[at + 2], rx[at + 3], rx[at + 4], rx[at + 5]]) as usize;
            if rx.len() - at - 6 < len { break; }
            let (typ, end) = (rx[at], rx[at + 1] != 0);
            let payload = &rx[at + 6..at + 6 + len];
            at += 6 + len;
            match typ {
                SETTINGS => {
                    let v = u32::from_be_bytes([payload[0], payload[1], payload[2], payload[3]]);
                    let back = &mut self.d[1 - side];
                    put_frame(&mut back.wire, ACK, true, &[]);
                    // the encoder may choose any size up to the limit
                    let cur = back.update.map(|u| u.1).unwrap_or(back.enc.peer.max as u32);
                    let target = match ctx.src.below(4) { 0 | 1 => v, 2 => cur.min(v), _ => ctx.src.raw(v as u64 + 1) as u32 };
                    let lo = back.update.map(|u| u.0).unwrap_or(u32::MAX).min(target);
                    back.update = Some((lo, target));
                    ctx.count("probe:settings_applied");
                    ev!(ctx, "side {} got SETTINGS {}, will use {}", 1 - side, v, target);
                }
                ACK => {
                    if let Some(v) = self.d[side].outstanding.pop_front() {
                        self.d[side].dec.set_limit(ctx, v)?;
                        ev!(ctx, "side {} got ACK, limit {}", 1 - side, v);
                    }
                }
                _ => self.fragment(ctx, side, payload, end)?,
            }
        }
        self.d[side].rx = rx[at..].to_vec();
        Ok(())
    }

    fn fragment(&mut self, ctx: &mut Ctx, side: usize, payload: &[u8], end: bool) -> R {
        let lockstep = self.cfg.lockstep;
        let incremental = self.incremental;
        let d = &mut self.d[side];
        d.hdr.extend_from_slice(payload);
        d.block_len += payload.len();
        if !end && !incremental { return Ok(()); }
        if !end { ctx.count("probe:decode_of_partial_block"); }
        if lockstep {
            let mut hdr = std::mem::take(&mut d.hdr);
            let mut cur = std::mem::take(&mut d.cur);
            let w = d.dec.decode(ctx, &mut hdr, &mut cur)?;
            d.hdr = hdr;
            d.cur = cur;
            if end && w.err.is_some() { return fail("block-incomplete", "the encoder's block does not end at a field boundary"); }
        } else {
            let before = d.hdr.len();
            let (dec, hdr, cur) = (&mut d.dec.dec, &mut d.hdr, &mut d.cur);
            let r = ctx.sut("Decoder::decode", || dec.decode(hdr, cur))?;
            match r {
                Ok(n) => {
                    if n != before || !d.hdr.is_empty() {
                        return fail("count", format!("decoding {} octets returned {} and left {}", before, n, d.hdr.len()));
                    }
                }
                Err(DecoderError::IntegerUnderflow) if !end => {}
                Err(e) => return fail("rejected", format!("message {:?} of direction {} was rejected with {:?}", d.sent.front().map(|m| m.id), side, e)),
            }
        }
        if !end { return Ok(()); }
        let m = match d.sent.pop_front() { Some(m) => m, None => return fail("duplicate", "a block completed that was never sent") };
        let got = std::mem::take(&mut d.cur);
        ev!(ctx, "side {} completes message {} with {} fields", 1 - side, m.id, got.len());
        if !d.hdr.is_empty() { return fail("count", format!("message {} left {} octets undecoded", m.id, d.hdr.len())); }
        if d.block_len != m.len { return fail("harness-len", "framing stub lost octets"); }
        d.block_len = 0;
        for i in 0..got.len().max(m.fields.len()) {
            match (m.fields.get(i), got.get(i)) {
                (Some(w), Some(g)) => {
                    if w.0 != g.0 || w.1 != g.1 {
                        return fail("altered", format!("message {} field {}: sent {}={}, received {}", m.id, i, show(&w.0), show(&w.1), show_field(g)));
                    }
                    if w.2 != (g.2 == 0x8) {
                        return fail("sensitivity", format!("message {} field {}: sent sensitive={}, received {}", m.id, i, w.2, show_field(g)));
                    }
                }
                (Some(w), None) => return fail("lost-field", format!("message {} lost field {} {}={}", m.id, i, show(&w.0), show(&w.1))),
                (None, Some(g)) => return fail("extra-field", format!("message {} gained field {}", m.id, show_field(g))),
                (None, None) => {}
            }
        }
        d.delivered += 1;
        ctx.count("probe:messages_delivered");
        ctx.state(mix(mix(m.id as u64, m.len as u64), mix(got.len() as u64, self.epoch as u64)));
        let rare = if self.d[side].dec.model.dynq.len() > 1500 { 16 } else { 3 };
        if lockstep && ctx.src.chance(1, rare) { self.check_tables(ctx, side, false)?; }
        Ok(())
    }
}

fn ops_log(o: &Op) -> bool { !matches!(o, Op::Lit(_, v, 0x4) if v.len() <= 1) }

fn mirror_resize(ctx: &mut Ctx, t: Option<&mut Table<'static>>, size: u32) -> R {
    if let Some(t) = t { ctx.sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(size))?; }
    Ok(())
}

/// Compares the public indexing table with the model, in full.
pub fn mirror_check(ctx: &mut Ctx, t: Option<&mut Table<'static>>, m: &crate::refm::hpack::RTable, probe: &[(Vec<u8>, Vec<u8>)]) -> R {
    let t: &Table = match t { Some(t) => t, None => return Ok(()) };
    let n = m.len();
    let got = ctx.sut("Table accessors", || (t.len(), t.dynamic_len(), t.dynamic_size(), t.max_dynamic_size()))?;
    let want = (n, m.dynq.len(), m.size as u32, m.max as u32);
    if got != want {
        return fail("table-numbers", format!("public table reports (len, dynamic len, size, max) {:?}, RFC 7541 has {:?}", got, want));
    }
    let bad = ctx.sut("Table::get/iter", || {
        for i in 0..=n as u32 + 2 {
            if t.get(i) != m.get(i as u64) { return Some(format!("entry {}", i)); }
        }
        for i in gen::wild_indexes(n as u64) {
            if t.get(i) != m.get(i as u64) { return Some(format!("entry {}", i)); }
        }
        let mut k = 0;
        for (a, b) in t.iter().zip(m.entries()) {
            if a != b { return Some(format!("iteration item {}", k)); }
            k += 1;
        }
        if k != n || t.iter().count() != n { return Some(format!("iteration length {}", t.iter().count())); }
        None
    })?;
    if let Some(b) = bad { return fail("table-content", format!("public table differs from RFC 7541 at {}", b)); }
    let mut todo: Vec<(Vec<u8>, Vec<u8>)> = probe.to_vec();
    todo.extend(m.dynq.iter().take(40).cloned());
    todo.extend(m.dynq.iter().rev().take(8).cloned());
    let k = (fnv(&[m.dynq.len() as u8]) % 61) as usize;
    todo.push((crate::refm::hpack::STATIC[k].0.to_vec(), crate::refm::hpack::STATIC[k].1.to_vec()));
    todo.push((crate::refm::hpack::STATIC[k].0.to_vec(), b"no such value".to_vec()));
    todo.push((b"no such name".to_vec(), vec![]));
    todo.extend(hp::near_misses(m));
    for (name, value) in todo {
        let (exact, nm) = m.holds(&name, &value);
        let got = ctx.sut("Table::find", || t.find(&name, &value))?;
        let fine = match got {
            Some((i, true)) => exact && m.get(i as u64).map(|e| e.0 == &name[..] && e.1 == &value[..]).unwrap_or(false),
            Some((i, false)) => !exact && nm && m.get(i as u64).map(|e| e.0 == &name[..]).unwrap_or(false),
            None => !nm,
        };
        if !fine { return fail("table-find", format!("find({}, {}) = {:?} but exact {} name {}", show(&name), show(&value), got, exact, nm)); }
    }
    Ok(())
}
