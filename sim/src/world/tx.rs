//! Worlds around real HPACK encoders: hop chains (C06), requested form (C07),
//! stale and hostile index handles (C09).

use super::hp::{self, show_field, show_op, Op, Out, SutDec, SutEnc};
use crate::core::ctx::{fail, hex, show, Ctx, R};
use crate::core::src::{mix, Rng};
use crate::ev;
use crate::gen::{self, Profile};
use crate::refm::hpack::{self as rh, Kind, Rep, RTable};
use httlib_hpack::EncoderError;
use std::collections::VecDeque;

// ------------------------------------------------------------------ hops

struct Hop { enc: SutEnc, dec: SutDec, wire: VecDeque<(Vec<u8>, Vec<bool>, u32)>, huff: u8, best: bool, resize: Option<u32> }

impl Hop {
    fn new(ctx: &mut Ctx) -> Hop {
        let s = gen::initial(ctx);
        Hop { enc: SutEnc::new(s), dec: SutDec::new(s), wire: VecDeque::new(), huff: ctx.src.below(4) as u8, best: ctx.src.chance(2, 3), resize: None }
    }
}

/// An origin, some intermediaries that decode and re-encode, and a final
/// recipient, joined by connections of different table sizes.
pub fn hops(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let n = ctx.src.range(1, 4);
    let mut hops: Vec<Hop> = (0..n).map(|_| Hop::new(ctx)).collect();
    ev!(ctx, "chain of {} connections", n);
    // what each message carries, by id: (name, value, sensitive)
    let mut sent: Vec<Vec<(Vec<u8>, Vec<u8>, bool)>> = vec![];
    let mut arrived: Vec<bool> = vec![];
    let mut lost = 0usize;
    let mut steps = 0;
    let mut draining = false;
    if ctx.src.chance(1, 1500) {
        // long history on the first connection; the flags are drawn anew
        let (mut h, s) = hp::Haul::new(ctx);
        h.left = h.left.min(12_000);
        let seed = ctx.src.u64();
        let mut rng = Rng::new(seed);
        hops[0].enc = SutEnc::new(s);
        hops[0].dec = SutDec::new(s);
        ctx.steps += h.left as u64;
        let (mut block, mut want) = (vec![], vec![]);
        while let Some(o) = h.next(&hops[0].enc.peer) {
            let keep = rng.below(4) > 0;
            let o = match o {
                Op::Lit(n, v, f) if !keep => Op::Lit(n, v, (f & !4) | 8),
                Op::NameIndex(i, v, f) if !keep => Op::NameIndex(i, v, (f & !4) | 8),
                Op::Index(i) if !keep => match hops[0].enc.peer.get(i as u64) { Some(e) => Op::Lit(e.0.to_vec(), e.1.to_vec(), 0x18), None => Op::Index(i) },
                o => o,
            };
            let m = match hops[0].enc.meaning(&o) { Some(m) => m, None => continue };
            encode_checked(ctx, &mut hops[0].enc, &o, &m, &mut block)?;
            want.push(m);
            if want.len() >= 400 || h.left == 0 {
                let mut dst: Out = vec![];
                hops[0].dec.decode(ctx, &mut block, &mut dst)?;
                if dst.len() != want.len() { return fail("lost", format!("{} of {} fields arrived", dst.len(), want.len())); }
                for (w, g) in want.iter().zip(dst.iter()) {
                    if w.0 != g.0 || w.1 != g.1 { return fail("altered", format!("sent {}={}, arrived {}", show(&w.0), show(&w.1), show_field(g))); }
                    if w.2 != (g.2 == 0x8) { return fail("unflagged", format!("sent sensitive={} arrived {}", w.2, show_field(g))); }
                }
                want.clear();
            }
        }
        ev!(ctx, "long haul ends with {} entries of {} octets", hops[0].enc.peer.dynq.len(), hops[0].enc.peer.size);
    }
    loop {
        if !draining && (steps >= 60 || !ctx.src.more(24)) { draining = true; ev!(ctx, "faults stop"); }
        if draining && hops.iter().all(|h| h.wire.is_empty()) { break; }
        steps += 1;
        ctx.steps += 1;
        ctx.now += 10 + if draining { 0 } else { ctx.src.raw(200) };
        ctx.src.begin();
        let act = if draining { 1 } else { ctx.src.weighted(&[4, 5, 1, 1]) };
        match act {
            0 => {
                // the origin sends a message
                let id = sent.len() as u32;
                let mut msg = vec![];
                let mut block = vec![];
                let mut sens = vec![];
                let mut k = 0;
                while k < 12 && ctx.src.more(3) {
                    k += 1;
                    let o = sensitive_op(ctx, &p, &hops[0].enc.peer);
                    let m = match hops[0].enc.meaning(&o) { Some(m) => m, None => continue };
                    encode_checked(ctx, &mut hops[0].enc, &o, &m, &mut block)?;
                    sens.push(m.2);
                    msg.push(m);
                }
                ev!(ctx, "origin sends message {} of {} fields: {}", id, msg.len(), hex(&block));
                sent.push(msg);
                arrived.push(false);
                hops[0].wire.push_back((block, sens, id));
            }
            1 => {
                // one connection delivers its next block
                let i = if draining { match hops.iter().position(|h| !h.wire.is_empty()) { Some(i) => i, None => break } } else { ctx.src.below(n) };
                if let Some((block, sens, id)) = hops[i].wire.pop_front() {
                    let mut buf = vec![];
                    let mut dst: Out = vec![];
                    let mut at = 0;
                    let mut pieces = 0;
                    while at < block.len() || pieces == 0 {
                        let k = if draining || pieces > 30 { block.len() - at } else { gen::cut(ctx, block.len() - at) };
                        buf.extend_from_slice(&block[at..at + k]);
                        at += k;
                        pieces += 1;
                        if at < block.len() { ctx.fault("fault:cut"); }
                        hops[i].dec.decode(ctx, &mut buf, &mut dst)?;
                    }
                    if dst.len() != sens.len() { return fail("lost", format!("message {} lost fields on connection {}", id, i)); }
                    for (j, f) in dst.iter().enumerate() {
                        if sens[j] && f.2 != 0x8 { return fail("unflagged", format!("sensitive field {} of message {} is reported as {} on connection {}", j, id, show_field(f), i)); }
                        if !sens[j] && f.2 & 0x8 != 0 { return fail("overflagged", format!("field {} of message {} was not sent sensitive but is reported as {} on connection {}", j, id, show_field(f), i)); }
                    }
                    if ctx.src.chance(1, 3) { hops[i].dec.observe(ctx)?; }
                    if i + 1 < n {
                        // the intermediary forwards with the flags it decoded
                        let h = &mut hops[i + 1];
                        let mut out = vec![];
                        if let Some(s) = h.resize.take() { h.enc.resize(ctx, s, &mut out)?; }
                        for f in &dst {
                            let flags = f.2 | h.huff | if h.best { 0x10 } else { 0 };
                            let o = if !h.best && ctx.src.chance(1, 3) {
                                match (1..=h.enc.peer.len() as u32).find(|k| h.enc.peer.get(*k as u64).map(|e| e.0 == &f.0[..]).unwrap_or(false)) {
                                    Some(k) => Op::NameIndex(k, f.1.clone(), flags),
                                    None => Op::Lit(f.0.clone(), f.1.clone(), flags),
                                }
                            } else { Op::Lit(f.0.clone(), f.1.clone(), flags) };
                            let m = (f.0.clone(), f.1.clone(), f.2 == 0x8);
                            encode_checked(ctx, &mut h.enc, &o, &m, &mut out)?;
                        }
                        ev!(ctx, "intermediary {} forwards message {} as {}", i + 1, id, hex(&out));
                        ctx.count("probe:forwarded");
                        h.wire.push_back((out, sens, id));
                    } else {
                        let want = &sent[id as usize];
                        for (j, (w, g)) in want.iter().zip(dst.iter()).enumerate() {
                            if w.0 != g.0 || w.1 != g.1 { return fail("altered", format!("field {} of message {}: sent {}={}, arrived {}", j, id, show(&w.0), show(&w.1), show_field(g))); }
                            if w.2 != (g.2 == 0x8) { return fail("unflagged", format!("field {} of message {} sent sensitive={} arrived {}", j, id, w.2, show_field(g))); }
                        }
                        arrived[id as usize] = true;
                        ctx.count("probe:arrived");
                    }
                }
            }
            2 => {
                let i = ctx.src.below(n);
                ctx.fault("fault:reset");
                ev!(ctx, "connection {} is reset, {} messages lost", i, hops[i].wire.len());
                for (_, _, id) in hops[i].wire.drain(..) { arrived[id as usize] = true; lost += 1; }
                hops[i] = Hop::new(ctx);
            }
            _ => {
                let i = ctx.src.below(n);
                let v = gen::limit(ctx);
                hops[i].dec.set_limit(ctx, v)?;
                ctx.fault("fault:resize");
                ev!(ctx, "connection {} renegotiates to {}", i, v);
                if i == 0 {
                    let mut block = vec![];
                    // an update needs a block: carry it in an empty one
                    hops[0].enc.resize(ctx, v, &mut block)?;
                    let id = sent.len() as u32;
                    sent.push(vec![]);
                    arrived.push(false);
                    // blocks already on the way may announce more than v
                    let m = hops[0].enc.limit_max;
                    hops[0].dec.set_limit(ctx, m)?;
                    hops[0].wire.push_back((block, vec![], id));
                } else {
                    let h = &mut hops[i];
                    let m = h.enc.limit_max.max(v);
                    h.enc.limit_max = m;
                    h.dec.set_limit(ctx, m)?;
                    h.resize = Some(v);
                }
            }
        }
        ctx.src.end();
    }
    for (id, a) in arrived.iter().enumerate() {
        if !*a { return fail("lost", format!("message {} never arrived", id)); }
    }
    for h in hops.iter_mut() {
        h.enc.observe(ctx, &[])?;
        h.dec.observe(ctx)?;
        let t = &h.dec.model;
        ctx.state(mix(t.dynq.len() as u64, mix(t.size, t.max)));
    }
    ctx.add("probe:lost_by_reset", lost as u64);
    Ok(())
}

/// Encodes and insists that a sensitive field is a never-indexed literal.
fn encode_checked(ctx: &mut Ctx, enc: &mut SutEnc, o: &Op, m: &(Vec<u8>, Vec<u8>, bool), out: &mut Vec<u8>) -> R {
    let held = enc.peer.holds(&m.0, &m.1);
    let before = enc.peer.dynq.len();
    let rep = enc.emit(ctx, o, out, false)?;
    if m.2 {
        match &rep {
            Rep::Lit { kind: Kind::Never, .. } => {}
            r => return fail("exposed", format!("{} must be a never-indexed literal but was written as {}", show_op(o), hp::show_rep(r))),
        }
        ctx.count("probe:sensitive_encoded");
        if held.0 { ctx.count("probe:sensitive_and_in_table"); }
        if enc.peer.dynq.len() != before { return fail("exposed", "a sensitive field changed the table"); }
    }
    Ok(())
}

/// Half sensitive fields, half others over the same names and values.
fn sensitive_op(ctx: &mut Ctx, p: &Profile, t: &RTable) -> Op {
    let mut o = hp::op(ctx, p, t);
    if ctx.src.chance(1, 2) {
        let extra = ctx.src.below(8) as u8;
        let f = 0x8 | (extra & 3) | if extra & 4 != 0 { 0x10 } else { 0 };
        o = match o {
            Op::Lit(n, v, _) => {
                // often a field the table holds
                if !t.dynq.is_empty() && ctx.src.chance(1, 3) { let e = &t.dynq[ctx.src.below(t.dynq.len())]; Op::Lit(e.0.clone(), e.1.clone(), f) } else { Op::Lit(n, v, f) }
            }
            Op::NameIndex(i, v, _) => Op::NameIndex(i, v, f),
            Op::Index(i) => match t.get(i as u64) {
                Some(e) => if ctx.src.chance(1, 2) { Op::Lit(e.0.to_vec(), e.1.to_vec(), f) } else { Op::NameIndex(i, e.1.to_vec(), f) },
                None => o,
            },
        };
    }
    o
}

// ----------------------------------------------------------- encoder form

/// Several connections served by one task each, sharing output buffers with
/// earlier data, renegotiated and reset at arbitrary moments; everything
/// written is read by an independent decoder.
pub fn form(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let n = ctx.src.range(1, 3);
    let mut encs: Vec<(SutEnc, Vec<u8>)> = vec![];
    for _ in 0..n { let s = gen::initial(ctx); encs.push((SutEnc::new(s), vec![])); }
    ev!(ctx, "{} connections", n);
    if ctx.src.chance(1, 1500) {
        // a long haul on the first connection, flushed now and then
        let (mut h, s) = hp::Haul::new(ctx);
        let mut e = SutEnc::new(s);
        let mut out = vec![];
        ctx.steps += h.left as u64;
        while let Some(o) = h.next(&e.peer) {
            let form = e.peer.dynq.len() < 3000 || h.left % 64 == 0;
            e.emit(ctx, &o, &mut out, form)?;
            if out.len() > 4000 { out.clear(); }
        }
        e.observe(ctx, &[])?;
        let t = e.peer.clone();
        ev!(ctx, "long haul ends with {} entries of {} octets", t.dynq.len(), t.size);
        encs[0] = (e, out);
    }
    let mut steps = 0;
    while steps < 80 && ctx.src.more(30) {
        steps += 1;
        ctx.steps += 1;
        ctx.now += 1 + ctx.src.raw(100);
        ctx.src.begin();
        let i = ctx.src.below(n);
        match ctx.src.weighted(&[16, 2, 1, 1, 2, 1]) {
            0 => {
                let (e, out) = &mut encs[i];
                let o = hp::op(ctx, &p, &e.peer);
                let r = e.emit(ctx, &o, out, true)?;
                hp::log_op(ctx, ["c0", "c1", "c2"][i], &o, &r);
            }
            1 => {
                let (e, out) = &mut encs[i];
                let v = if ctx.src.chance(1, 8) { gen::any_size(ctx) } else { gen::limit(ctx) };
                ctx.fault("fault:resize");
                e.resize(ctx, v, out)?;
                ev!(ctx, "c{} resizes to {}", i, v);
            }
            2 => {
                ctx.fault("fault:reset");
                let s = gen::initial(ctx);
                ev!(ctx, "c{} is reset, table {}", i, s);
                encs[i] = (SutEnc::new(s), vec![]);
            }
            3 => {
                // the transport takes the output, wholly or in part
                ctx.fault("fault:partial_flush");
                let out = &mut encs[i].1;
                let k = gen::cut(ctx, out.len());
                out.drain(..k.min(out.len()));
            }
            4 => {
                // a rejected operation in between
                ctx.fault("fault:rejected_op");
                let (e, out) = &mut encs[i];
                reject(ctx, e, out)?;
            }
            _ => {
                if ctx.src.chance(1, 30) {
                    let (e, out) = &mut encs[i];
                    for o in hp::many_small(ctx) { e.emit(ctx, &o, out, true)?; }
                } else if ctx.src.chance(1, 60) {
                    ctx.count("probe:mega_string");
                    let v = gen::mega(ctx);
                    let f = ctx.src.below(8) as u8;
                    let (e, out) = &mut encs[i];
                    e.emit(ctx, &Op::Lit(b"mega".to_vec(), v, f), out, true)?;
                    out.clear();
                } else {
                    let e = &mut encs[i].0;
                    e.observe(ctx, &[])?;
                }
            }
        }
        let t = &encs[i].0.peer;
        ctx.state(mix(t.dynq.len() as u64, mix(t.size, t.max)));
        ctx.src.end();
    }
    for (e, _) in encs.iter_mut() { e.observe(ctx, &[])?; }
    Ok(())
}

/// An index that no table entry has; the encoder must refuse and change nothing.
fn reject(ctx: &mut Ctx, e: &mut SutEnc, out: &mut Vec<u8>) -> R {
    let len = e.peer.len() as u32;
    let i = match ctx.src.below(5) {
        0 => 0,
        1 => len + 1,
        2 => len + 2 + ctx.src.below(70) as u32,
        3 => gen::wild_index(ctx, len as u64, u32::MAX as u64) as u32,
        _ => ctx.src.raw(1 << 32) as u32,
    };
    if e.peer.get(i as u64).is_some() { return Ok(()); }
    let o = if ctx.src.chance(1, 2) { Op::Index(i) } else {
        let f = ctx.src.below(32) as u8;
        Op::NameIndex(i, b"value".to_vec(), f)
    };
    refused(ctx, e, &o, out)
}

fn refused(ctx: &mut Ctx, e: &mut SutEnc, o: &Op, out: &mut Vec<u8>) -> R {
    let before = out.clone();
    let r = e.call(ctx, o, out)?;
    ev!(ctx, "{} -> {:?}", show_op(o), r);
    ctx.count("probe:refused");
    match r {
        Err(EncoderError::InvalidIndex) => {}
        Err(x) => return fail("reject-kind", format!("{} was refused with {:?}", show_op(o), x)),
        Ok(()) => return fail("reject-missed", format!("{} was accepted although the table has {} entries; it wrote {}", show_op(o), e.peer.len(), hex(out.get(before.len()..).unwrap_or(&[])))),
    }
    if *out != before { return fail("reject-writes", format!("the refused {} changed the output by {}", show_op(o), hex(out.get(before.len()..).unwrap_or(&[])))); }
    Ok(())
}

// ------------------------------------------------------------ index handles

struct Handle { index: u32, born: u64 }

/// Tasks share one connection's encoder. Each remembers the index of what it
/// inserted and uses it later, after other tasks, resizes and resets have
/// moved or evicted the entry.
pub fn handles(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let size = gen::initial(ctx);
    let mut enc = SutEnc::new(size);
    let mut rx = SutDec::new(size);
    let tasks = ctx.src.range(1, 4);
    let mut mem: Vec<Vec<Handle>> = (0..tasks).map(|_| vec![]).collect();
    let mut wire = vec![];
    let mut pending: Vec<(Vec<u8>, Vec<u8>, bool)> = vec![];
    let mut clock = 0u64; // insertions so far
    ev!(ctx, "{} tasks, table {}", tasks, size);
    if ctx.src.chance(1, 2500) {
        let (mut h, s) = hp::Haul::new(ctx);
        enc = SutEnc::new(s);
        rx = SutDec::new(s);
        ctx.steps += h.left as u64;
        while let Some(o) = h.next(&enc.peer) {
            let m = match enc.meaning(&o) { Some(m) => m, None => continue };
            if let Rep::Lit { kind: Kind::Inc, .. } = enc.emit(ctx, &o, &mut wire, false)? {
                clock += 1;
                if h.left % 500 == 0 || h.left < 5 { let t = ctx.src.below(tasks); mem[t].push(Handle { index: 62, born: clock }); }
            }
            pending.push(m);
            if h.left % 1000 == 0 {
                for _ in 0..3 { ctx.fault("fault:bad_index"); reject(ctx, &mut enc, &mut wire)?; }
                if h.left % 20_000 == 0 {
                    // a storm of refused operations must leave no trace
                    let n = *ctx.src.pick(&[30usize, 300, 2000, 66_000]);
                    let last = enc.peer.len() as u32;
                    ctx.fault("fault:refusal_storm");
                    let (e, w, f) = (&mut enc.enc, &mut wire, ctx.src.below(4) as u8);
                    let at = w.len();
                    let bad = ctx.sut("Encoder::encode", || {
                        (0..n).find(|i| {
                            let k = if i % 3 == 0 { 0 } else { last + 1 + *i as u32 };
                            let r = if i % 2 == 0 { e.encode(k, w) } else { e.encode((k, b"v".to_vec(), 4 | f), w) };
                            !matches!(r, Err(EncoderError::InvalidIndex)) || w.len() != at
                        })
                    })?;
                    if let Some(i) = bad { return fail("storm", format!("refused operation {} of {} was not refused cleanly", i, n)); }
                }
                flush(ctx, &mut rx, &mut wire, &mut pending)?;
            }
        }
        enc.observe(ctx, &[])?;
        ev!(ctx, "long haul ends with {} entries of {} octets", enc.peer.dynq.len(), enc.peer.size);
    }
    let mut steps = 0;
    while steps < 80 && ctx.src.more(30) {
        steps += 1;
        ctx.steps += 1;
        ctx.now += 1 + ctx.src.raw(100);
        ctx.src.begin();
        let t = ctx.src.below(tasks);
        match ctx.src.weighted(&[5, 6, 3, 1, 3]) {
            0 => {
                let o = hp::op(ctx, &p, &enc.peer);
                let m = match enc.meaning(&o) { Some(m) => m, None => { ctx.src.end(); continue } };
                let had = enc.peer.evicted;
                let r = enc.emit(ctx, &o, &mut wire, false)?;
                if let Rep::Lit { kind: Kind::Inc, .. } = r {
                    clock += 1;
                    mem[t].push(Handle { index: 62, born: clock });
                    if enc.peer.evicted > had { ctx.count("probe:evicting_insert"); }
                }
                pending.push(m);
            }
            1 => {
                // a remembered handle, raw (stale) or adjusted by the insertions since
                if !mem[t].is_empty() {
                    let h = &mem[t][ctx.src.below(mem[t].len())];
                    let i = match ctx.src.below(3) {
                        0 => h.index,
                        1 => h.index + (clock - h.born) as u32,
                        _ => h.index + (clock - h.born) as u32 + 1,
                    };
                    let f = ctx.src.below(32) as u8;
                    let f = if f & 0xc == 0xc { f & !8 } else { f };
                    let o = if ctx.src.chance(1, 2) { Op::Index(i) } else { Op::NameIndex(i, gen::value(ctx, &p), f) };
                    match enc.meaning(&o) {
                        Some(m) => {
                            ctx.count("probe:live_handle");
                            let r = enc.emit(ctx, &o, &mut wire, false)?;
                            if let Rep::Lit { kind: Kind::Inc, .. } = r { clock += 1; }
                            pending.push(m);
                        }
                        None => { ctx.fault("fault:stale_handle"); refused(ctx, &mut enc, &o, &mut wire)?; }
                    }
                }
            }
            2 => { ctx.fault("fault:bad_index"); reject(ctx, &mut enc, &mut wire)?; }
            3 => {
                let v = gen::limit(ctx).min(1 << 20);
                ctx.fault("fault:resize");
                rx.set_limit(ctx, v.max(enc.limit_max))?;
                enc.resize(ctx, v, &mut wire)?;
                ev!(ctx, "resize to {}", v);
            }
            _ => {
                // both edges of the table, then what the peer makes of it all
                if ctx.src.chance(1, 3) { enc.observe(ctx, &[])?; }
                flush(ctx, &mut rx, &mut wire, &mut pending)?;
            }
        }
        ctx.state(mix(enc.peer.dynq.len() as u64, mix(enc.peer.size, enc.peer.max)));
        ctx.src.end();
    }
    flush(ctx, &mut rx, &mut wire, &mut pending)?;
    enc.observe(ctx, &[])?;
    rx.observe(ctx)?;
    if rx.model.dynq != enc.peer.dynq { return fail("harness-table", "models differ"); }
    Ok(())
}

fn flush(ctx: &mut Ctx, rx: &mut SutDec, wire: &mut Vec<u8>, pending: &mut Vec<(Vec<u8>, Vec<u8>, bool)>) -> R {
    let mut buf = std::mem::take(wire);
    let mut dst: Out = vec![];
    let w = rx.decode(ctx, &mut buf, &mut dst)?;
    if w.err.is_some() { return fail("peer", format!("the peer cannot decode the connection: {:?}", w.err.map(rh::err_names))); }
    if dst.len() != pending.len() { return fail("peer", format!("{} fields were encoded, the peer got {}", pending.len(), dst.len())); }
    for (w, g) in pending.iter().zip(dst.iter()) {
        if w.0 != g.0 || w.1 != g.1 { return fail("peer", format!("encoded {}={}, the peer got {}", show(&w.0), show(&w.1), show_field(g))); }
    }
    ctx.add("probe:fields_at_peer", dst.len() as u64);
    pending.clear();
    Ok(())
}
