//! Rolling upgrades (C22): services at different schema versions exchange
//! messages whose fields change between kinds that share an encoding.

use super::pb::{typ, Out, Sink};
use super::val::{self, Val};
use crate::core::ctx::{fail, hex, Ctx, R};
use crate::core::src::{fnv, mix, Rng};
use crate::ev;
use crate::gen;
use crate::refm::proto as rp;
use httlib_protos::{Decoder, DecoderLit, Encoder, EncoderLit};

/// Scalar kinds (numbers as in `val::kinds!`) that read each other.
const GROUPS: &[&[usize]] = &[&[1, 3, 5, 7, 9], &[15, 17], &[19, 23], &[21, 25]];
const TEXT: usize = 1000;

/// What a field holds, as numbers.
#[derive(Clone, Debug, PartialEq)]
enum Sem { One(i128), Many(Vec<i128>), Octets(Vec<u8>) }

#[derive(Clone, Copy, Debug)]
struct Slot { tag: u32, group: usize, packed: bool }

/// One version: the kind of each slot, None where the version lacks the field.
type Version = Vec<Option<usize>>;

/// The C cast to a scalar kind.
fn cast(kind: usize, v: i128) -> i128 {
    match kind {
        1 => (v as u64 != 0) as i128,
        // of a varint too wide the low 32 bits are taken, before undoing the zigzag
        15 => { let z = ((v << 1) ^ (v >> 127)) as u32; ((z >> 1) as i32 ^ -((z & 1) as i32)) as i128 }
        3 | 23 => v as i32 as i128,
        5 | 17 | 25 => v as i64 as i128,
        7 | 19 => v as u32 as i128,
        _ => v as u64 as i128,
    }
}
fn cast_sem(kind: usize, s: &Sem) -> Sem {
    match s { Sem::One(v) => Sem::One(cast(kind, *v)), Sem::Many(v) => Sem::Many(v.iter().map(|x| cast(kind, *x)).collect()), o => o.clone() }
}
/// The value as the kind holds it, after the cast.
fn as_val(kind: usize, s: &Sem) -> Val {
    match s {
        Sem::Octets(b) => Val::Bytes(b.clone()),
        Sem::One(v) => { let v = *v; Val::make(kind, &mut || v as u64, 1, &mut Vec::new) }
        Sem::Many(v) => { let mut i = 0; Val::make(kind + 1, &mut || { i += 1; v[i - 1] as u64 }, v.len(), &mut Vec::new) }
    }
}

#[derive(Clone)]
struct Msg { id: usize, bytes: Vec<u8>, fields: Vec<(usize, Sem, u8)>, ends: usize }

struct Service { version: usize, inbox: Vec<Msg>, dec: Decoder, buf: Vec<u8>, at: usize, got: Out }

fn encode(ctx: &mut Ctx, slots: &[Slot], parts: &[(usize, Part)], want: &[u8]) -> R<Vec<u8>> {
    let mut attempt = 0;
    loop {
        attempt += 1;
        let hard = if attempt < 3 && !want.is_empty() && ctx.src.chance(1, 8) { Some(ctx.src.below(want.len())) } else { None };
        let mut w = Sink::new(ctx, hard);
        let mut bad = false;
        for (s, p) in parts {
            let tag = slots[*s].tag;
            let r = ctx.sut("Encoder::encode", || match p {
                Part::Typed(v) => if tag % 2 == 0 { val::encode_plain(v, tag, &mut w) } else { v.encode(tag, &mut w) },
                Part::Raw(wire, o) => {
                    let e = Encoder::default();
                    match *wire {
                        rp::VARINT => { let v: u64 = DecoderLit::UInt64(o.clone()).into(); e.encode((&tag, EncoderLit::UInt64(&v)), &mut w) }
                        rp::BIT32 => { let v: u32 = DecoderLit::Fixed32(o.clone()).into(); e.encode((&tag, EncoderLit::Fixed32(&v)), &mut w) }
                        rp::BIT64 => { let v: u64 = DecoderLit::Fixed64(o.clone()).into(); e.encode((&tag, EncoderLit::Fixed64(&v)), &mut w) }
                        _ => e.encode((&tag, EncoderLit::Bytes(o)), &mut w),
                    }
                }
            })?;
            if let Err(e) = r {
                if !w.failed { return fail("spurious", format!("encoding failed with {:?} although the writer never did", e)); }
                bad = true;
                break;
            }
        }
        ctx.now += w.calls;
        w.report(ctx);
        if bad { ctx.fault("fault:send_retried"); continue; }
        if w.failed { return fail("failure-hidden", "the writer failed but every encode reported success"); }
        if w.data != want { return fail("octets", format!("a service wrote {} where its version has {}", hex(&w.data), hex(want))); }
        return Ok(w.data);
    }
}

enum Part { Typed(Val), Raw(u8, Vec<u8>) }

fn wire_of(slot: &Slot) -> u8 {
    if slot.packed || slot.group == GROUPS.len() { return rp::LEN; }
    [rp::VARINT, rp::VARINT, rp::BIT32, rp::BIT64][slot.group]
}

fn number(ctx: &mut Ctx) -> u64 {
    match ctx.src.below(4) {
        // around the edges of the narrower kinds, either sign
        0 => { let k = *ctx.src.pick(&[0u32, 7, 8, 15, 16, 31, 32, 33, 63]); let d = ctx.src.raw(5); (1u64 << k).wrapping_add(d).wrapping_sub(2) }
        1 => { let k = *ctx.src.pick(&[0u32, 7, 31, 32, 33, 63]); let d = ctx.src.raw(5); 0u64.wrapping_sub(1u64 << k).wrapping_add(d).wrapping_sub(2) }
        2 => (ctx.src.raw(1 << 32)) << 32,
        _ => val::bits(ctx),
    }
}

/// Text with the characters on which readers trip: zeros, blanks and line ends
/// (also at either end), byte order marks, the edges of the UTF-8 lengths.
fn text(ctx: &mut Ctx) -> String {
    const EDGE: &[char] = &['a', '\0', ' ', '\t', '\r', '\n', '"', '\\', '\u{7f}', '\u{80}', '\u{a0}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{301}'];
    let len = if ctx.src.chance(1, 30) { *ctx.src.pick(&[127usize, 128, 300]) } else { ctx.src.below(12) };
    let edges = ctx.src.below(3);
    let mut r = Rng::new(ctx.src.u64());
    (0..len).map(|_| {
        let x = r.next();
        if edges == 0 || (edges == 1 && x & 3 != 0) { char::from_u32(0x20 + (x >> 8) as u32 % 0x500).unwrap_or('x') } else { EDGE[(x >> 8) as usize % EDGE.len()] }
    }).collect()
}

fn read_varint(o: &[u8]) -> u64 {
    o.iter().enumerate().take(10).fold(0u64, |a, (i, b)| a | ((*b as u64 & 127) << (7 * i as u32).min(63)))
}

/// A writer of another make, which may spend redundant octets on integers.
fn foreign(ctx: &mut Ctx, slots: &[Slot], parts: &[(usize, Part)]) -> Vec<u8> {
    let most = *ctx.src.pick(&[0usize, 1, 3, 9]);
    let mut out = vec![];
    let put = |ctx: &mut Ctx, out: &mut Vec<u8>, v: u64| { let p = if most > 0 { ctx.src.below(most + 1) } else { 0 }; rp::put_varint_padded(out, v, p) };
    for (s, p) in parts {
        let v = match p { Part::Typed(v) => v, Part::Raw(..) => continue };
        let slot = &slots[*s];
        put(ctx, &mut out, (slot.tag as u64) << 3 | wire_of(slot) as u64);
        let mut o = v.octets();
        if slot.group < 2 {
            // integers, alone or packed
            let mut padded = vec![];
            let mut at = 0;
            while at < o.len() {
                let n = o[at..].iter().position(|b| b & 128 == 0).unwrap_or(0) + 1;
                let x = read_varint(&o[at..at + n]);
                put(ctx, &mut padded, x);
                at += n;
            }
            o = padded;
        }
        if wire_of(slot) == rp::LEN { put(ctx, &mut out, o.len() as u64); }
        out.extend(o);
    }
    out
}

pub fn upgrade(ctx: &mut Ctx) -> R {
    // the schema's history
    let mut slots: Vec<Slot> = vec![];
    let n = ctx.src.range(1, 6);
    for i in 0..n {
        let g = ctx.src.weighted(&[8, 4, 2, 2, 1]);
        let packed = g < GROUPS.len() && ctx.src.chance(1, 3);
        let mut tag = val::tag(ctx);
        while slots.iter().any(|s| s.tag == tag) { tag = 1 + (tag + i as u32) % 536_870_911; }
        slots.push(Slot { tag, group: g, packed });
    }
    let vn = ctx.src.range(2, 4);
    let mut versions: Vec<Version> = vec![];
    for _ in 0..vn {
        let v: Version = slots.iter().map(|s| {
            if s.group == GROUPS.len() { Some(if ctx.src.chance(1, 2) { 0 } else { TEXT }) }
            else if ctx.src.chance(1, 8) { None } else { Some(*ctx.src.pick(GROUPS[s.group])) }
        }).collect();
        versions.push(v);
    }
    ev!(ctx, "slots {:?} versions {:?}", slots, versions);
    let hops = ctx.src.range(1, 4);
    let mut sv: Vec<Service> = vec![];
    for _ in 0..hops { let v = ctx.src.below(vn); sv.push(Service { version: v, inbox: vec![], dec: Decoder::default(), buf: vec![], at: 0, got: vec![] }); }
    let mut source = ctx.src.below(vn);
    let mut sent = 0;
    let mut arrived = 0;
    let mut extra = 0usize;
    let mut steps = 0;
    loop {
        steps += 1;
        ctx.steps += 1;
        ctx.now += 1 + ctx.src.raw(50);
        let busy: Vec<usize> = (0..hops).filter(|h| !sv[*h].inbox.is_empty()).collect();
        let quiet = steps > 60 || !ctx.src.more(25);
        if quiet && busy.is_empty() { break; }
        if steps > 4000 { return fail("no-progress", "messages are still under way after faults stopped"); }
        ctx.src.begin();
        let act = if quiet { 1 } else { ctx.src.weighted(&[3, 8, 1, 1, 1]) };
        match act {
            0 => {
                // the source writes one message at its present version
                let k = ctx.src.range(1, 5);
                let mut parts = vec![];
                let mut fields = vec![];
                let mut want = vec![];
                for _ in 0..k {
                    let s = ctx.src.below(slots.len());
                    let kind = match versions[source][s] { Some(k) => k, None => continue };
                    let sem = if kind == 0 || kind == TEXT {
                        Sem::Octets(text(ctx).into_bytes())
                    } else if slots[s].packed {
                        if ctx.src.chance(1, 40) {
                            // a long list from one seed
                            ctx.count("probe:long_list");
                            let c = *ctx.src.pick(&[15usize, 16, 17, 63, 64, 127, 128, 129, 300]);
                            let mut r = Rng::new(ctx.src.u64());
                            Sem::Many((0..c).map(|_| { let x = r.next(); let y = r.next() >> (x & 63); cast(kind, (if x >> 63 == 0 { y } else { !y }) as i128) }).collect())
                        } else {
                            let c = ctx.src.below(5);
                            Sem::Many((0..c).map(|_| cast(kind, number(ctx) as i128)).collect())
                        }
                    } else { Sem::One(cast(kind, number(ctx) as i128)) };
                    let v = as_val(if kind == TEXT { 0 } else { kind }, &sem);
                    rp::put_raw(&mut want, &(slots[s].tag, wire_of(&slots[s]), v.octets()));
                    parts.push((s, Part::Typed(v)));
                    fields.push((s, sem, wire_of(&slots[s])));
                }
                let bytes = if ctx.src.chance(1, 6) {
                    ctx.count("probe:foreign_writer");
                    foreign(ctx, &slots, &parts)
                } else { encode(ctx, &slots, &parts, &want)? };
                ev!(ctx, "source (version {}) sends message {}: {:?} as {}", source, sent, fields, hex(&bytes));
                let m = Msg { id: sent, ends: bytes.len(), bytes, fields };
                sent += 1;
                sv[0].inbox.push(m);
            }
            1 if !busy.is_empty() => {
                let h = busy[ctx.src.below(busy.len())];
                let (left, at) = (sv[h].inbox[0].ends, sv[h].at);
                let k = if steps > 300 { left - at } else { gen::cut(ctx, left - at) };
                let s = &mut sv[h];
                s.buf.extend_from_slice(&s.inbox[0].bytes[at..at + k]);
                s.at += k;
                if s.at < left { ctx.fault("fault:cut"); }
                let (d, b, g) = (&mut s.dec, &mut s.buf, &mut s.got);
                let r = ctx.sut("Decoder::decode", || d.decode(b, g))?;
                if let Err(e) = r { return fail("rejected", format!("a valid message was rejected with {:?}", e)); }
                if s.at == left {
                    if !s.buf.is_empty() { return fail("leftover", format!("{} octets of a whole message were not consumed", s.buf.len())); }
                    let m = s.inbox.remove(0);
                    let got = std::mem::take(&mut s.got);
                    s.at = 0;
                    let version = s.version;
                    let out = serve(ctx, &slots, &versions[version], h, version, &m, got)?;
                    if h + 1 < hops {
                        // the acknowledgement may be lost: the next service then sees the message twice
                        if ctx.src.chance(1, 20) && !quiet { ctx.fault("fault:duplicate"); extra += 1; sv[h + 1].inbox.push(out.clone()); }
                        let at = if ctx.src.chance(1, 6) && sv[h + 1].inbox.len() > 1 { ctx.fault("fault:reorder"); 1 + ctx.src.below(sv[h + 1].inbox.len() - 1) } else { sv[h + 1].inbox.len() };
                        sv[h + 1].inbox.insert(at, out);
                    } else { arrived += 1; }
                }
            }
            2 => {
                let h = ctx.src.below(hops);
                let v = ctx.src.below(vn);
                ctx.fault("fault:upgrade");
                if sv[h].at > 0 { ctx.fault("fault:restart_in_message"); }
                ev!(ctx, "service {} restarts as version {}", h, v);
                sv[h].version = v;
                restart(&mut sv[h]);
            }
            3 => {
                let h = ctx.src.below(hops);
                ctx.fault("fault:crash");
                if sv[h].at > 0 { ctx.fault("fault:restart_in_message"); }
                ev!(ctx, "service {} crashes", h);
                restart(&mut sv[h]);
            }
            4 => { source = ctx.src.below(vn); ctx.fault("fault:upgrade"); ev!(ctx, "source becomes version {}", source); }
            _ => {}
        }
        ctx.src.end();
    }
    if arrived != sent + extra { return fail("lost", format!("{} messages were sent, {} arrived, {} of them twice", sent, arrived, extra)); }
    Ok(())
}

fn restart(s: &mut Service) {
    // nothing but the unacknowledged inbox survives
    s.dec = Decoder::default();
    s.buf = vec![];
    s.got = vec![];
    s.at = 0;
}

/// A service reads what it knows with its own kinds, forwards the rest by wire
/// type, and writes the message again.
fn serve(ctx: &mut Ctx, slots: &[Slot], version: &Version, h: usize, number: usize, m: &Msg, got: Out) -> R<Msg> {
    if got.len() != m.fields.len() { return fail("count", format!("message {} has {} fields, {} arrived", m.id, m.fields.len(), got.len())); }
    let mut parts = vec![];
    let mut fields = vec![];
    let mut want = vec![];
    for ((s, sem, wire), g) in m.fields.iter().zip(got) {
        let slot = &slots[*s];
        if g.0 != slot.tag || typ(&g.1) != *wire { return fail("field", format!("tag {} type {} arrived as tag {} type {}", slot.tag, wire, g.0, typ(&g.1))); }
        match version[*s] {
            Some(kind) => {
                let k = if kind == TEXT { 0 } else { kind };
                let now = cast_sem(k, sem);
                if now != *sem { ctx.count("probe:narrowed"); }
                let v = as_val(k, &now);
                let o = g.2;
                if kind == TEXT {
                    let (t, b) = (if let Sem::Octets(b) = sem { b.clone() } else { vec![] }, o);
                    let r: String = ctx.sut("DecoderLit conversion", || DecoderLit::Bytes(b).into())?;
                    if r.as_bytes() != &t[..] { return fail("value", format!("text {:?} arrived as {:?}", String::from_utf8_lossy(&t), r)); }
                } else {
                    let copy = o.clone();
                    let r = ctx.sut("DecoderLit conversion", || v.same(copy))?;
                    if let Err(e) = r { return fail("value", format!("{:?} (octets {}) read as {} by service {} at version {}: {}", sem, hex(&o), v.name(), h, number, e)); }
                }
                ctx.count("probe:values_compared");
                rp::put_raw(&mut want, &(slot.tag, *wire, v.octets()));
                parts.push((*s, Part::Typed(v)));
                fields.push((*s, now, *wire));
            }
            None => {
                ctx.count("probe:unknown_forwarded");
                let mut o = g.2.clone();
                if *wire == rp::VARINT { o.clear(); rp::put_varint(&mut o, read_varint(&g.2)); }
                rp::put_raw(&mut want, &(slot.tag, *wire, o));
                parts.push((*s, Part::Raw(*wire, g.2)));
                fields.push((*s, sem.clone(), *wire));
            }
        }
    }
    let bytes = encode(ctx, slots, &parts, &want)?;
    ctx.state(mix(fnv(&bytes), number as u64));
    ev!(ctx, "service {} (version {}) passes message {} on as {}", h, number, m.id, hex(&bytes));
    Ok(Msg { id: m.id, ends: bytes.len(), bytes, fields })
}
