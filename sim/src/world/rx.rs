//! Worlds around one real HPACK decoder: pieces (C03), damage (C04), size
//! negotiation (C05), conforming foreign peers (C08), paced pulls (C20).

use super::hp::{self, show_field, Out, SutDec, SutEnc};
use super::peer::Peer;
use crate::core::ctx::{fail, hex, Ctx, R};
use crate::core::json;
use crate::core::src::{fnv, mix};
use crate::ev;
use crate::gen::{self, Profile};
use crate::refm::hpack::{self as rh, Kind, RTable, Rep};
use httlib_hpack::{Decoder, DecoderError};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

/// Who writes the blocks.
enum Sender { Real(SutEnc), Foreign(Peer) }

impl Sender {
    fn new(ctx: &mut Ctx, size: u32) -> Sender {
        if ctx.src.chance(1, 3) { Sender::Real(SutEnc::new(size)) } else { Sender::Foreign(Peer::new(ctx, size)) }
    }
    fn table(&self) -> &RTable { match self { Sender::Real(e) => &e.peer, Sender::Foreign(p) => &p.table } }
    fn block(&mut self, ctx: &mut Ctx, p: &Profile, avg: usize, out: &mut Vec<u8>) -> R<Vec<(Vec<u8>, Vec<u8>, u8)>> {
        match self {
            Sender::Foreign(f) => Ok(f.block(ctx, p, avg, out)),
            Sender::Real(e) => {
                let mut fields = vec![];
                let mut k = 0;
                while k < 30 && out.len() < 100_000 && ctx.src.more(avg) {
                    k += 1;
                    ctx.src.begin();
                    let o = hp::op(ctx, p, &e.peer);
                    let rep = e.emit(ctx, &o, out, false)?;
                    let flag = match &rep { Rep::Lit { kind, .. } => kind.flag(), _ => 0 };
                    let m = match &rep {
                        Rep::Lit { name, value, .. } => (name.clone(), value.clone()),
                        Rep::Indexed(i) => match e.peer.get(*i) { Some(x) => (x.0.to_vec(), x.1.to_vec()), None => continue },
                        Rep::Size(_) => continue,
                    };
                    fields.push((m.0, m.1, flag));
                    ctx.src.end();
                }
                Ok(fields)
            }
        }
    }
}

// ---------------------------------------------------------------- pieces

pub fn pieces(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let size = gen::initial(ctx);
    let mut snd = Sender::new(ctx, size);
    let mut rx = SutDec::new(size);
    let mut twin = SutDec::new(size);
    ev!(ctx, "connect, table {}, {} sender", size, if matches!(snd, Sender::Real(_)) { "real" } else { "foreign" });
    let mut n = 0;
    while n < 12 && ctx.src.more(4) {
        n += 1;
        ctx.steps += 1;
        ctx.src.begin();
        let mut block = vec![];
        // conforming peers may only use indexes into the table both share
        let saved = match &snd { Sender::Foreign(f) => Some(f.table.clone()), _ => None };
        let mut fields = snd.block(ctx, &p, 3, &mut block)?;
        if ctx.src.chance(1, 3000) { many_fields(ctx, &mut block, &mut fields); }
        ev!(ctx, "block {} of {} fields in {} octets {}", n, fields.len(), block.len(), hex(&block));
        let give_up = if saved.is_some() && ctx.src.chance(1, 8) { ctx.src.below(block.len() + 1) } else { block.len() };
        let mut buf: Vec<u8> = vec![];
        let mut dst: Out = vec![];
        let mut at = 0;
        let mut last_err = false;
        let mut pieces = 0;
        while at < give_up || (pieces == 0 && at == 0) {
            let k = if pieces > 300 { give_up - at } else { gen::cut(ctx, give_up - at) };
            ctx.now += 1 + k as u64;
            if at + k < block.len() { ctx.fault("fault:cut"); }
            buf.extend_from_slice(&block[at..at + k]);
            at += k;
            pieces += 1;
            let w = rx.decode(ctx, &mut buf, &mut dst)?;
            last_err = w.err.is_some();
            if let Some(e) = w.err {
                if e != rh::UNDERFLOW { return fail("harness-block", format!("reference rejects its own block: {}", rh::err_names(e))); }
            }
            if pieces < 40 && ctx.src.chance(1, 4) {
                ctx.fault("fault:retry_without_data");
                let keep = buf.clone();
                let have = dst.len();
                rx.decode(ctx, &mut buf, &mut dst)?;
                if buf != keep || dst.len() != have {
                    return fail("retry", format!("a retry without new data changed the input from {} to {} octets and the output from {} to {} fields", keep.len(), buf.len(), have, dst.len()));
                }
            }
            if last_err && buf.len() < 300 && ctx.src.chance(1, 2000) { storm(ctx, &mut rx.dec, &mut buf, DecoderError::IntegerUnderflow)?; }
            if last_err && pieces < 40 && ctx.src.chance(1, 6) { ctx.count("probe:observed_while_incomplete"); rx.observe(ctx)?; }
            ctx.state(mix(at as u64, fnv(&buf[..buf.len().min(64)])));
        }
        if give_up < block.len() {
            ctx.fault("fault:abandoned");
            ev!(ctx, "the rest of block {} never arrives", n);
            // the peer learns what got through; the incomplete field left no trace
            if let Sender::Foreign(f) = &mut snd { f.table = rx.model.clone(); }
            let mut t2 = block[..give_up].to_vec();
            let mut d2: Out = vec![];
            twin.decode(ctx, &mut t2, &mut d2)?;
        } else {
            if last_err || !buf.is_empty() { return fail("incomplete", format!("all of block {} arrived but {} octets remain", n, buf.len())); }
            // the same block at once
            let mut whole = block.clone();
            let mut d2: Out = vec![];
            twin.decode(ctx, &mut whole, &mut d2)?;
            if d2 != dst {
                return fail("pieces-differ", format!("block {} gave {} fields in pieces and {} fields at once", n, dst.len(), d2.len()));
            }
            for (i, (a, b)) in fields.iter().zip(dst.iter()).enumerate() {
                if a != b { return fail("field", format!("field {} of block {}: sent {}, got {}", i, n, show_field(a), show_field(b))); }
            }
            if fields.len() != dst.len() { return fail("field-count", format!("block {} has {} fields, got {}", n, fields.len(), dst.len())); }
            ctx.count("probe:block_completed");
        }
        rx.observe(ctx)?;
        twin.observe(ctx)?;
        if rx.model != twin.model { return fail("tables-differ", "the decoder fed in pieces and the one fed at once hold different tables"); }
        ctx.src.end();
    }
    Ok(())
}

/// Appends very many short fields that leave the table alone to a block.
fn many_fields(ctx: &mut Ctx, block: &mut Vec<u8>, fields: &mut Vec<(Vec<u8>, Vec<u8>, u8)>) {
    let n = *ctx.src.pick(&[300usize, 1200, 1200, 5000, 5000, 20_000, 70_000]);
    let n = n - ctx.src.below(n / 20);
    let mut r = crate::core::src::Rng::new(ctx.src.raw(1 << 32));
    ctx.count("probe:many_fields");
    for i in 0..n {
        if r.below(40) == 0 {
            let v = vec![b'a' + (i % 26) as u8; r.below(3) as usize];
            let never = r.below(2) == 0;
            block.extend_from_slice(&[if never { 0x10 } else { 0 }, 1, b'f', v.len() as u8]);
            block.extend_from_slice(&v);
            fields.push((b"f".to_vec(), v, if never { 8 } else { 0 }));
        } else {
            let k = r.below(61) as usize;
            block.push(0x81 + k as u8);
            fields.push((rh::STATIC[k].0.to_vec(), rh::STATIC[k].1.to_vec(), 0));
        }
    }
}

/// Retries a failing attempt very many times; nothing may change.
fn storm(ctx: &mut Ctx, dec: &mut Decoder<'static>, buf: &mut Vec<u8>, want: DecoderError) -> R {
    let n = *ctx.src.pick(&[20usize, 300, 300, 1100, 66_000]);
    ctx.fault("fault:retry_storm");
    let keep = buf.clone();
    let bad = ctx.sut("Decoder::decode", || {
        let mut dst: Out = vec![];
        (0..n).find(|_| dec.decode(buf, &mut dst).as_ref().err() != Some(&want) || !dst.is_empty() || buf.len() != keep.len())
    })?;
    ev!(ctx, "{} retries without new data", n);
    if let Some(i) = bad { return fail("retry", format!("retry {} without new data behaved differently, the input is now {}", i + 1, hex(buf))); }
    if *buf != keep { return fail("retry", "retries altered the input"); }
    Ok(())
}

// ---------------------------------------------------------------- damage

pub fn damaged(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let size = gen::initial(ctx);
    let mut peer = Peer::new(ctx, size);
    let mut rx = SutDec::new(size);
    let in_pieces = ctx.src.chance(1, 2);
    ev!(ctx, "connect, table {}", size);
    let mut n = 0;
    while n < 14 && ctx.src.more(5) {
        n += 1;
        ctx.steps += 1;
        ctx.src.begin();
        let mut block = vec![];
        peer.block(ctx, &p, 3, &mut block);
        let clean = ctx.src.chance(1, 3);
        if !clean {
            let k = 1 + ctx.src.below(3);
            for _ in 0..k {
                let d = match ctx.src.below(5) {
                    0 => aimed(ctx, &mut block, &peer, rx.limit),
                    _ => gen::damage(ctx, &mut block),
                };
                ev!(ctx, "damage: {}", d);
            }
        }
        ev!(ctx, "block {} is {}", n, hex(&block));
        let mut buf = vec![];
        let mut dst: Out = vec![];
        let mut at = 0;
        let mut pieces = 0;
        let mut err = None;
        loop {
            let k = if in_pieces && pieces < 60 { gen::cut(ctx, block.len() - at) } else { block.len() - at };
            buf.extend_from_slice(&block[at..at + k]);
            at += k;
            pieces += 1;
            ctx.now += 1 + k as u64;
            let w = rx.decode(ctx, &mut buf, &mut dst)?;
            err = w.err.or(if at < block.len() { err } else { None });
            if let Some(e) = w.err {
                if e & rh::UNDERFLOW == 0 || at == block.len() {
                    count_err(ctx, e);
                    // again: same verdict, nothing delivered, nothing consumed
                    let keep = buf.clone();
                    let have = dst.len();
                    let again = rx.decode(ctx, &mut buf, &mut dst)?;
                    if buf != keep || dst.len() != have || again.err.is_none() {
                        return fail("repeat", "repeating the failed attempt gave another result");
                    }
                    if buf.len() < 300 && ctx.src.chance(1, 2000) {
                        let mut d: Out = vec![];
                        let d0 = &mut rx.dec;
                        if let Err(x) = ctx.sut("Decoder::decode", || d0.decode(&mut buf, &mut d))? { storm(ctx, &mut rx.dec, &mut buf, x)?; }
                    }
                    if e & rh::UNDERFLOW == 0 { break; }
                }
            }
            if at == block.len() { break; }
        }
        if err.is_none() && clean { ctx.count("probe:clean_block"); }
        if err.is_none() && !clean { ctx.count("probe:damage_left_block_valid"); }
        if err.is_some() && ctx.src.chance(1, 3) { rx.observe(ctx)?; }
        // whatever arrived, both ends continue from the decoder's table
        peer.table = rx.model.clone();
        ctx.state(mix(err.unwrap_or(0) as u64, mix(rx.model.dynq.len() as u64, rx.model.size)));
        ctx.src.end();
    }
    rx.observe(ctx)?;
    // well-formed blocks decode correctly afterwards
    let mut block = vec![];
    let fields = peer.block(ctx, &p, 4, &mut block);
    let mut dst: Out = vec![];
    let w = rx.decode(ctx, &mut block, &mut dst)?;
    if w.err.is_some() || dst != fields { return fail("after-damage", "a clean block after damage was not decoded to its fields"); }
    rx.observe(ctx)
}

fn count_err(ctx: &mut Ctx, e: u8) {
    if e & rh::UNDERFLOW != 0 { ctx.count("probe:error_underflow"); }
    if e & rh::OVERFLOW != 0 { ctx.count("probe:error_overflow"); }
    if e & rh::INDEX != 0 { ctx.count("probe:error_index"); }
    if e & rh::INPUT != 0 { ctx.count("probe:error_huffman"); }
    if e & rh::SIZE != 0 { ctx.count("probe:error_size"); }
}

/// Damage that turns a field into one with a particular defect.
fn aimed(ctx: &mut Ctx, block: &mut Vec<u8>, peer: &Peer, limit: u64) -> String {
    let n = peer.table.len() as u64;
    let kind = *ctx.src.pick(&[Kind::Inc, Kind::Without, Kind::Never]);
    let mut b = vec![];
    let what = match ctx.src.below(6) {
        0 => {
            let i = match ctx.src.below(3) { 0 => gen::wild_index(ctx, n, (1 << 28) + 126), _ => *ctx.src.pick(&[n + 1, 0, n + 2, n + 61, 1 << 20, (1 << 28) + 100, 62 + n]) };
            rh::put_rep(&mut b, &Rep::Indexed(i), [0; 3]);
            format!("index {}", i)
        }
        1 => {
            let i = match ctx.src.below(3) { 0 => gen::wild_index(ctx, n, 1 << 28), _ => *ctx.src.pick(&[n + 1, n + 2, 1 << 20]) };
            rh::put_rep(&mut b, &Rep::Lit { kind, index: i, huff_name: false, huff_value: false, name: vec![], value: b"v".to_vec() }, [0; 3]);
            format!("name index {}", i)
        }
        2 => {
            let s = *ctx.src.pick(&[limit + 1, limit + 2, 1 << 28, (1 << 28) + 30, limit * 2 + 1]);
            let s = s.min((1 << 28) + 30);
            rh::put_rep(&mut b, &Rep::Size(s), [0; 3]);
            format!("size update {} (limit {})", s, limit)
        }
        3 => {
            let first = *ctx.src.pick(&[0xffu8, 0x7f, 0x3f, 0x1f, 0x0f]);
            b.push(first);
            let k = 3 + ctx.src.below(4);
            for _ in 0..k { b.push(*ctx.src.pick(&[0x80u8, 0xff])); }
            b.push(*ctx.src.pick(&[0u8, 1, 0x7f]));
            format!("integer of {} octets", b.len())
        }
        4 => {
            // literal whose Huffman string is bad in a chosen way
            let in_name = ctx.src.chance(1, 2);
            let good = crate::refm::huff::encode(b"a good value");
            let mut bad = good.clone();
            match ctx.src.below(5) {
                0 => bad.push(0xff),
                1 => { let l = bad.len() - 1; bad[l] ^= 1; }
                2 => bad = vec![0xff, 0xff, 0xff, 0xff],
                3 => bad = vec![0x1f, 0xfc],
                _ => bad = vec![0b0001_1000],
            }
            let mut put = |s: &[u8], h: bool| { rh::put_int(&mut b, if h { 0x80 } else { 0 }, 7, s.len() as u64, 0); b.extend_from_slice(s); };
            let head = match kind { Kind::Inc => 0x40u8, Kind::Without => 0, Kind::Never => 0x10 };
            if in_name { put(&bad, true); put(b"value", false); } else { put(b"name", false); put(&bad, true); }
            b.insert(0, head);
            "bad Huffman string".into()
        }
        _ => {
            let head = match kind { Kind::Inc => 0x40u8, Kind::Without => 0, Kind::Never => 0x10 };
            b.push(head);
            rh::put_int(&mut b, 0, 7, *ctx.src.pick(&[5u64, 300, 1 << 20, 1 << 28]), 0);
            b.extend_from_slice(b"abc");
            "string shorter than announced".into()
        }
    };
    ctx.fault("fault:aimed_defect");
    // at a field boundary (or anywhere), followed by what was there or nothing
    let mut t = peer.table.clone();
    let ends = rh::decode(block, &mut t, u64::MAX).ends;
    let mut pos = 0;
    if !ends.is_empty() && ctx.src.chance(2, 3) { pos = ends[ctx.src.below(ends.len())]; }
    if ctx.src.chance(1, 2) { block.truncate(pos); }
    for (i, x) in b.into_iter().enumerate() { block.insert(pos + i, x); }
    format!("{} inserted at {}", what, pos)
}

// ------------------------------------------------------- size negotiation

pub fn negotiation(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let size = gen::initial(ctx);
    let real = ctx.src.chance(1, 2);
    let mut enc = SutEnc::new(size);
    let mut peer = Peer::new(ctx, size);
    peer.size_w = 0;
    let mut rx = SutDec::new(size);
    rx.check_limit(ctx)?;
    ev!(ctx, "connect, table {}, {} sender", size, if real { "real" } else { "foreign" });
    let mut wire: Vec<u8> = vec![]; // sent, not yet offered to the decoder
    let mut buf: Vec<u8> = vec![];
    let mut queue: std::collections::VecDeque<u32> = Default::default(); // SETTINGS in flight
    let mut n = 0;
    let (most, avg) = if ctx.src.chance(1, 1000) { ctx.count("probe:long_negotiation"); (1500, 600) } else { (60, 25) };
    while n < most && ctx.src.more(avg) {
        n += 1;
        ctx.steps += 1;
        ctx.now += 1 + ctx.src.raw(300);
        ctx.src.begin();
        match ctx.src.weighted(&[4, 3, 3, 3, 1]) {
            0 => {
                // fields that fill the table
                if real {
                    let k = 1 + ctx.src.below(3);
                    for _ in 0..k {
                        let o = hp::op(ctx, &p, &enc.peer);
                        let r = enc.emit(ctx, &o, &mut wire, false)?;
                        hp::log_op(ctx, "sender", &o, &r);
                    }
                } else {
                    let mut b = vec![];
                    peer.block(ctx, &p, 2, &mut b);
                    ev!(ctx, "sender block {}", hex(&b));
                    wire.extend(b);
                }
            }
            1 => {
                // the decoder's user changes the limit
                let v = near_limit(ctx, &rx.model, rx.limit);
                let before = rx.model.clone();
                rx.set_limit(ctx, v)?;
                rx.check_limit(ctx)?;
                queue.push_back(v);
                ev!(ctx, "receiver sets limit {}", v);
                if (v as u64) < before.max { ctx.count("probe:limit_below_table"); }
                if ctx.src.chance(1, 2) { rx.observe(ctx)?; }
            }
            2 => {
                // the encoder side changes its size, sometimes before the limit
                // allows it (reordered or lost SETTINGS), or cheats
                let t = if real { &enc.peer } else { &peer.table };
                let v = match ctx.src.below(4) {
                    0 | 1 => queue.pop_front().unwrap_or(t.max as u32),
                    2 => near_limit(ctx, t, rx.limit),
                    _ => (rx.limit + ctx.src.raw(3)).min(u32::MAX as u64) as u32,
                }.min((1 << 28) + 30);
                if real {
                    enc.resize(ctx, v, &mut wire)?;
                    let e = &mut enc.enc;
                    let m = ctx.sut("Encoder::max_dynamic_size", || e.max_dynamic_size())?;
                    if m != v { return fail("encoder-size", format!("encoder reports size {} after adopting {}", m, v)); }
                    if ctx.src.chance(1, 3) { enc.observe(ctx, &[])?; }
                } else {
                    let pad = ctx.src.below(5);
                    rh::put_rep(&mut wire, &Rep::Size(v as u64), [pad; 3]);
                    peer.table.set_max(v as u64);
                }
                ev!(ctx, "sender announces size {} (limit {})", v, rx.limit);
                if v as u64 > rx.limit { ctx.fault("fault:update_above_limit"); }
                if v as u64 == rx.limit { ctx.count("probe:update_equal_limit"); }
            }
            3 => {
                // deliver some octets
                let k = gen::cut(ctx, wire.len());
                if k < wire.len() { ctx.fault("fault:cut"); }
                buf.extend(wire.drain(..k));
                let mut dst: Out = vec![];
                let before = rx.model.clone();
                let w = rx.decode(ctx, &mut buf, &mut dst)?;
                ev!(ctx, "receiver decodes {} fields, {:?}", dst.len(), w.err.map(rh::err_names));
                for r in &w.reps { if let Rep::Size(s) = r { ctx.count("probe:update_accepted"); if *s < before.max { ctx.count("probe:shrunk"); } if *s == 0 { ctx.count("probe:size_zero"); } } }
                rx.check_limit(ctx)?;
                match w.err {
                    Some(rh::SIZE) => {
                        ctx.count("probe:update_refused");
                        rx.observe(ctx)?;
                        // the table is unchanged and the attempt can be repeated
                        let mut d2: Out = vec![];
                        let again = rx.decode(ctx, &mut buf, &mut d2)?;
                        if again.err != Some(rh::SIZE) || !d2.is_empty() { return fail("refused-twice", "a refused update gave another result when repeated"); }
                    }
                    Some(e) if e != rh::UNDERFLOW => return fail("harness-block", format!("reference rejects the block: {}", rh::err_names(e))),
                    _ => if ctx.src.chance(1, 3) { rx.observe(ctx)?; },
                }
                ctx.state(mix(rx.model.max, mix(rx.limit, rx.model.size)));
            }
            _ => {
                ctx.fault("fault:reset");
                let s = gen::initial(ctx);
                ev!(ctx, "reset, table {}", s);
                enc = SutEnc::new(s);
                let w = peer.size_w;
                peer = Peer::new(ctx, s);
                peer.size_w = w;
                rx = SutDec::new(s);
                rx.check_limit(ctx)?;
                wire.clear();
                buf.clear();
                queue.clear();
            }
        }
        ctx.src.end();
    }
    if ctx.src.chance(1, 10) {
        // an encoder alone, up to the largest size there is
        let v = *ctx.src.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 30, (1 << 28) + 31, (1 << 28) + 32, (1 << 30) + 5]);
        let mut e = httlib_hpack::Encoder::default();
        let mut out = vec![];
        let (r, m) = ctx.sut("Encoder::update_max_dynamic_size", || (e.update_max_dynamic_size(v, &mut out), e.max_dynamic_size()))?;
        let said = out.iter().skip(1).enumerate().fold(31u64, |a, (i, b)| a + (((*b & 127) as u64) << (7 * i)));
        ctx.count("probe:huge_size_announced");
        if r.is_err() || m != v || said != v as u64 || out[0] != 0x3f { return fail("encoder-size", format!("an encoder told to adopt {} reports {} and announces {} ({:?}, {})", v, m, said, r, hex(&out))); }
    }
    // the limit is raised for good: everything still pending must go through
    rx.set_limit(ctx, u32::MAX)?;
    rx.check_limit(ctx)?;
    buf.extend(wire.drain(..));
    let mut dst: Out = vec![];
    let w = rx.decode(ctx, &mut buf, &mut dst)?;
    if w.err.is_some() { return fail("no-progress", format!("octets remain undecodable after the limit was lifted: {:?}", w.err.map(rh::err_names))); }
    rx.observe(ctx)?;
    let t = if real { enc.observe(ctx, &[])?; &enc.peer } else { &peer.table };
    if t.dynq != rx.model.dynq || t.max != rx.model.max { return fail("divergence", "tables differ after everything was delivered"); }
    Ok(())
}

fn near_limit(ctx: &mut Ctx, t: &RTable, limit: u64) -> u32 {
    // the sum of the newest k entries, exactly or one off, to hit evictions
    let mut acc = 0;
    let k = ctx.src.below(t.dynq.len() + 1);
    for e in t.dynq.iter().take(k) { acc += rh::entry_size(&e.0, &e.1); }
    let v = match ctx.src.below(6) {
        0 => return gen::limit(ctx),
        1 => acc,
        2 => acc + ctx.src.raw(33),
        3 => acc.saturating_sub(1 + ctx.src.raw(33)),
        4 => limit.saturating_add(ctx.src.raw(3)).saturating_sub(1),
        _ => *ctx.src.pick(&[0u64, t.max, 30, 31, 32, 158, 159, 4096, 1 << 28, (1 << 28) + 30]),
    };
    v.min((1 << 28) + 30) as u32
}

// ------------------------------------------------------ foreign encoders

struct Story { name: String, cases: Vec<(Vec<u8>, Vec<(Vec<u8>, Vec<u8>)>, Option<u32>)> }

/// Recorded sessions of third-party encoders, in /repo/hpack/fixtures.
fn stories() -> &'static Vec<PathBuf> {
    static S: OnceLock<Vec<PathBuf>> = OnceLock::new();
    S.get_or_init(|| {
        let list = |d: &Path| -> Vec<PathBuf> {
            let mut v: Vec<_> = std::fs::read_dir(d).map(|x| x.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            v.sort();
            v
        };
        list(Path::new("/repo/hpack/fixtures")).iter().flat_map(|d| list(d)).filter(|f| f.extension().map(|x| x == "json").unwrap_or(false)).collect()
    })
}

fn load(f: &Path) -> Option<Story> {
    let j = json::parse(&std::fs::read(f).ok()?)?;
    let dir = f.parent().and_then(|d| d.file_name()).unwrap_or_default().to_string_lossy().to_string();
    let mut s = Story { name: format!("{}/{}", dir, f.file_name()?.to_string_lossy()), cases: vec![] };
    for c in j.get("cases")?.arr() {
        let wire = match c.get("wire").and_then(|w| w.str()) { Some(w) => unhex(w), None => continue };
        let hs = c.get("headers").map(|h| h.arr()).unwrap_or(&[]).iter().filter_map(|h| match h { json::J::Obj(v) => v.first(), _ => None })
            .map(|(k, v)| (k.as_bytes().to_vec(), v.str().unwrap_or("").as_bytes().to_vec())).collect();
        s.cases.push((wire, hs, c.get("header_table_size").and_then(|x| x.num()).map(|x| x as u32)));
    }
    Some(s)
}

fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes().chunks_exact(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap_or("0"), 16).unwrap_or(0)).collect()
}

pub fn foreign(ctx: &mut Ctx) -> R {
    if ctx.src.chance(1, 10) && !stories().is_empty() { return story(ctx); }
    let p = gen::profile(ctx);
    let size = gen::initial(ctx);
    let mut peer = Peer::new(ctx, size);
    let mut rx = SutDec::new(size);
    let cutting = ctx.src.chance(2, 3);
    ev!(ctx, "connect to a foreign encoder, table {}", size);
    if ctx.src.chance(1, 800) {
        let (mut h, s) = hp::Haul::new(ctx);
        peer = Peer::new(ctx, s);
        rx = SutDec::new(s);
        ctx.steps += h.left as u64;
        while h.left > 0 {
            let (mut block, mut fields) = (vec![], vec![]);
            while block.len() < 16_000 {
                let o = match h.next(&peer.table) { Some(o) => o, None => break };
                let kind = |f: u8| if f & 4 != 0 { Kind::Inc } else if f & 8 != 0 { Kind::Never } else { Kind::Without };
                let r = match o {
                    hp::Op::Index(i) => Rep::Indexed(i as u64),
                    hp::Op::NameIndex(i, v, f) => Rep::Lit { kind: kind(f), index: i as u64, huff_name: false, huff_value: f & 2 != 0, name: peer.table.get(i as u64).map(|e| e.0.to_vec()).unwrap_or_default(), value: v },
                    hp::Op::Lit(n, v, f) => Rep::Lit { kind: kind(f), index: 0, huff_name: f & 1 != 0, huff_value: f & 2 != 0, name: n, value: v },
                };
                rh::put_rep(&mut block, &r, [0; 3]);
                if let Some(f) = rh::apply(&r, &mut peer.table) { fields.push(f); }
            }
            receive(ctx, &mut rx.dec, &block, &fields, cutting)?;
        }
        rx.model = peer.table.clone();
        rx.observe(ctx)?;
        ev!(ctx, "long haul ends with {} entries of {} octets", rx.model.dynq.len(), rx.model.size);
    }
    let mut n = 0;
    while n < 20 && ctx.src.more(6) {
        n += 1;
        ctx.steps += 1;
        ctx.src.begin();
        if ctx.src.chance(1, 6) {
            // a new limit, acknowledged by the peer with the updates RFC 7541 asks for
            let v = gen::limit(ctx);
            rx.set_limit(ctx, v)?;
            peer.limit = v as u64;
            ev!(ctx, "limit {}", v);
        }
        let mut block = vec![];
        let mut fields = vec![];
        if peer.table.max > peer.limit {
            let l = peer.limit;
            peer.put(ctx, &Rep::Size(l), &mut block);
        }
        if ctx.src.chance(1, 60) {
            // many entries: indexes that need three octets
            ctx.count("probe:large_index");
            let k = *ctx.src.pick(&[70usize, 140, 300]);
            let seed = ctx.src.raw(1 << 16);
            for i in 0..k {
                let r = Rep::Lit { kind: Kind::Inc, index: 0, huff_name: i % 2 == 0, huff_value: false, name: format!("{:x}", seed + i as u64).into_bytes(), value: vec![] };
                if let Some(f) = peer.put(ctx, &r, &mut block) { fields.push(f); }
            }
        }
        if ctx.src.chance(1, 400) {
            ctx.count("probe:mega_string");
            let v = gen::mega(ctx);
            let h = ctx.src.chance(1, 2);
            let r = Rep::Lit { kind: Kind::Without, index: 0, huff_name: false, huff_value: h, name: b"m".to_vec(), value: v };
            if let Some(f) = peer.put(ctx, &r, &mut block) { fields.push(f); }
        }
        fields.extend(peer.block(ctx, &p, 4, &mut block));
        ev!(ctx, "block of {} fields, {} octets {}", fields.len(), block.len(), hex(&block));
        receive(ctx, &mut rx.dec, &block, &fields, cutting)?;
        // keep the model in step for the table comparison
        let mut t = std::mem::replace(&mut rx.model, RTable::new(0));
        rh::decode(&block, &mut t, u64::MAX);
        rx.model = t;
        if ctx.src.chance(1, 4) { rx.observe(ctx)?; }
        ctx.state(mix(rx.model.dynq.len() as u64, mix(rx.model.size, rx.model.max)));
        ctx.src.end();
    }
    rx.observe(ctx)
}

/// Delivers one block in segments; the fields must be exactly those meant.
fn receive(ctx: &mut Ctx, dec: &mut Decoder<'static>, block: &[u8], fields: &[(Vec<u8>, Vec<u8>, u8)], cutting: bool) -> R {
    let mut buf = vec![];
    let mut dst: Out = vec![];
    let mut at = 0;
    let mut k = 0;
    loop {
        let n = if cutting && k < 40 && block.len() < 200_000 { gen::cut(ctx, block.len() - at) } else { block.len() - at };
        k += 1;
        buf.extend_from_slice(&block[at..at + n]);
        at += n;
        ctx.now += 1 + n as u64;
        if at < block.len() { ctx.fault("fault:cut"); }
        let have = dst.len();
        let offered = buf.len();
        let r = ctx.sut("Decoder::decode", || dec.decode(&mut buf, &mut dst))?;
        if dst.len() < have { return fail("decode-clobbers", "fields already delivered were removed"); }
        for i in have..dst.len() {
            match fields.get(i) {
                Some(f) if *f == dst[i] => {}
                Some(f) => return fail("field", format!("field {}: the peer meant {}, the decoder says {}", i, show_field(f), show_field(&dst[i]))),
                None => return fail("phantom", format!("the decoder delivers an extra field {}", show_field(&dst[i]))),
            }
        }
        match r {
            Ok(c) => if c != offered || !buf.is_empty() { return fail("count", format!("decode returned {} of {} octets and left {}", c, offered, buf.len())); },
            Err(DecoderError::IntegerUnderflow) if at < block.len() => {}
            Err(e) => return fail("rejected", format!("a conforming block {} was rejected with {:?} after {} fields", hex(block), e, dst.len())),
        }
        if at == block.len() { break; }
    }
    if dst.len() != fields.len() { return fail("lost", format!("{} of {} fields were delivered", dst.len(), fields.len())); }
    ctx.add("probe:fields_delivered", fields.len() as u64);
    Ok(())
}

fn story(ctx: &mut Ctx) -> R {
    let all = stories();
    let s = match load(&all[ctx.src.below(all.len())]) { Some(s) => s, None => { ctx.count("probe:story_unreadable"); return Ok(()); } };
    ev!(ctx, "recorded session {}", s.name);
    ctx.count("probe:story");
    let cutting = ctx.src.chance(2, 3);
    let mut dec = Decoder::default();
    let mut model = RTable::new(4096);
    let mut limit = 4096u64;
    for (wire, headers, size) in &s.cases {
        ctx.steps += 1;
        if let Some(v) = size {
            limit = *v as u64;
            let d = &mut dec;
            ctx.sut("Decoder::set_max_dynamic_size", || d.set_max_dynamic_size(*v))?;
            ctx.count("probe:story_size_change");
        }
        let w = rh::decode(wire, &mut model, limit.max(4096));
        let same = w.err.is_none() && w.fields.len() == headers.len() && w.fields.iter().zip(headers).all(|(a, b)| a.0 == b.0 && a.1 == b.1);
        if !same { return fail("harness-story", format!("the reference disagrees with the recording of {}", s.name)); }
        receive(ctx, &mut dec, wire, &w.fields, cutting)?;
    }
    ctx.state(fnv(s.name.as_bytes()));
    Ok(())
}

// ---------------------------------------------------------- paced pulls

pub fn paced(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    let size = gen::initial(ctx);
    let mut snd = Sender::new(ctx, size);
    let mut rx = SutDec::new(size);
    let mut twin = SutDec::new(size);
    ev!(ctx, "connect, table {}", size);
    let mut n = 0;
    while n < 10 && ctx.src.more(4) {
        n += 1;
        ctx.steps += 1;
        ctx.src.begin();
        let mut block = vec![];
        let mut fields = snd.block(ctx, &p, 6, &mut block)?;
        if ctx.src.chance(1, 200) {
            // very many fields, so that pulls of hundreds fill up
            ctx.count("probe:many_fields");
            let k = 200 + ctx.src.below(900);
            for i in 0..k {
                let x = 1 + (i * 7 % 61) as u64;
                rh::put_rep(&mut block, &Rep::Indexed(x), [0; 3]);
                let e = rh::STATIC[x as usize - 1];
                fields.push((e.0.to_vec(), e.1.to_vec(), 0));
            }
        }
        ev!(ctx, "block {} of {} fields in {} octets {}", n, fields.len(), block.len(), hex(&block));
        let cutting = ctx.src.chance(1, 2);
        let mut buf = vec![];
        let mut at = 0;
        let mut got: Out = vec![];
        let mut octets = 0;
        let mut pulls = 0;
        loop {
            ctx.now += 1 + ctx.src.raw(50);
            let mut arrive = 0;
            if at < block.len() {
                arrive = if cutting && pulls < 200 { match ctx.src.below(3) { 0 => 0, _ => gen::cut(ctx, block.len() - at) } } else { block.len() - at };
                buf.extend_from_slice(&block[at..at + arrive]);
                at += arrive;
                if at < block.len() { ctx.fault("fault:cut"); }
            }
            let want = if pulls > 200 { 64 } else if ctx.src.chance(1, 40) { ctx.count("probe:large_pull"); *ctx.src.pick(&[255usize, 256, 257, 300, 512, 65536, 65537]) } else { match ctx.src.below(5) { 0 => 1, 1 => 0, 2 => 2, 3 => 1 + ctx.src.below(8), _ => 1 + ctx.src.below(60) } };
            pulls += 1;
            if ctx.src.chance(1, 5000) {
                ctx.fault("fault:retry_storm");
                let n = *ctx.src.pick(&[300usize, 66_000]);
                let (d, len) = (&mut rx.dec, buf.len());
                let mut none: Out = vec![];
                let odd = ctx.sut("Decoder::decode_exact", || (0..n).find(|_| d.decode_exact(&mut buf, &mut none) != Ok(0) || buf.len() != len))?;
                if odd.is_some() || !none.is_empty() { return fail("pull-zero", "one of many pulls of capacity zero did something"); }
            }
            if want < 3 { ctx.fault("fault:tiny_pull"); }
            let mut dst: Out = Vec::with_capacity(want);
            let cap = dst.capacity();
            let before = buf.clone();
            let d = &mut rx.dec;
            let r = ctx.sut("Decoder::decode_exact", || d.decode_exact(&mut buf, &mut dst))?;
            ev!(ctx, "pull of {} ({} octets new, {} waiting): {:?} with {} fields, {} octets left", cap, arrive, before.len(), r, dst.len(), buf.len());
            // the reference, one representation at a time
            let used = match before.len().checked_sub(buf.len()) { Some(u) if before[u..] == buf[..] => u, _ => return fail("pull-buffer", "the input after a pull is not a suffix of the input before it") };
            let mut t = std::mem::replace(&mut rx.model, RTable::new(0));
            let w = rh::decode(&before[..used], &mut t, u64::MAX);
            let next = rh::rep(&before[used..], &t, rx.limit);
            rx.model = t;
            if w.consumed != used { return fail("pull-boundary", format!("a pull consumed {} octets, which do not end at a field boundary ({})", used, w.consumed)); }
            if dst.len() > cap { return fail("pull-too-many", format!("a pull of at most {} returned {} fields", cap, dst.len())); }
            if dst != w.fields { return fail("pull-fields", format!("a pull that consumed {} returned {} fields instead of the {} they encode", hex(&before[..used]), dst.len(), w.fields.len())); }
            if cap == 0 && (used != 0 || r != Ok(0)) { return fail("pull-zero", format!("a pull of capacity zero consumed {} octets and returned {:?}", used, r)); }
            let updates = w.reps.len() - w.fields.len();
            let incomplete = match next { Err(rh::UNDERFLOW) => true, Err(e) => return fail("harness-block", format!("reference rejects the block: {}", rh::err_names(e))), Ok(_) => false };
            if dst.len() + updates < cap && !incomplete {
                return fail("pull-short", format!("a pull of {} returned {} fields and {} size updates although complete input was left", cap, dst.len(), updates));
            }
            match r {
                Ok(c) => {
                    if c != used { return fail("pull-count", format!("a pull consumed {} octets but returned {}", used, c)); }
                    if dst.len() + updates < cap && !buf.is_empty() { return fail("pull-verdict", format!("a pull of {} stopped at incomplete input after {} fields without reporting it", cap, dst.len())); }
                }
                Err(DecoderError::IntegerUnderflow) => {
                    if buf.is_empty() || !incomplete { return fail("pull-verdict", "not enough bytes reported although a whole field was waiting"); }
                }
                Err(e) => return fail("pull-rejected", format!("a pull from a valid block was rejected with {:?}", e)),
            }
            if r.is_err() { ctx.count("probe:pull_hit_incomplete"); }
            if updates > 0 { ctx.count("probe:pull_with_size_update"); }
            octets += used;
            got.extend(dst);
            if at == block.len() && buf.is_empty() { break; }
            if pulls > 2000 { return fail("no-progress", format!("after {} pulls {} octets remain", pulls, buf.len())); }
        }
        let mut whole = block.clone();
        let mut d2: Out = vec![];
        let w = twin.decode(ctx, &mut whole, &mut d2)?;
        if w.err.is_some() { return fail("harness-block", "reference rejects the block"); }
        if got != d2 || got != fields || octets != block.len() {
            return fail("pulls-differ", format!("pulls gave {} fields from {} octets, decoding at once {} from {}", got.len(), octets, d2.len(), block.len()));
        }
        rx.observe(ctx)?;
        if snd.table().dynq != rx.model.dynq { return fail("harness-table", "sender and receiver models differ"); }
        ctx.state(mix(pulls as u64, mix(got.len() as u64, block.len() as u64)));
        ctx.src.end();
    }
    Ok(())
}
