//! Hostile octets against one real HPACK decoder: memory and panics (C10).

use super::hp::Out;
use super::peer::Peer;
use crate::core::ctx::{fail, hex, Ctx, R};
use crate::core::src::{fnv, mix};
use crate::ev;
use crate::gen;
use crate::refm::hpack::{self as rh, Kind, Rep};
use httlib_hpack::Decoder;

const BASE: isize = 256 * 1024;

fn kind_head(k: Kind) -> u8 { match k { Kind::Inc => 0x40, Kind::Without => 0, Kind::Never => 0x10 } }

/// Appends a burst of hostile octets.
fn burst(ctx: &mut Ctx, p: &gen::Profile, peer: &mut Peer, limit: u64, s: &mut Vec<u8>) {
    let kind = *ctx.src.pick(&[Kind::Inc, Kind::Without, Kind::Never]);
    match ctx.src.below(11) {
        0 => {
            let l = ctx.src.below(80);
            let c = *ctx.src.pick(&[2usize, 3, 6, 0]);
            let seed = ctx.src.u64();
            s.extend(gen::fill(c, seed | 1, l));
            ctx.fault("fault:random_octets");
        }
        1 => {
            // a string that announces far more than will come
            s.push(kind_head(kind) | if ctx.src.chance(1, 2) { 1 } else { 0 });
            let h = if ctx.src.chance(1, 2) { 0x80 } else { 0 };
            let len = *ctx.src.pick(&[1u64 << 28, (1 << 28) + 126, 100, 65536, 1 << 20, 1 << 24]);
            let pad = ctx.src.below(2);
            rh::put_int(s, h, 7, len, pad);
            let k = ctx.src.below(20);
            let seed = ctx.src.u64();
            s.extend(gen::fill(0, seed | 1, k));
            ctx.fault("fault:announced_length");
        }
        2 => {
            // raw integers of any length, also unending
            s.push(*ctx.src.pick(&[0xffu8, 0x7f, 0x3f, 0x1f, 0x0f, 0x40, 0x00, 0x10]));
            if ctx.src.chance(1, 2) { s.push(*ctx.src.pick(&[0xffu8, 0x7f])); }
            let k = ctx.src.below(14);
            for _ in 0..k { s.push(*ctx.src.pick(&[0xffu8, 0x80, 0xfe])); }
            s.push(*ctx.src.pick(&[0x7fu8, 0x0f, 1, 0x10, 0]));
            ctx.fault("fault:huge_integer");
        }
        3 => {
            // indexes of all sizes
            let n = peer.table.len() as u64;
            let i = *ctx.src.pick(&[n, n + 1, 0, 61, 62, 1 << 28, (1 << 28) + 120, 1 << 16, 127, 128]);
            if ctx.src.chance(1, 2) { rh::put_rep(s, &Rep::Indexed(i), [0; 3]); }
            else { rh::put_rep(s, &Rep::Lit { kind, index: i, huff_name: false, huff_value: false, name: vec![], value: vec![] }, [0; 3]); }
            ctx.fault("fault:wild_index");
        }
        4 => {
            // size updates up and down, many at once
            let k = 1 + if ctx.src.chance(1, 4) { ctx.src.below(2000) } else { ctx.src.below(8) };
            let a = *ctx.src.pick(&[0u64, limit, limit / 2, 33]);
            let b = *ctx.src.pick(&[limit, 0, limit / 3, limit + 1]);
            for i in 0..k { rh::put_rep(s, &Rep::Size((if i % 2 == 0 { a } else { b }).min((1 << 28) + 30)), [0; 3]); }
            ctx.fault("fault:size_update_flood");
        }
        5 => {
            // fill the table with a large entry, then name it over and over
            let body = (limit.min(4096).saturating_sub(32)) as usize;
            let r = Rep::Lit { kind: Kind::Inc, index: 0, huff_name: false, huff_value: false, name: vec![b'n'; body.min(10)], value: vec![b'v'; body.saturating_sub(10)] };
            peer.put(ctx, &r, s);
            let k = ctx.src.below(800);
            for _ in 0..k { s.push(0x80 | 62); }
            ctx.fault("fault:index_bomb");
        }
        6 => {
            // very many of the smallest entries
            let k = ctx.src.below(3000);
            for i in 0..k { s.extend_from_slice(&[0x40, 0, 1, b'a' + (i % 26) as u8]); }
            ctx.fault("fault:tiny_entry_flood");
        }
        7 => {
            // Huffman strings that cannot be read, or expand as much as they can
            let k = ctx.src.below(1500);
            let c = *ctx.src.pick(&[0xffu8, 0, 0x18, 0x29, 0xf8]);
            let body = vec![c; k];
            s.push(kind_head(kind));
            rh::put_int(s, 0x80, 7, k as u64, 0);
            s.extend_from_slice(&body);
            rh::put_int(s, 0x80, 7, k as u64, 0);
            s.extend_from_slice(&body);
            ctx.fault("fault:huffman_bomb");
        }
        8 => { peer.block(ctx, p, 3, s); }
        10 => {
            // very many of the shortest representations
            let k = if ctx.src.chance(1, 40) { ctx.src.below(30_000) } else { ctx.src.below(300) };
            let b = *ctx.src.pick(&[0x82u8, 0x20, 0xbd]);
            s.resize(s.len() + k, b);
            ctx.fault("fault:short_field_flood");
        }
        _ => { let d = 1 + ctx.src.below(3); for _ in 0..d { gen::damage(ctx, s); } }
    }
}

/// The same hostile octets over and over on one connection: what the decoder
/// retains must not creep up.
fn soak(ctx: &mut Ctx, p: &gen::Profile) -> R {
    let limit = *ctx.src.pick(&[4096u32, 0, 200]);
    let mut dec = Decoder::with_dynamic_size(limit);
    let mut peer = Peer::new(ctx, limit);
    let mut s = vec![];
    let k = ctx.src.below(3);
    for _ in 0..=k { burst(ctx, p, &mut peer, limit as u64, &mut s); }
    s.truncate(4000);
    if s.is_empty() { return Ok(()); }
    let piece = 1 + ctx.src.below(s.len());
    let rounds = (200 + ctx.src.below(1_200_000)) / (s.len() + 20);
    ev!(ctx, "soak: limit {}, {} times {} octets in pieces of {}: {}", limit, rounds, s.len(), piece, hex(&s));
    ctx.count("probe:soak");
    let mut kept = 0isize;
    let mut warm = 0isize;
    let mut buf: Vec<u8> = vec![];
    for r in 0..rounds {
        for c in s.chunks(piece) {
            buf.extend_from_slice(c);
            let given = std::mem::take(&mut buf);
            let (left, used) = ctx.sut_m("Decoder::decode", || {
                let mut b = given.as_slice().to_vec();
                let mut d: Out = vec![];
                let _ = dec.decode(&mut b, &mut d);
                drop(d);
                b.as_slice().to_vec()
            })?;
            kept += used.net - left.capacity() as isize;
            buf = left;
        }
        ctx.steps += 1;
        ctx.now += 100;
        buf.clear();
        if r == rounds / 8 { warm = kept; }
        if r > rounds / 8 && kept > warm + 32_768 + 8 * limit as isize {
            return fail("creep", format!("the decoder retained {} bytes after {} rounds of {} octets and {} after {} (limit {})", warm, rounds / 8, s.len(), kept, r, limit));
        }
    }
    ctx.state(mix(rounds as u64, fnv(&s)));
    Ok(())
}

pub fn hostile(ctx: &mut Ctx) -> R {
    let p = gen::profile(ctx);
    if ctx.src.chance(1, 500) { return soak(ctx, &p); }
    let size = match ctx.src.below(8) { 0 => u32::MAX, 1 => 1 << 28, _ => gen::limit(ctx) };
    let mut dec = ctx.sut("Decoder::with_dynamic_size", || if size == 4096 { Decoder::default() } else { Decoder::with_dynamic_size(size) })?;
    let mut peer = Peer::new(ctx, size.min(1 << 24));
    let mut limit = size as u64;
    let mut top = size as u64;
    let mut fed = 0usize;
    let mut kept = 0isize;
    let mut buf: Vec<u8> = vec![];
    ev!(ctx, "decoder with limit {}", size);
    let mut n = 0;
    while n < 20 && ctx.src.more(6) {
        n += 1;
        ctx.steps += 1;
        ctx.src.begin();
        if ctx.src.chance(1, 5) {
            let v = match ctx.src.below(6) { 0 => u32::MAX, _ => gen::limit(ctx) };
            ctx.sut("Decoder::set_max_dynamic_size", || dec.set_max_dynamic_size(v))?;
            limit = v as u64;
            top = top.max(limit);
            ev!(ctx, "limit {}", v);
        }
        let mut s = vec![];
        let k = ctx.src.below(4);
        for _ in 0..=k { if s.len() < 16_000 { burst(ctx, &p, &mut peer, limit, &mut s); } }
        if ctx.src.chance(1, 8) { peer.table = rh::RTable::new(limit.min(1 << 24)); }
        peer.limit = limit;
        ev!(ctx, "octets {}: {}", s.len(), hex(&s));
        let mut at = 0;
        let mut calls = 0;
        loop {
            let m = if calls > 24 { s.len() - at } else { gen::cut(ctx, s.len() - at) };
            if at + m < s.len() { ctx.fault("fault:cut"); }
            buf.extend_from_slice(&s[at..at + m]);
            at += m;
            fed += m;
            calls += 1;
            ctx.now += 1 + m as u64;
            let exact = if ctx.src.chance(1, 6) { Some(ctx.src.below(6)) } else { None };
            let given = std::mem::take(&mut buf);
            let n_in = given.len() as isize;
            // everything the call allocates is counted; output and leftover
            // are dropped or copied inside, so what remains is the decoder's
            let ((left, ok, octets, fields), used) = ctx.sut_m("Decoder::decode", || {
                let mut b = given.as_slice().to_vec();
                let mut d: Out = match exact { Some(c) => Vec::with_capacity(c), None => vec![] };
                let r = match exact { Some(_) => dec.decode_exact(&mut b, &mut d), None => dec.decode(&mut b, &mut d) };
                let octets: usize = d.iter().map(|f| f.0.len() + f.1.len()).sum();
                let fields = d.len();
                drop(d);
                (b.as_slice().to_vec(), r.is_ok(), octets, fields)
            })?;
            kept += used.net - left.capacity() as isize;
            let bound = BASE + 16 * (n_in + octets as isize + 64 * fields as isize);
            let table = 8 * top.min(fed as u64 * 64 + 4096) as isize;
            if used.peak > bound + table {
                return fail("memory", format!("decoding {} octets into {} fields of {} octets (limit {}) used {} bytes", n_in, fields, octets, limit, used.peak));
            }
            if kept > 64 * 1024 + table {
                return fail("retained", format!("after {} octets in all and limits up to {} the decoder retains {} bytes", fed, top, kept));
            }
            ctx.state(mix(fnv(&left[..left.len().min(32)]), mix(fields as u64, ok as u64)));
            ctx.count(if ok { "probe:accepted" } else { "probe:rejected" });
            buf = left;
            if at == s.len() { break; }
        }
        ev!(ctx, "{} octets left", buf.len());
        // the connection is dropped, or the application resynchronises
        if buf.len() > 30_000 || ctx.src.chance(2, 3) { buf.clear(); }
        ctx.src.end();
    }
    Ok(())
}
