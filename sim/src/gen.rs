//! Workload generation. Every run draws a profile first (swarm style), then
//! values from it; sizes are biased to the boundaries of the wire formats.

use crate::core::ctx::Ctx;
use crate::core::src::Rng;
use crate::refm::hpack::STATIC;

pub const LEN_BOUNDS: [usize; 42] = [
    0, 1, 2, 3, 4, 5, 7, 8, 14, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 97, 125, 126, 127, 128, 129, 130,
    159, 160, 200, 202, 203, 204, 205, 253, 254, 255, 256, 257, 300,
];
pub const BIG_BOUNDS: [usize; 24] = [
    383, 512, 1000, 2047, 2048, 4063, 4064, 4065, 4096, 8192, 16383, 16384, 16510, 16511, 16512, 33000,
    511, 1023, 1024, 4095, 8191, 32768, 65535, 65536,
];

pub fn fill(class: usize, seed: u64, len: usize) -> Vec<u8> {
    if seed == 0 { return vec![b'a'; len]; }
    let mut r = Rng::new(seed);
    let one = (seed & 255) as u8;
    let rare: [u8; 16] = [0, 1, 9, 10, 13, 22, 127, 128, 192, 199, 203, 207, 220, 234, 249, 255];
    (0..len).map(|_| match class {
        0 => b'a' + r.below(26) as u8,
        1 => b"0123456789abcdef/=%&;:,.-_ "[r.below(27) as usize],
        2 => r.next() as u8,
        3 => rare[r.below(16) as usize],
        4 => one,
        5 => 32 + r.below(95) as u8,
        6 => (128 + r.below(128)) as u8,
        // codes of eight bits: as long with Huffman coding as without
        8 => b"&*,;XZ"[r.below(6) as usize],
        _ => b"ABCXYZ{}|~<>\\^`@"[r.below(16) as usize],
    }).collect()
}

#[derive(Clone)]
pub struct Profile {
    pub names: Vec<Vec<u8>>,
    pub values: Vec<Vec<u8>>,
    pub fresh: u32,
    len_w: [u32; 5],
    class_w: [u32; 9],
    pub flags_mask: u8,
    pub best: u32,
}

pub fn string(ctx: &mut Ctx, p: &Profile) -> Vec<u8> {
    let s = &mut ctx.src;
    let len = match s.weighted(&p.len_w) {
        0 => s.below(9),
        1 => LEN_BOUNDS[s.below(LEN_BOUNDS.len())],
        2 => s.below(400),
        3 => BIG_BOUNDS[s.below(BIG_BOUNDS.len())],
        _ => 16000 + s.below(60000),
    };
    let class = s.weighted(&p.class_w);
    let seed = if len == 0 { 0 } else { s.u64() };
    fill(class, seed, len)
}

/// A very long string (crosses the 3-octet continuation boundary); slow, rare.
pub fn mega(ctx: &mut Ctx) -> Vec<u8> {
    let len = *ctx.src.pick(&[2_097_151usize, 2_097_278, 2_097_279, 2_097_280, 2_100_000]);
    let class = ctx.src.below(3);
    let seed = ctx.src.u64();
    fill(class, seed, len)
}

pub fn profile(ctx: &mut Ctx) -> Profile {
    let mut p = Profile { names: vec![], values: vec![], fresh: 0, len_w: [8, 3, 0, 0, 0], class_w: [4, 2, 2, 1, 1, 1, 1, 1, 1], flags_mask: 0xff, best: 1 };
    ctx.src.begin();
    match ctx.src.below(6) {
        0 | 1 => {}
        2 => p.len_w = [4, 8, 2, 0, 0],
        3 => p.len_w = [6, 4, 4, 1, 0],
        4 => p.len_w = [12, 0, 0, 0, 0],
        _ => p.len_w = [20, 10, 4, 3, 1],
    }
    match ctx.src.below(5) {
        0 | 1 => {}
        2 => p.class_w = [0, 0, 6, 2, 1, 0, 2, 0, 0],
        3 => p.class_w = [6, 3, 0, 0, 0, 2, 0, 0, 2],
        _ => p.class_w = [1, 1, 1, 4, 2, 1, 1, 4, 1],
    }
    p.fresh = *ctx.src.pick(&[2, 0, 1, 4, 8]);
    p.best = *ctx.src.pick(&[1, 0, 3]);
    p.flags_mask = *ctx.src.pick(&[0x0f, 0x0f, 0x07, 0x0c, 0x03, 0x04]);
    let n = ctx.src.range(1, 6);
    for _ in 0..n {
        let x = if ctx.src.chance(1, 3) { STATIC[ctx.src.below(61)].0.to_vec() } else { string(ctx, &p) };
        p.names.push(x);
    }
    let n = ctx.src.range(1, 6);
    for _ in 0..n {
        let x = if ctx.src.chance(1, 4) { STATIC[ctx.src.below(61)].1.to_vec() } else { string(ctx, &p) };
        p.values.push(x);
    }
    // near misses: strings that differ in one octet, in case, in length, or
    // that move octets from a value into a name
    let n = *ctx.src.pick(&[0, 0, 1, 2, 4]);
    for _ in 0..n {
        match ctx.src.below(4) {
            0 | 1 => { let v = ctx.src.pick(&p.values).clone(); let x = near(ctx, v); p.values.push(x); }
            2 => { let v = ctx.src.pick(&p.names).clone(); let x = near(ctx, v); p.names.push(x); }
            _ => {
                let mut n = ctx.src.pick(&p.names).clone();
                let mut v = ctx.src.pick(&p.values).clone();
                if ctx.src.chance(1, 2) { if !v.is_empty() { n.push(v.remove(0)); } } else if let Some(x) = n.pop() { v.insert(0, x); }
                p.names.push(n);
                p.values.push(v);
            }
        }
    }
    ctx.src.end();
    p
}

/// A string easily mistaken for `v`.
pub fn near(ctx: &mut Ctx, mut v: Vec<u8>) -> Vec<u8> {
    let n = v.len();
    if n == 0 { return vec![b'a']; }
    match ctx.src.below(6) {
        0 => v[n - 1] ^= 1,
        1 => { let i = ctx.src.below(n); v[i] ^= 1 << ctx.src.below(8); }
        2 => { let i = ctx.src.below(n); v[i] ^= 0x20; }
        3 => { v.pop(); }
        4 => v.push(*ctx.src.pick(&[b'a', 0, b' ', 255])),
        _ => { let i = ctx.src.below(n); let j = ctx.src.below(n); v.swap(i, j); }
    }
    v
}

/// Strings that differ from `v` a little, without drawing choices.
pub fn near_all(v: &[u8]) -> Vec<Vec<u8>> {
    let n = v.len();
    if n == 0 { return vec![b"a".to_vec()]; }
    let (mut a, mut b, mut c) = (v.to_vec(), v.to_vec(), v.to_vec());
    a[n - 1] ^= 1;
    b[n / 2] ^= 0x20;
    c[0] ^= 0x20;
    let mut d = v.to_vec();
    d.push(0);
    vec![a, b, c, v[..n - 1].to_vec(), d]
}

pub fn name(ctx: &mut Ctx, p: &Profile) -> Vec<u8> {
    if ctx.src.chance(p.fresh, 8) { string(ctx, p) } else { ctx.src.pick(&p.names).clone() }
}
pub fn value(ctx: &mut Ctx, p: &Profile) -> Vec<u8> {
    if ctx.src.chance(p.fresh, 8) { string(ctx, p) } else { ctx.src.pick(&p.values).clone() }
}

/// Dynamic table size limits, biased to entry-size arithmetic and prefix
/// integer boundaries.
pub fn limit(ctx: &mut Ctx) -> u32 {
    let s = &mut ctx.src;
    match s.below(8) {
        0 => 4096,
        1 => *s.pick(&[0u32, 1, 30, 31, 32, 33, 34, 35, 36, 63, 64, 65, 66, 68, 69, 70]),
        2 => s.below(200) as u32,
        3 => s.below(600) as u32,
        4 => s.below(5000) as u32,
        5 => *s.pick(&[4095u32, 4096, 4097, 158, 159, 160, 16414, 16415, 16416, 65535, 65536]),
        6 => 1 << s.below(21),
        _ => s.below(70000) as u32,
    }
}

/// Any size there is, near the powers of two and where the prefix integer
/// takes another octet.
pub fn any_size(ctx: &mut Ctx) -> u32 {
    let s = &mut ctx.src;
    match s.below(3) {
        0 => { let b = 7 * s.range(1, 4); ((1u64 << b) + 31).wrapping_add(s.raw(5)).wrapping_sub(2) as u32 }
        1 => { let b = s.below(33); ((1u64 << b) + s.raw(3)).saturating_sub(1).min(u32::MAX as u64) as u32 }
        _ => s.raw(1 << 32) as u32,
    }
}

/// The size a connection starts with; sometimes far beyond any use.
pub fn initial(ctx: &mut Ctx) -> u32 {
    if ctx.src.chance(1, 20) {
        ctx.count("probe:huge_limit");
        return *ctx.src.pick(&[u32::MAX, 1 << 31, (1 << 31) - 1, 1 << 28, (1 << 28) + 30, 1 << 24, u32::MAX - 31]);
    }
    limit(ctx)
}

/// Indexes that denote nothing in a table of `n` entries, among them those
/// that would if a bit were ignored.
pub fn wild_indexes(n: u64) -> Vec<u32> {
    let mut v = vec![];
    for b in 7..32 { for k in [1, 2, 61, 62, 63, n] { v.push((1u64 << b) + k); } }
    for k in [0, 1, 60, 61, 62, 63, n] { v.push(u32::MAX as u64 - k); }
    v.extend([1 << 31, 1 << 16, 1 << 8, (1 << 28) + 127]);
    v.retain(|i| *i > n && *i <= u32::MAX as u64);
    v.into_iter().map(|i| i as u32).collect()
}
pub fn wild_index(ctx: &mut Ctx, n: u64, most: u64) -> u64 {
    let mut v = wild_indexes(n);
    v.retain(|i| *i as u64 <= most);
    if v.is_empty() { return n + 1; }
    *ctx.src.pick(&v) as u64
}

/// How many octets the next network segment carries.
pub fn cut(ctx: &mut Ctx, avail: usize) -> usize {
    if avail <= 1 { return avail; }
    // most runs mix their pieces; some trickle octet by octet from the start or
    // from some point on, some never send more than a few
    let style = match ctx.cut_style { Some(s) => s, None => { let s = ctx.src.below(9) as u8; ctx.cut_style = Some(s); s } };
    match style {
        6 => return 1,
        7 => { ctx.cut_style = Some(6); return 1 + ctx.src.below(avail); }
        8 => return 1 + ctx.src.below(avail.min(3)),
        _ => {}
    }
    match ctx.src.below(4) {
        0 => avail,
        1 => 1,
        2 => 1 + ctx.src.below(avail.min(8)),
        _ => 1 + ctx.src.below(avail),
    }
}

/// Damages octets in place; returns a description.
pub fn damage(ctx: &mut Ctx, b: &mut Vec<u8>) -> String {
    let n = b.len();
    let kind = ctx.src.weighted(&[5, 3, 3, 2, 2, 2, 1]);
    match kind {
        0 if n > 0 => {
            let (i, k) = (ctx.src.below(n), ctx.src.below(8));
            b[i] ^= 1 << k;
            ctx.fault("fault:bit_flip");
            format!("flip bit {} of octet {}", k, i)
        }
        1 if n > 0 => {
            let i = ctx.src.below(n);
            let v = *ctx.src.pick(&[0u8, 255, 0x7f, 0x80, 0x1f, 0x3f, 0x0f, 0x20, 0x40, 0xe0]);
            b[i] = v;
            ctx.fault("fault:overwrite");
            format!("octet {} := {:02x}", i, v)
        }
        2 => {
            let i = ctx.src.below(n + 1);
            b.truncate(i);
            ctx.fault("fault:truncate");
            format!("truncate to {}", i)
        }
        3 if n > 0 => {
            let i = ctx.src.below(n);
            let k = 1 + ctx.src.below((n - i).min(6));
            b.drain(i..i + k);
            ctx.fault("fault:lose");
            format!("lose {} octets at {}", k, i)
        }
        4 if n > 0 => {
            let i = ctx.src.below(n);
            let k = 1 + ctx.src.below((n - i).min(12));
            let d = b[i..i + k].to_vec();
            for (j, x) in d.into_iter().enumerate() { b.insert(i + k + j, x); }
            ctx.fault("fault:duplicate");
            format!("duplicate {} octets at {}", k, i)
        }
        5 => {
            let i = ctx.src.below(n + 1);
            let k = 1 + ctx.src.below(6);
            let class = ctx.src.below(3);
            let seed = ctx.src.u64();
            let d = if class == 0 { vec![0xff; k] } else { fill(2, seed | 1, k) };
            for (j, x) in d.into_iter().enumerate() { b.insert(i + j, x); }
            ctx.fault("fault:insert");
            format!("insert {} octets at {}", k, i)
        }
        _ if n > 1 => {
            let i = ctx.src.below(n);
            let j = ctx.src.below(n);
            b.swap(i, j);
            ctx.fault("fault:reorder");
            format!("swap octets {} and {}", i, j)
        }
        _ => { b.push(0xff); ctx.fault("fault:insert"); "append ff".into() }
    }
}
