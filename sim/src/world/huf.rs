//! A Huffman-coded literal is broadcast to five receivers, one per decoding
//! speed, over links that may damage it (C12).

use crate::core::ctx::{fail, hex, show, Ctx, R};
use crate::core::src::{fnv, mix, Rng};
use crate::ev;
use crate::gen;
use crate::refm::huff::{self, Bad, EOS};
use httlib_huffman::{decode, encode, DecoderSpeed};

const SPEEDS: [DecoderSpeed; 5] = [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits];

/// Text of a literal: any octets, biased to long codes and to short strings.
fn text(ctx: &mut Ctx) -> Vec<u8> {
    let len = match ctx.src.below(8) {
        0 => ctx.src.below(4),
        1..=4 => ctx.src.below(24),
        5 | 6 => if ctx.src.chance(1, 10) { if ctx.src.chance(1, 40) { gen::BIG_BOUNDS[ctx.src.below(24)] } else { gen::LEN_BOUNDS[ctx.src.below(42)] } } else { ctx.src.below(120) },
        _ => if ctx.src.chance(1, 20) { if ctx.src.chance(1, 10) { 60_000 + ctx.src.below(140_000) } else { 4000 + ctx.src.below(30_000) } } else { ctx.src.below(1500) },
    };
    let class = ctx.src.below(9);
    let seed = if len == 0 { 0 } else { ctx.src.u64() };
    gen::fill(class, seed, len)
}

/// A string of code words with any ending: whole symbols, cut symbols, the
/// end-of-string code, and padding of any length and content.
fn crafted(ctx: &mut Ctx) -> Vec<u8> {
    let mut bits: Vec<bool> = vec![];
    let put = |bits: &mut Vec<bool>, c: u32, l: u32| for i in (0..l).rev() { bits.push(c >> i & 1 == 1) };
    let n = ctx.src.below(12);
    for _ in 0..n {
        let sym = match ctx.src.below(4) {
            0 => b'a' as usize + ctx.src.below(26),
            1 | 2 => ctx.src.below(256),
            _ => if ctx.src.chance(1, 6) { EOS } else { *ctx.src.pick(&[10usize, 13, 22, 249, 192, 199, 0, 1]) },
        };
        let (c, l) = huff::code_of(sym);
        put(&mut bits, c, l as u32);
    }
    match ctx.src.below(6) {
        0 => {}
        1 => {
            // a symbol cut short
            let (c, l) = huff::code_of(ctx.src.below(257));
            let k = ctx.src.below(l as usize) as u32;
            put(&mut bits, c >> (l as u32 - k), k);
            ctx.fault("fault:symbol_cut");
        }
        2 => { for _ in 0..8 * (1 + ctx.src.below(4)) { bits.push(true); } ctx.fault("fault:padding_too_long"); }
        3 => { put(&mut bits, 0x3fff_ffff, 30); ctx.fault("fault:end_of_string_code"); }
        4 => { let k = ctx.src.below(30); let mut r = Rng::new(ctx.src.u64()); for _ in 0..k { bits.push(r.below(4) != 0); } ctx.fault("fault:random_ending"); }
        _ => { let k = ctx.src.below(30) as u32; put(&mut bits, 0x3fff_ffff, k); }
    }
    let pad = match ctx.src.below(4) {
        0 | 1 => true,
        2 => { ctx.fault("fault:padding_not_ones"); false }
        _ => { ctx.fault("fault:padding_not_ones"); bits.push(false); true }
    };
    while bits.len() % 8 != 0 { bits.push(pad); }
    bits.chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect()
}

pub fn receivers(ctx: &mut Ctx) -> R {
    let mut n = 0;
    while n < 12 && ctx.src.more(5) {
        n += 1;
        ctx.steps += 1;
        ctx.src.begin();
        let mut original = None;
        let mut lit = match ctx.src.below(4) {
            0 | 1 => {
                let t = text(ctx);
                // sometimes behind other data, as in a header block
                let before = if ctx.src.chance(1, 4) { gen::fill(2, 1 + ctx.src.raw(1000), 1 + n % 5) } else { vec![] };
                let mut out = before.clone();
                let r = ctx.sut("huffman::encode", || encode(&t, &mut out))?;
                if out.len() < before.len() || out[..before.len()] != before[..] { return fail("clobbered", format!("encoding {} altered octets already in the output", show(&t))); }
                let out = out.split_off(before.len());
                if r.is_err() { return fail("encode", format!("encoding {} failed", show(&t))); }
                ctx.count("probe:encoded_by_library");
                original = Some(t);
                out
            }
            2 => { ctx.nontrivial = true; crafted(ctx) }
            _ => {
                let len = ctx.src.below(40);
                let class = *ctx.src.pick(&[2usize, 3, 6, 0]);
                let seed = ctx.src.u64();
                let mut b = gen::fill(class, seed | 1, len);
                if ctx.src.chance(1, 3) { for x in b.iter_mut() { if *x & 7 != 0 { *x = 0xff; } } }
                ctx.fault("fault:random_octets");
                b
            }
        };
        if original.is_some() && ctx.src.chance(1, 2) {
            original = None;
            let d = match ctx.src.below(5) {
                0 if !lit.is_empty() => {
                    // the padding bits, or those next to them
                    let l = lit.len() - 1;
                    let m = 1 << ctx.src.below(8);
                    lit[l] ^= m;
                    ctx.fault("fault:last_octet_flip");
                    format!("flip {:02x} in the last octet", m)
                }
                1 => { let k = 1 + ctx.src.below(4); for _ in 0..k { lit.push(0xff); } ctx.fault("fault:padding_too_long"); format!("append {} octets ff", k) }
                2 if !lit.is_empty() => { let l = lit.len() - 1; lit.truncate(l); ctx.fault("fault:truncate"); "lose the last octet".into() }
                3 => { lit.extend_from_slice(&[0xff, 0xff, 0xff, 0xfc]); ctx.fault("fault:end_of_string_code"); "append ff ff ff fc".into() }
                _ => gen::damage(ctx, &mut lit),
            };
            ev!(ctx, "damage: {}", d);
        }
        let want = huff::decode(&lit);
        if let Some(t) = &original {
            if want.as_ref() != Ok(t) { return fail("encode", format!("{} was encoded as {}, which RFC 7541 reads as {:?}", show(t), hex(&lit), want)); }
            ctx.count("probe:intact_round_trip");
        }
        match &want {
            Ok(_) => ctx.count("probe:accepted"),
            Err(Bad::Eos) => ctx.count("probe:rejected_end_of_string"),
            Err(Bad::LongPadding) => ctx.count("probe:rejected_long_padding"),
            Err(Bad::PaddingNotOnes) => ctx.count("probe:rejected_padding_not_ones"),
        }
        ev!(ctx, "literal {} -> {:?}", hex(&lit), want.as_ref().map(|t| t.len()).map_err(|e| *e));
        // receivers take delivery in any order
        let mut todo = vec![0usize, 1, 2, 3, 4];
        while !todo.is_empty() {
            let k = todo.remove(ctx.src.below(todo.len()));
            ctx.now += 1 + ctx.src.raw(50);
            let before = if ctx.src.chance(1, 8) { vec![b'b'; 1 + k] } else { vec![] };
            let mut out = before.clone();
            let r = ctx.sut("huffman::decode", || decode(&lit, &mut out, SPEEDS[k]))?;
            if r.is_ok() {
                if out.len() < before.len() || out[..before.len()] != before[..] { return fail("clobbered", "decoding altered octets already in the output"); }
                out.drain(..before.len());
            }
            match (&r, &want) {
                (Ok(()), Ok(t)) if out == *t => {}
                (Ok(()), Ok(t)) => return fail("text", format!("receiver of {} bits read {} as {} instead of {}", k + 1, hex(&lit), show(&out), show(t))),
                (Err(_), Err(_)) => {}
                (Ok(()), Err(b)) => return fail("accepted", format!("receiver of {} bits accepted {} as {}, RFC 7541 rejects it ({:?})", k + 1, hex(&lit), show(&out), b)),
                (Err(e), Ok(t)) => return fail("rejected", format!("receiver of {} bits rejected {} ({:?}), it is {}", k + 1, hex(&lit), e, show(t))),
            }
        }
        ctx.state(mix(fnv(&lit), lit.len() as u64));
        ctx.src.end();
    }
    Ok(())
}
