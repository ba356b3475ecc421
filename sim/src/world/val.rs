//! Typed Protocol Buffers values: generation, reference octets, and the real
//! encoder and converters.

use crate::core::ctx::Ctx;
use crate::core::src::Rng;
use crate::gen;
use crate::refm::proto as rp;
use httlib_protos::{DecoderLit, Encoder, EncoderError, EncoderLit};
use std::io::Write;

fn varint(out: &mut Vec<u8>, v: u64) { rp::put_varint(out, v) }

pub fn bits(ctx: &mut Ctx) -> u64 {
    let s = &mut ctx.src;
    match s.below(5) {
        0 => s.below(3) as u64,
        1 => { let k = s.below(64); (1u64 << k).wrapping_sub(s.raw(2)) }
        2 => u64::MAX - s.raw(3),
        3 => if s.chance(1, 2) { s.u64() >> s.below(64) } else { *s.pick(&[127u64, 128, 16383, 16384, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 1 << 63, (1 << 63) - 1,
            0x7fc0_0001, 0x7f80_0001, 0xff80_0000, 0x7ff0_0000_0000_0001, 0xfff8_0000_0000_0001, 0xffff_ffff_8000_0000,
            0x7f80_0000, 0xff80_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0xffff_ffff_7fff_ffff, 0x3f80_0000, 0x3ff0_0000_0000_0000]) },
        _ => s.u64(),
    }
}

macro_rules! kinds {
    ($( $k:ident, $kv:ident, $t:ty, $wire:expr, $from:expr, $put:expr, $raw:expr; )*) => {
        #[derive(Clone, Debug)]
        pub enum Val { Bytes(Vec<u8>), $( $k($t), $kv(Vec<$t>), )* }

        pub const KINDS: usize = 1 $( + { let _ = stringify!($k); 2 } )*;

        impl Val {
            /// A value of the given kind (0 = bytes) made from 64-bit patterns.
            pub fn make(kind: usize, b: &mut dyn FnMut() -> u64, n: usize, bytes: &mut dyn FnMut() -> Vec<u8>) -> Val {
                if kind == 0 { return Val::Bytes(bytes()); }
                let mut i = 0;
                $(
                    i += 1;
                    if kind == i { let f: fn(u64) -> $t = $from; return Val::$k(f(b())); }
                    i += 1;
                    if kind == i { let f: fn(u64) -> $t = $from; return Val::$kv((0..n).map(|_| f(b())).collect()); }
                )*
                let _ = i;
                Val::Bytes(vec![])
            }
            pub fn wire(&self) -> u8 {
                match self { Val::Bytes(_) => rp::LEN, $( Val::$k(_) => $wire, Val::$kv(_) => rp::LEN, )* }
            }
            pub fn name(&self) -> &'static str {
                match self { Val::Bytes(_) => "Bytes", $( Val::$k(_) => stringify!($k), Val::$kv(_) => stringify!($kv), )* }
            }
            /// Reference value octets.
            pub fn octets(&self) -> Vec<u8> {
                let mut o = vec![];
                match self {
                    Val::Bytes(b) => o = b.clone(),
                    $(
                        Val::$k(v) => { let f: fn(&mut Vec<u8>, $t) = $put; f(&mut o, *v) }
                        Val::$kv(v) => { let f: fn(&mut Vec<u8>, $t) = $put; for x in v { f(&mut o, *x) } }
                    )*
                }
                o
            }
            /// The real encoder.
            pub fn encode<W: ?Sized + Write>(&self, tag: u32, w: &mut W) -> Result<usize, EncoderError> {
                if tag % 4 == 3 { return encode_direct(self, tag, w); }
                let e = Encoder::default();
                match self {
                    Val::Bytes(v) => e.encode((&tag, EncoderLit::Bytes(v)), w),
                    $(
                        Val::$k(v) => e.encode((&tag, EncoderLit::$k(v)), w),
                        Val::$kv(v) => e.encode((&tag, EncoderLit::$kv(v)), w),
                    )*
                }
            }
            /// Converts delivered octets back with the real converter; are
            /// they bit for bit this value?
            pub fn same(&self, octets: Vec<u8>) -> Result<(), String> {
                match self {
                    Val::Bytes(v) => {
                        let got: Vec<u8> = DecoderLit::Bytes(octets).into();
                        if got == *v { Ok(()) } else { Err(format!("{} octets instead of {}", got.len(), v.len())) }
                    }
                    $(
                        Val::$k(v) => {
                            let got: $t = DecoderLit::$k(octets).into();
                            let f: fn($t) -> u64 = $raw;
                            if f(got) == f(*v) { Ok(()) } else { Err(format!("{:?} ({:x}) instead of {:?} ({:x})", got, f(got), v, f(*v))) }
                        }
                        Val::$kv(v) => {
                            let got: Vec<$t> = DecoderLit::$kv(octets).into();
                            let f: fn($t) -> u64 = $raw;
                            if got.len() == v.len() && got.iter().zip(v).all(|(a, b)| f(*a) == f(*b)) { Ok(()) }
                            else { Err(format!("{} items {:?}.. instead of {} items {:?}..", got.len(), got.iter().take(4).collect::<Vec<_>>(), v.len(), v.iter().take(4).collect::<Vec<_>>())) }
                        }
                    )*
                }
            }
        }

        pub fn lit(kind: usize, octets: Vec<u8>) -> Option<DecoderLit> {
            if kind == 0 { return Some(DecoderLit::Bytes(octets)); }
            let mut i = 0;
            $(
                i += 1;
                if kind == i { return Some(DecoderLit::$k(octets)); }
                i += 1;
                if kind == i { return Some(DecoderLit::$kv(octets)); }
            )*
            let _ = i;
            None
        }

        /// Converts octets with the converter of the given kind and drops the
        /// result; returns a rough size of it.
        pub fn convert(kind: usize, octets: Vec<u8>) -> usize {
            if kind == 0 { let v: Vec<u8> = DecoderLit::Bytes(octets).into(); return v.len(); }
            if kind == KINDS { let s: String = DecoderLit::Bytes(octets).into(); return s.len(); }
            let mut i = 0;
            $(
                i += 1;
                if kind == i { let v: $t = DecoderLit::$k(octets).into(); return std::mem::size_of_val(&v); }
                i += 1;
                if kind == i { let v: Vec<$t> = DecoderLit::$kv(octets).into(); return v.len() * std::mem::size_of::<$t>(); }
            )*
            let _ = i;
            0
        }

        /// Converts octets with the converter of the given kind: what it gave,
        /// in one number. Allocates nothing of its own.
        pub fn digest(kind: usize, octets: Vec<u8>) -> u64 {
            use crate::core::src::{fnv, mix};
            if kind == 0 { let v: Vec<u8> = DecoderLit::Bytes(octets).into(); return fnv(&v); }
            if kind == KINDS { let s: String = DecoderLit::Bytes(octets).into(); return fnv(s.as_bytes()); }
            let mut i = 0;
            $(
                i += 1;
                if kind == i { let v: $t = DecoderLit::$k(octets).into(); let f: fn($t) -> u64 = $raw; return mix(1, f(v)); }
                i += 1;
                if kind == i {
                    let v: Vec<$t> = DecoderLit::$kv(octets).into();
                    let f: fn($t) -> u64 = $raw;
                    return v.iter().fold(v.len() as u64, |h, x| mix(h, f(*x)));
                }
            )*
            let _ = i;
            0
        }
        pub fn kind_of(v: &Val) -> usize {
            if let Val::Bytes(_) = v { return 0; }
            let mut i = 0;
            $(
                i += 1;
                if let Val::$k(_) = v { return i; }
                i += 1;
                if let Val::$kv(_) = v { return i; }
            )*
            i
        }
    };
}

kinds! {
    Bool, BoolVec, bool, rp::VARINT, |b| b & 1 == 1, |o, v| varint(o, v as u64), |v| v as u64;
    Int32, Int32Vec, i32, rp::VARINT, |b| b as i32, |o, v| varint(o, v as i64 as u64), |v| v as u32 as u64;
    Int64, Int64Vec, i64, rp::VARINT, |b| b as i64, |o, v| varint(o, v as u64), |v| v as u64;
    UInt32, UInt32Vec, u32, rp::VARINT, |b| b as u32, |o, v| varint(o, v as u64), |v| v as u64;
    UInt64, UInt64Vec, u64, rp::VARINT, |b| b, |o, v| varint(o, v), |v| v;
    Float, FloatVec, f32, rp::BIT32, |b| f32::from_bits(b as u32), |o, v| o.extend(v.to_bits().to_le_bytes()), |v| v.to_bits() as u64;
    Double, DoubleVec, f64, rp::BIT64, f64::from_bits, |o, v| o.extend(v.to_bits().to_le_bytes()), |v| v.to_bits();
    SInt32, SInt32Vec, i32, rp::VARINT, |b| b as i32, |o, v| varint(o, (if v < 0 { !v as u32 as u64 * 2 + 1 } else { v as u64 * 2 }) & 0xffff_ffff), |v| v as u32 as u64;
    SInt64, SInt64Vec, i64, rp::VARINT, |b| b as i64, |o, v| varint(o, if v < 0 { (!v as u64) * 2 + 1 } else { v as u64 * 2 }), |v| v as u64;
    Fixed32, Fixed32Vec, u32, rp::BIT32, |b| b as u32, |o, v| o.extend(v.to_le_bytes()), |v| v as u64;
    Fixed64, Fixed64Vec, u64, rp::BIT64, |b| b, |o, v| o.extend(v.to_le_bytes()), |v| v;
    SFixed32, SFixed32Vec, i32, rp::BIT32, |b| b as i32, |o, v| o.extend((v as u32).to_le_bytes()), |v| v as u32 as u64;
    SFixed64, SFixed64Vec, i64, rp::BIT64, |b| b as i64, |o, v| o.extend((v as u64).to_le_bytes()), |v| v as u64;
}

/// Converts literals of every kind to every type, fitting or not.
pub fn mismatched(octets: &[u8]) {
    macro_rules! all { ($($t:ty),*) => { $( for k in 0..KINDS { if let Some(l) = lit(k, octets.to_vec()) { let x: $t = l.into(); let _ = x; } } )* } }
    all!(bool, Vec<bool>, i32, Vec<i32>, i64, Vec<i64>, u32, Vec<u32>, u64, Vec<u64>, f32, Vec<f32>, f64, Vec<f64>, String, Vec<u8>);
}

/// The conversions from plain references, where the library offers them.
pub fn encode_plain<W: ?Sized + Write>(v: &Val, tag: u32, w: &mut W) -> Result<usize, EncoderError> {
    let e = Encoder::default();
    match v {
        Val::Bytes(x) => e.encode((&tag, x), w),
        Val::Bool(x) => e.encode((&tag, x), w),
        Val::BoolVec(x) => e.encode((&tag, x), w),
        Val::Int32(x) => e.encode((&tag, x), w),
        Val::Int32Vec(x) => e.encode((&tag, x), w),
        Val::Int64(x) => e.encode((&tag, x), w),
        Val::Int64Vec(x) => e.encode((&tag, x), w),
        Val::UInt32(x) => e.encode((&tag, x), w),
        Val::UInt32Vec(x) => e.encode((&tag, x), w),
        Val::UInt64(x) => e.encode((&tag, x), w),
        Val::UInt64Vec(x) => e.encode((&tag, x), w),
        Val::Float(x) => e.encode((&tag, x), w),
        Val::FloatVec(x) => e.encode((&tag, x), w),
        Val::Double(x) => e.encode((&tag, x), w),
        Val::DoubleVec(x) => e.encode((&tag, x), w),
        v => v.encode(tag, w),
    }
}

/// The methods for one kind each.
pub fn encode_direct<W: ?Sized + Write>(v: &Val, tag: u32, w: &mut W) -> Result<usize, EncoderError> {
    let e = Encoder::default();
    match v {
        Val::Bytes(x) => e.encode_bytes(&tag, x, w),
        Val::Bool(x) => e.encode_bool(&tag, x, w),
        Val::BoolVec(x) => e.encode_bool_vec(&tag, x, w),
        Val::Int32(x) => e.encode_int32(&tag, x, w),
        Val::Int32Vec(x) => e.encode_int32_vec(&tag, x, w),
        Val::Int64(x) => e.encode_int64(&tag, x, w),
        Val::Int64Vec(x) => e.encode_int64_vec(&tag, x, w),
        Val::UInt32(x) => e.encode_uint32(&tag, x, w),
        Val::UInt32Vec(x) => e.encode_uint32_vec(&tag, x, w),
        Val::UInt64(x) => e.encode_uint64(&tag, x, w),
        Val::UInt64Vec(x) => e.encode_uint64_vec(&tag, x, w),
        Val::Float(x) => e.encode_float(&tag, x, w),
        Val::FloatVec(x) => e.encode_float_vec(&tag, x, w),
        Val::Double(x) => e.encode_double(&tag, x, w),
        Val::DoubleVec(x) => e.encode_double_vec(&tag, x, w),
        Val::SInt32(x) => e.encode_sint32(&tag, x, w),
        Val::SInt32Vec(x) => e.encode_sint32_vec(&tag, x, w),
        Val::SInt64(x) => e.encode_sint64(&tag, x, w),
        Val::SInt64Vec(x) => e.encode_sint64_vec(&tag, x, w),
        Val::Fixed32(x) => e.encode_fixed32(&tag, x, w),
        Val::Fixed32Vec(x) => e.encode_fixed32_vec(&tag, x, w),
        Val::Fixed64(x) => e.encode_fixed64(&tag, x, w),
        Val::Fixed64Vec(x) => e.encode_fixed64_vec(&tag, x, w),
        Val::SFixed32(x) => e.encode_sfixed32(&tag, x, w),
        Val::SFixed32Vec(x) => e.encode_sfixed32_vec(&tag, x, w),
        Val::SFixed64(x) => e.encode_sfixed64(&tag, x, w),
        Val::SFixed64Vec(x) => e.encode_sfixed64_vec(&tag, x, w),
    }
}

pub fn bytes(ctx: &mut Ctx) -> Vec<u8> {
    let s = &mut ctx.src;
    let len = match s.weighted(&[8, 4, 2, 1]) {
        0 => s.below(9),
        1 => gen::LEN_BOUNDS[s.below(gen::LEN_BOUNDS.len())],
        2 => s.below(400),
        _ => gen::BIG_BOUNDS[s.below(20)],
    };
    let class = s.below(4);
    let seed = if len == 0 { 0 } else { s.u64() };
    gen::fill(class, seed, len)
}

pub fn val(ctx: &mut Ctx) -> Val {
    if ctx.src.chance(1, 5000) {
        // beyond 16 bits, rarely beyond 21
        ctx.count("probe:big_value");
        let len = if ctx.src.chance(1, 10) { *ctx.src.pick(&[2_097_151usize, 2_097_152]) } else { *ctx.src.pick(&[65_535usize, 65_536, 65_537, 66_000, 70_000]) };
        let seed = ctx.src.u64();
        if ctx.src.chance(1, 2) { return Val::Bytes(gen::fill(2, seed | 1, len)); }
        let kind = 1 + ctx.src.below(KINDS - 1);
        let mut r = Rng::new(seed);
        return Val::make(kind, &mut || r.next() >> (r.next() & 63), len.min(70_000), &mut Vec::new);
    }
    let kind = if ctx.src.chance(1, 6) { 0 } else { ctx.src.below(KINDS) };
    if kind == 0 { return Val::Bytes(bytes(ctx)); }
    let n = match ctx.src.below(4) { 0 => ctx.src.below(4), 1 => ctx.src.below(20), 2 => if ctx.src.chance(1, 40) { *ctx.src.pick(&[255usize, 256, 257, 511, 512, 513, 1023, 1024, 2047, 2048, 4096]) } else { *ctx.src.pick(&[0usize, 15, 16, 31, 32, 127, 128, 129]) }, _ => ctx.src.below(70) };
    // long vectors come from one pattern seed, short values bit by bit
    if n > 8 {
        let seed = ctx.src.u64();
        let mut r = Rng::new(seed);
        let mut k = 0;
        return Val::make(kind, &mut || { k += 1; let x = r.next(); match x & 3 { 0 => x >> (x >> 58), 1 => !(x >> (x >> 58)), 2 => 1u64 << (x >> 58), _ => x } }, n, &mut Vec::new);
    }
    let pats: Vec<u64> = (0..n.max(1)).map(|_| bits(ctx)).collect();
    let mut i = 0;
    Val::make(kind, &mut || { i += 1; pats[(i - 1) % pats.len()] }, n, &mut Vec::new)
}

pub fn tag(ctx: &mut Ctx) -> u32 {
    let s = &mut ctx.src;
    match s.below(5) {
        0 => 1 + s.below(15) as u32,
        1 => *s.pick(&[1u32, 15, 16, 2047, 2048, 262_143, 262_144, 33_554_431, 33_554_432, 536_870_911, 536_870_910, 18_999, 19_000, 19_999, 20_000, 127, 128, 255, 256, 65_535, 65_536]),
        4 => 1 + (s.raw(536_870_911) >> s.below(29)) as u32,
        2 => 1 + s.below(3000) as u32,
        _ => 1 + s.raw(536_870_911) as u32,
    }
}

/// Tags the encoder has to refuse.
pub fn bad_tag(ctx: &mut Ctx) -> u32 {
    let s = &mut ctx.src;
    match s.below(3) {
        0 => 0,
        1 => *s.pick(&[536_870_912u32, 536_870_913, u32::MAX, 1 << 30, 1 << 31, (1 << 31) + 1, u32::MAX - 1, 536_870_912 + 15, (1 << 30) + 1, 3 << 29]),
        _ => 536_870_912 + s.raw((1u64 << 32) - 536_870_912) as u32,
    }
}
