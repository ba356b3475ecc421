//! The real HPACK encoder and decoder, each paired with a reference model.

use crate::core::ctx::{fail, hex, show, Ctx, R};
use crate::core::alloc::Used;
use crate::ev;
use crate::gen;
use crate::refm::hpack::{self as rh, Kind, RTable, Rep};
use httlib_hpack::{Decoder, DecoderError, Encoder, EncoderError};

pub type Out = Vec<(Vec<u8>, Vec<u8>, u8)>;

/// What the application asks the encoder to do.
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Index(u32),
    NameIndex(u32, Vec<u8>, u8),
    Lit(Vec<u8>, Vec<u8>, u8),
}

pub fn err_bit(e: &DecoderError) -> u8 {
    match e {
        DecoderError::IntegerUnderflow => rh::UNDERFLOW,
        DecoderError::IntegerOverflow => rh::OVERFLOW,
        DecoderError::InvalidIndex => rh::INDEX,
        DecoderError::InvalidInput => rh::INPUT,
        DecoderError::InvalidMaxDynamicSize => rh::SIZE,
        DecoderError::InvalidPrefix => 0x80,
    }
}

pub struct SutEnc {
    pub enc: Encoder<'static>,
    /// The table an RFC 7541 peer holds after reading everything emitted.
    pub peer: RTable,
    pub limit_max: u32,
}

impl SutEnc {
    pub fn new(size: u32) -> SutEnc {
        let enc = if size == 4096 { Encoder::default() } else { Encoder::with_dynamic_size(size) };
        SutEnc { enc, peer: RTable::new(size as u64), limit_max: size }
    }
    /// Name, value and sensitivity the peer must see for `op`.
    pub fn meaning(&self, op: &Op) -> Option<(Vec<u8>, Vec<u8>, bool)> {
        match op {
            Op::Index(i) => self.peer.get(*i as u64).map(|e| (e.0.to_vec(), e.1.to_vec(), false)),
            Op::NameIndex(i, v, f) => self.peer.get(*i as u64).map(|e| (e.0.to_vec(), v.clone(), f & 0xc == 0x8)),
            Op::Lit(n, v, f) => Some((n.clone(), v.clone(), f & 0xc == 0x8)),
        }
    }
    pub fn call(&mut self, ctx: &mut Ctx, op: &Op, dst: &mut Vec<u8>) -> R<Result<(), EncoderError>> {
        let direct = ctx.src.chance(1, 4);
        let enc = &mut self.enc;
        ctx.sut("Encoder::encode", || match op {
            // the same through the methods for one representation each
            Op::Index(i) if direct => enc.encode_indexed(*i, dst),
            Op::NameIndex(i, v, f) if direct => enc.encode_indexed_name(*i, v.clone(), *f, dst),
            Op::Lit(n, v, f) if direct && f & 0x10 == 0 => enc.encode_literal(n.clone(), v.clone(), *f, dst),
            Op::Index(i) => enc.encode(*i, dst),
            Op::NameIndex(i, v, f) => enc.encode((*i, v.clone(), *f), dst),
            Op::Lit(n, v, f) => enc.encode((n.clone(), v.clone(), *f), dst),
        })
    }
    /// Emits a legal operation and returns the representation written; `form`
    /// also checks that it is the representation asked for.
    pub fn emit(&mut self, ctx: &mut Ctx, op: &Op, dst: &mut Vec<u8>, form: bool) -> R<Rep> {
        let at = dst.len();
        let holds = match op { Op::Lit(n, v, f) if form && f & 0x10 != 0 => self.peer.holds(n, v), _ => (false, false) };
        let keep = crate::core::src::fnv(&dst[at.saturating_sub(64)..]);
        let want = match self.meaning(op) { Some(w) => w, None => return fail("harness-op", format!("illegal op {:?}", op)) };
        let r = self.call(ctx, op, dst)?;
        if let Err(e) = r {
            return fail("encode-rejected", format!("{} was rejected with {:?}", show_op(op), e));
        }
        if dst.len() < at || crate::core::src::fnv(&dst[at.saturating_sub(64)..at]) != keep {
            return fail("encode-clobbers", format!("{} altered octets already in the output", show_op(op)));
        }
        let bytes = &dst[at..];
        let (rep, n) = match rh::rep(bytes, &self.peer, u64::MAX) {
            Ok(x) => x,
            Err(e) => return fail("encode-invalid", format!("{} gave {} which is not valid HPACK ({})", show_op(op), hex(bytes), rh::err_names(e))),
        };
        if n != bytes.len() {
            return fail("encode-invalid", format!("{} gave {} octets, of which only {} form its representation", show_op(op), bytes.len(), n));
        }
        if form { self.check_form(holds, op, &rep)?; }
        let had = self.peer.dynq.len();
        let field = match rh::apply(&rep, &mut self.peer) { Some(f) => f, None => return fail("encode-invalid", format!("{} gave a size update", show_op(op))) };
        if field.0 != want.0 || field.1 != want.1 {
            return fail("encode-meaning", format!("{} means {}={} but its encoding {} means {}={}", show_op(op), show(&want.0), show(&want.1), hex(&dst[at..]), show(&field.0), show(&field.1)));
        }
        match &rep {
            Rep::Indexed(i) => ctx.count(if *i > 61 { "probe:dynamic_index_emitted" } else { "probe:static_index_emitted" }),
            Rep::Lit { kind: Kind::Inc, .. } => {
                let t = &self.peer;
                let gone = (had + 1).saturating_sub(t.dynq.len());
                if gone > 0 { ctx.add("probe:evictions", gone as u64); }
                if t.dynq.is_empty() { ctx.count("probe:entry_larger_than_table"); }
                if t.size == t.max && t.max > 0 { ctx.count("probe:table_exactly_full"); }
            }
            _ => {}
        }
        Ok(rep)
    }
    /// Checks that `rep` is the representation `op` asked for.
    fn check_form(&self, holds: (bool, bool), op: &Op, rep: &Rep) -> R {
        let kind = |f: u8| if f & 0x4 != 0 { Kind::Inc } else if f & 0x8 != 0 { Kind::Never } else { Kind::Without };
        let bad = |why: &str| fail("encode-form", format!("{}: {} (wrote {})", show_op(op), why, show_rep(rep)));
        match (op, rep) {
            (Op::Index(i), Rep::Indexed(j)) => if *i as u64 != *j { bad("wrong index") } else { Ok(()) },
            (Op::Index(_), _) => bad("expected an indexed field"),
            (Op::NameIndex(i, _, f), Rep::Lit { kind: k, index, huff_value, .. }) => {
                if *index != *i as u64 { return bad("wrong name index"); }
                if *k != kind(*f) { return bad("wrong kind of literal"); }
                if *huff_value != (f & 2 != 0) { return bad("wrong string encoding of the value"); }
                Ok(())
            }
            (Op::NameIndex(..), _) => bad("expected a literal with indexed name"),
            (Op::Lit(_, _, f), r) => {
                let best = f & 0x10 != 0;
                let (exact, name) = if best { holds } else { (false, false) };
                let never = kind(*f) == Kind::Never;
                if exact && !never {
                    return match r { Rep::Indexed(_) => Ok(()), _ => bad("the tables hold this field, an index was expected") };
                }
                match r {
                    Rep::Lit { kind: k, index, huff_name, huff_value, .. } => {
                        if *k != kind(*f) { return bad("wrong kind of literal"); }
                        if exact { return Ok(()); }
                        if name && *index == 0 { return bad("the tables hold this name, an indexed name was expected"); }
                        if !name && *index != 0 { return bad("unexpected name index"); }
                        if *index == 0 && *huff_name != (f & 1 != 0) { return bad("wrong string encoding of the name"); }
                        if *huff_value != (f & 2 != 0) { return bad("wrong string encoding of the value"); }
                        Ok(())
                    }
                    _ => bad("expected a literal"),
                }
            }
        }
    }
    pub fn resize(&mut self, ctx: &mut Ctx, size: u32, dst: &mut Vec<u8>) -> R {
        let at = dst.len();
        let enc = &mut self.enc;
        let r = ctx.sut("Encoder::update_max_dynamic_size", || enc.update_max_dynamic_size(size, dst))?;
        if let Err(e) = r { return fail("resize-rejected", format!("size update to {} rejected with {:?}", size, e)); }
        let bytes = dst.get(at..).unwrap_or(&[]);
        let read = if bytes.len() > rh::INT_OCTETS && bytes[0] & 0xe0 == 0x20 {
            ctx.count("probe:huge_size_announced");
            rh::int_upto(bytes, 5, 6).map(|(s, n)| (Rep::Size(s), n))
        } else { rh::rep(bytes, &self.peer, u64::MAX) };
        match read {
            Ok((Rep::Size(s), n)) if n == bytes.len() => {
                if s != size as u64 {
                    return fail("resize-announces", format!("size update to {} announces {}", size, s));
                }
                let gone = self.peer.set_max(s);
                if gone > 0 { ctx.add("probe:evicted_by_resize", gone as u64); }
                self.limit_max = self.limit_max.max(size);
            }
            _ => return fail("resize-invalid", format!("size update to {} wrote {}", size, hex(bytes))),
        }
        Ok(())
    }
    /// Compares the encoder's own table with the model through its public API.
    pub fn observe(&mut self, ctx: &mut Ctx, probe: &[(Vec<u8>, Vec<u8>)]) -> R {
        let len = self.peer.len() as u32;
        let enc = &mut self.enc;
        let m = ctx.sut("Encoder::max_dynamic_size", || enc.max_dynamic_size())?;
        if m as u64 != self.peer.max {
            return fail("encoder-size", format!("encoder reports table size {} but adopted {}", m, self.peer.max));
        }
        // every index up to the length is known, nothing beyond
        let mut sink = vec![];
        let ok: Vec<bool> = {
            let enc = &self.enc;
            let last = len.saturating_add(2);
            ctx.sut("Encoder::encode_indexed", || {
                (0..=last).chain(crate::gen::wild_indexes(len as u64)).map(|i| { sink.clear(); enc.encode_indexed(i, &mut sink).is_ok() }).collect()
            })?
        };
        for (k, ok) in ok.iter().enumerate() {
            let want = k >= 1 && k <= len as usize;
            if *ok != want {
                return fail("encoder-table", format!("encoder with {} entries {} index #{} of the probe list", len, if *ok { "accepts" } else { "refuses" }, k));
            }
        }
        // contents, through the best-format search (which does not insert)
        let mut todo = sample(&self.peer);
        todo.extend_from_slice(probe);
        todo.extend(near_misses(&self.peer));
        for (n, v) in todo {
            let mut dst = vec![];
            let enc = &mut self.enc;
            let r = ctx.sut("Encoder::encode(best format)", || enc.encode((n.clone(), v.clone(), 0x10u8), &mut dst))?;
            if r.is_err() { return fail("encode-rejected", format!("best-format encode of {} rejected", show(&n))); }
            let (exact, name) = self.peer.holds(&n, &v);
            let rep = rh::rep(&dst, &self.peer, u64::MAX);
            let fine = match &rep {
                Ok((Rep::Indexed(i), _)) => exact && self.peer.get(*i).map(|e| e.0 == &n[..] && e.1 == &v[..]).unwrap_or(false),
                Ok((Rep::Lit { index, name: en, value: evv, .. }, _)) => !exact && (*index != 0) == name && *en == n && *evv == v,
                _ => false,
            };
            if !fine {
                return fail("encoder-table", format!("searching {}={} (exact {}, name {}) gave {} = {:?}", show(&n), show(&v), exact, name, hex(&dst), rep.map(|r| show_rep(&r.0))));
            }
        }
        Ok(())
    }
}

/// All entries of a table, or of a very large one its ends and some between.
pub fn sample(t: &RTable) -> Vec<(Vec<u8>, Vec<u8>)> {
    let n = t.dynq.len();
    let step = n / 60;
    t.dynq.iter().enumerate().filter(|(i, _)| n <= 1500 || *i < 30 || i + 30 >= n || (i % 256 == 0 && n < 20_000) || i % step == 0).map(|(_, e)| e.clone()).collect()
}

/// Fields easily mistaken for entries of the table.
pub fn near_misses(t: &RTable) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out = vec![];
    let k = t.dynq.len();
    for (i, (n, v)) in t.dynq.iter().enumerate() {
        if i >= 2 && i + 1 < k { continue; }
        for x in gen::near_all(v) { out.push((n.clone(), x)); }
        for x in gen::near_all(n) { out.push((x, v.clone())); }
        if !v.is_empty() {
            let mut m = n.clone();
            m.push(v[0]);
            out.push((m, v[1..].to_vec()));
        }
        if let Some(l) = n.last() {
            let mut w = vec![*l];
            w.extend_from_slice(v);
            out.push((n[..n.len() - 1].to_vec(), w));
        }
    }
    out
}

pub struct SutDec {
    pub dec: Decoder<'static>,
    pub model: RTable,
    pub limit: u64,
    pub max_limit: u64,
    pub last_used: Used,
}

pub fn show_rep(r: &Rep) -> String {
    match r {
        Rep::Indexed(i) => format!("indexed {}", i),
        Rep::Size(s) => format!("size update {}", s),
        Rep::Lit { kind, index, huff_name, huff_value, name, value } => format!("literal {:?} index {} {}{}={}{}", kind, index,
            if *huff_name { "H" } else { "" }, show(name), if *huff_value { "H" } else { "" }, show(value)),
    }
}
pub fn show_op(o: &Op) -> String {
    match o {
        Op::Index(i) => format!("encode(index {})", i),
        Op::NameIndex(i, v, f) => format!("encode(name index {}, {}, flags {:#x})", i, show(v), f),
        Op::Lit(n, v, f) => format!("encode({}, {}, flags {:#x})", show(n), show(v), f),
    }
}
pub fn show_field(f: &(Vec<u8>, Vec<u8>, u8)) -> String { format!("{}={} flags {:#x}", show(&f.0), show(&f.1), f.2) }

impl SutDec {
    pub fn new(size: u32) -> SutDec {
        let dec = if size == 4096 { Decoder::default() } else { Decoder::with_dynamic_size(size) };
        SutDec { dec, model: RTable::new(size as u64), limit: size as u64, max_limit: size as u64, last_used: Used::default() }
    }
    pub fn set_limit(&mut self, ctx: &mut Ctx, n: u32) -> R {
        let d = &mut self.dec;
        ctx.sut("Decoder::set_max_dynamic_size", || d.set_max_dynamic_size(n))?;
        self.limit = n as u64;
        self.max_limit = self.max_limit.max(self.limit);
        Ok(())
    }
    pub fn check_limit(&mut self, ctx: &mut Ctx) -> R {
        let d = &self.dec;
        let m = ctx.sut("Decoder::max_dynamic_size", || d.max_dynamic_size())?;
        if m as u64 != self.limit { return fail("decoder-limit", format!("decoder reports limit {} but {} was set", m, self.limit)); }
        Ok(())
    }
    /// One decode call, compared with the reference in every respect.
    /// Returns what the reference found.
    pub fn decode(&mut self, ctx: &mut Ctx, buf: &mut Vec<u8>, dst: &mut Out) -> R<rh::Decoded> {
        let before = buf.clone();
        let had = dst.len();
        let guard: Vec<(usize, usize, u8)> = dst.iter().map(|f| (f.0.len(), f.1.len(), f.2)).collect();
        let mut t = std::mem::replace(&mut self.model, RTable::new(0));
        let peak = t.peak_max;
        let want = rh::decode(&before, &mut t, self.limit);
        t.peak_max = t.peak_max.max(peak);
        self.model = t;
        let d = &mut self.dec;
        let (got, used) = ctx.sut_m("Decoder::decode", || d.decode(buf, dst))?;
        self.last_used = used;
        if dst.len() < had || dst.iter().take(had).map(|f| (f.0.len(), f.1.len(), f.2)).ne(guard.into_iter()) {
            return fail("decode-clobbers", "decode altered fields already in the output");
        }
        compare(&before, &want, &got, buf, &dst[had..])?;
        Ok(want)
    }
    /// Full comparison of the decoder's table with the model.
    pub fn observe(&mut self, ctx: &mut Ctx) -> R {
        let n = self.model.dynq.len();
        let mut block = vec![];
        for i in 0..n { rh::put_rep(&mut block, &Rep::Indexed(62 + i as u64), [0; 3]); }
        let mut tail = vec![];
        rh::put_rep(&mut tail, &Rep::Indexed(62 + n as u64), [0; 3]);
        block.extend_from_slice(&tail);
        let mut dst = vec![];
        let d = &mut self.dec;
        let got = ctx.sut("Decoder::decode(indexes)", || d.decode(&mut block, &mut dst))?;
        for (i, f) in dst.iter().enumerate() {
            match self.model.dynq.get(i) {
                Some(e) if e.0 == f.0 && e.1 == f.1 => {}
                Some(e) => return fail("decoder-table", format!("decoder entry {} is {}={} but RFC 7541 has {}={}", 62 + i, show(&f.0), show(&f.1), show(&e.0), show(&e.1))),
                None => return fail("decoder-table", format!("decoder has entry {} = {}={}, RFC 7541 table ends at {}", 62 + i, show(&f.0), show(&f.1), 61 + n)),
            }
        }
        if dst.len() != n || got != Err(DecoderError::InvalidIndex) || block != tail {
            return fail("decoder-table", format!("decoder resolves {} dynamic entries, RFC 7541 has {} (ended with {:?})", dst.len(), n, got));
        }
        Ok(())
    }
}

/// Compares one decode call with the reference.
pub fn compare(before: &[u8], want: &rh::Decoded, got: &Result<usize, DecoderError>, buf: &[u8], fields: &[(Vec<u8>, Vec<u8>, u8)]) -> R {
    for (i, w) in want.fields.iter().enumerate() {
        match fields.get(i) {
            None => return fail("decode-lost", format!("field {} ({}) of block {} was not returned (result {:?})", i, show_field(w), hex(before), got)),
            Some(f) if f.0 != w.0 || f.1 != w.1 => return fail("decode-wrong", format!("field {} of block {} is {} but means {}", i, hex(before), show_field(f), show_field(w))),
            Some(f) if f.2 != w.2 => return fail("decode-flags", format!("field {} of block {} has flags {:#x}, its representation means {:#x}", i, hex(before), f.2, w.2)),
            _ => {}
        }
    }
    if fields.len() > want.fields.len() {
        return fail("decode-phantom", format!("block {} gave an extra field {}", hex(before), show_field(&fields[want.fields.len()])));
    }
    match (got, want.err) {
        (Ok(n), None) => if *n != want.consumed {
            return fail("decode-count", format!("decode returned {} for a block of {} octets", n, want.consumed));
        },
        (Ok(n), Some(e)) => return fail("decode-accepts", format!("block {} decoded Ok({}) but at octet {} it is {}", hex(before), n, want.consumed, rh::err_names(e))),
        (Err(e), None) => return fail("decode-rejects", format!("valid block {} was rejected with {:?}", hex(before), e)),
        (Err(e), Some(w)) => if err_bit(e) & w == 0 {
            return fail("decode-error-kind", format!("block {} failed with {:?}, the damage at octet {} is {}", hex(before), e, want.consumed, rh::err_names(w)));
        },
    }
    if buf != &before[want.consumed..] {
        return fail("decode-buffer", format!("after decoding {} the input holds {} instead of the {} octets from {}", hex(before), hex(buf), before.len() - want.consumed, want.consumed));
    }
    Ok(())
}

// ----------------------------------------------------------- operations

/// Flags for a literal, never asking to index and to never index at once.
pub fn flags(ctx: &mut Ctx, p: &gen::Profile) -> u8 {
    let mut f = ctx.src.below(4) as u8;
    f |= [0u8, 4, 8, 4][ctx.src.below(4)];
    f &= p.flags_mask;
    if f & 0xc == 0xc { f &= !0x8; }
    if ctx.src.chance(p.best, 4) { f |= 0x10; }
    f
}

/// A legal operation on an encoder whose peer table is `t`.
pub fn op(ctx: &mut Ctx, p: &gen::Profile, t: &RTable) -> Op {
    let dynlen = t.dynq.len();
    let index = |ctx: &mut Ctx| -> u32 {
        match ctx.src.below(4) {
            0 => 1 + ctx.src.below(61) as u32,
            1 => 1 + ctx.src.below(61 + dynlen) as u32,
            2 if dynlen > 0 => 62 + ctx.src.below(dynlen) as u32,
            _ => *ctx.src.pick(&[(61 + dynlen) as u32, 61, 62.min(61 + dynlen as u32), 1, 14, 15, 16]),
        }
    };
    match ctx.src.weighted(&[5, 2, 2, 2, 2]) {
        4 => {
            // a field of the table again, or one easily mistaken for it
            let i = index(ctx);
            let (n, v) = t.get(i as u64).map(|e| (e.0.to_vec(), e.1.to_vec())).unwrap_or_default();
            let f = flags(ctx, p);
            match ctx.src.below(4) {
                0 => Op::Lit(n, v, f),
                1 => { let v = gen::near(ctx, v); Op::Lit(n, v, f) }
                2 => { let n = gen::near(ctx, n); Op::Lit(n, v, f) }
                _ => Op::Lit(v, n, f),
            }
        }
        0 => Op::Lit(gen::name(ctx, p), gen::value(ctx, p), flags(ctx, p)),
        1 => { let i = index(ctx); Op::Index(i) }
        2 => { let i = index(ctx); Op::NameIndex(i, gen::value(ctx, p), flags(ctx, p) & 0xf) }
        _ => {
            // an entry sized against the space left in the table
            let room = t.max.saturating_sub(t.size) as i64;
            let target = match ctx.src.below(4) { 0 => room, 1 => t.max as i64, 2 => room + 1, _ => t.max as i64 + 1 } - ctx.src.below(3) as i64;
            let f = (flags(ctx, p) & 0x13) | 0x4;
            let most = if target <= 40_000 { 40_000 } else { match ctx.src.below(32) { 31 => 2_500_000, 24..=30 => 200_000, _ => 40_000 } };
            if target > 40_000 && target <= most { ctx.count("probe:large_exact_fit"); }
            if target >= 32 && target <= most {
                let body = (target - 32) as usize;
                let nl = ctx.src.below(body.min(20) + 1);
                ctx.count("probe:exact_fit_attempt");
                let seed = ctx.src.raw(1000);
                Op::Lit(gen::fill(0, seed, nl), gen::fill(1, seed + 1, body - nl), f)
            } else {
                let nl = ctx.src.below(3);
                let seed = ctx.src.raw(1 << 20);
                Op::Lit(gen::fill(0, seed, nl), vec![], f)
            }
        }
    }
}

/// Fills the table with many small distinct entries, to reach large indexes.
pub fn many_small(ctx: &mut Ctx) -> Vec<Op> {
    let n = *ctx.src.pick(&[70usize, 130, 200, 260, 300, 520, 1100]);
    let seed = ctx.src.raw(1 << 16);
    ctx.count("probe:many_small_entries");
    if ctx.src.chance(1, 3) {
        // few names, each with many values
        let k = 1 + ctx.src.below(3);
        let own = ctx.src.below(3);
        return (0..n).map(|i| {
            let name = if own == 0 { crate::refm::hpack::STATIC[(seed as usize + i % k) % 61].0.to_vec() } else { vec![b'a' + (i % k) as u8] };
            Op::Lit(name, format!("{:x}", i as u64 + seed).into_bytes(), 0x4)
        }).collect();
    }
    (0..n).map(|i| Op::Lit(format!("{:x}", i as u64 + seed).into_bytes(), if i % 3 == 0 { vec![b'0' + (i % 10) as u8] } else { vec![] }, 0x4)).collect()
}

/// A long haul: very many operations on one connection, drawn from one seed.
/// Counters, index widths and tables go far beyond what single runs reach.
pub struct Haul { rng: crate::core::src::Rng, i: u64, pub left: usize, max: u64 }

const PREFIX_EDGES: [u64; 33] = [
    14, 15, 16, 62, 63, 64, 126, 127, 128, 142, 143, 144, 190, 191, 192, 254, 255, 256, 257, 317, 318,
    16398, 16399, 16400, 16446, 16447, 16448, 16510, 16511, 16512, 65535, 65536, 65597,
];

impl Haul {
    /// Returns the haul and the table size it wants.
    pub fn new(ctx: &mut Ctx) -> (Haul, u32) {
        let left = match ctx.src.below(3) { 0 => ctx.src.below(1500), 1 => ctx.src.below(20_000), _ => 60_000 + ctx.src.below(12_000) };
        let max = *ctx.src.pick(&[4096u64, 200, 12_000, 1 << 20, 1 << 22, 1 << 22]);
        let seed = ctx.src.u64();
        ctx.count("probe:long_haul");
        (Haul { rng: crate::core::src::Rng::new(seed), i: 0, left, max }, max as u32)
    }
    pub fn next(&mut self, t: &RTable) -> Option<Op> {
        if self.left == 0 { return None; }
        self.left -= 1;
        self.i += 1;
        let r = &mut self.rng;
        let n = t.len() as u64;
        let d = t.dynq.len() as u64;
        let f = r.below(4) as u8;
        let edge = |r: &mut crate::core::src::Rng| -> u32 {
            for _ in 0..4 {
                let e = PREFIX_EDGES[r.below(33) as usize];
                if e <= n { return e as u32; }
            }
            (n - r.below(2.min(n))) as u32
        };
        // grow fast while the table is meant to be large
        let grow = self.max > 8192 && t.size * 10 < t.max * 9;
        Some(match r.below(if grow { 60 } else { 16 }) {
            0 if d > 0 => Op::Index(62 + r.below(d) as u32),
            1 => Op::Index(edge(r)),
            2 => { let i = edge(r); Op::NameIndex(i, vec![b'v'; r.below(3) as usize], f | [0u8, 4, 8][r.below(3) as usize]) }
            3 if d < 400 => { let e = if d > 0 { t.dynq[r.below(d) as usize].clone() } else { (b"a".to_vec(), vec![]) }; Op::Lit(e.0, e.1, 0x14 | f) }
            _ => Op::Lit(format!("{:x}", self.i).into_bytes(), vec![b'0'; (self.i % 3) as usize], 0x4 | f),
        })
    }
}

pub fn log_op(ctx: &mut Ctx, who: &str, o: &Op, rep: &Rep) {
    ev!(ctx, "{} {} -> {}", who, show_op(o), show_rep(rep));
}
