//! A conforming HPACK peer that is not this library: the reference encoder,
//! free to make every choice RFC 7541 allows.

use crate::core::ctx::Ctx;
use crate::gen::{self, Profile};
use crate::refm::hpack::{self as rh, Kind, RTable, Rep};

pub struct Peer {
    pub table: RTable,
    /// Limit the other side last announced and this peer acknowledged.
    pub limit: u64,
    pub pad_w: u32,
    pub size_w: u32,
}

impl Peer {
    pub fn new(ctx: &mut Ctx, size: u32) -> Peer {
        let pad_w = *ctx.src.pick(&[0u32, 1, 4]);
        let size_w = *ctx.src.pick(&[1u32, 0, 3]);
        Peer { table: RTable::new(size as u64), limit: size as u64, pad_w, size_w }
    }
    fn pad(&self, ctx: &mut Ctx) -> usize {
        if self.pad_w > 0 && ctx.src.chance(self.pad_w, 8) {
            ctx.count("probe:padded_integer");
            1 + ctx.src.below(4)
        } else { 0 }
    }
    /// One legal representation.
    pub fn choose(&self, ctx: &mut Ctx, p: &Profile) -> Rep {
        let n = self.table.len();
        let index = |ctx: &mut Ctx| -> u64 {
            let d = n - 61;
            match ctx.src.below(4) {
                0 => 1 + ctx.src.below(61) as u64,
                1 => 1 + ctx.src.below(n) as u64,
                2 if d > 0 => 62 + ctx.src.below(d) as u64,
                _ => *ctx.src.pick(&[n as u64, 61, 14, 15, 16, 1]),
            }
        };
        match ctx.src.weighted(&[6, 3, 3, self.size_w]) {
            0 => {
                let kind = *ctx.src.pick(&[Kind::Without, Kind::Inc, Kind::Never, Kind::Inc]);
                let h = ctx.src.below(4);
                Rep::Lit { kind, index: 0, huff_name: h & 1 != 0, huff_value: h & 2 != 0, name: gen::name(ctx, p), value: gen::value(ctx, p) }
            }
            1 => Rep::Indexed(index(ctx)),
            2 => {
                let kind = *ctx.src.pick(&[Kind::Without, Kind::Inc, Kind::Never, Kind::Inc]);
                let i = index(ctx);
                let name = self.table.get(i).map(|e| e.0.to_vec()).unwrap_or_default();
                Rep::Lit { kind, index: i, huff_name: false, huff_value: ctx.src.chance(1, 2), name, value: gen::value(ctx, p) }
            }
            _ => {
                let l = self.limit;
                let s = match ctx.src.below(5) {
                    0 => l,
                    1 => l - l.min(ctx.src.raw(40)),
                    2 => ctx.src.raw(l.min(1 << 28) + 1),
                    3 => self.table.size.min(l) - self.table.size.min(l).min(ctx.src.raw(35)),
                    _ => 0,
                };
                Rep::Size(s.min((1 << 28) + 30))
            }
        }
    }
    /// Writes a representation and applies it to the peer's own table.
    pub fn put(&mut self, ctx: &mut Ctx, r: &Rep, out: &mut Vec<u8>) -> Option<(Vec<u8>, Vec<u8>, u8)> {
        let pads = [self.pad(ctx), self.pad(ctx), self.pad(ctx)];
        rh::put_rep(out, r, pads);
        if let (Rep::Lit { kind: Kind::Inc, .. }, n) = (r, self.table.dynq.len()) {
            let f = rh::apply(r, &mut self.table);
            if self.table.dynq.len() <= n { ctx.count("probe:evictions"); }
            return f;
        }
        if let Rep::Size(_) = r { ctx.count("probe:size_updates"); }
        rh::apply(r, &mut self.table)
    }
    /// A block of about `avg` representations; returns its fields.
    pub fn block(&mut self, ctx: &mut Ctx, p: &Profile, avg: usize, out: &mut Vec<u8>) -> Vec<(Vec<u8>, Vec<u8>, u8)> {
        let mut fields = vec![];
        let mut k = 0;
        while k < 30 && out.len() < 100_000 && ctx.src.more(avg) {
            k += 1;
            ctx.src.begin();
            let r = self.choose(ctx, p);
            if let Some(f) = self.put(ctx, &r, out) { fields.push(f); }
            ctx.src.end();
        }
        fields
    }
}
