//! The choice stream: every decision of a simulated run is drawn here, from a
//! PRNG seeded by the run's seed, or from a recorded list when replaying.
//! A choice of 0 is always the simplest one, and an exhausted replay list
//! yields zeros, so deleting or lowering recorded choices gives simpler runs.

use std::io::Write;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let y = splitmix(&mut x);
    let mut z = y ^ b;
    splitmix(&mut z)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { return 0; }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    /// Start and end of every closed span, for structural shrinking.
    pub spans: Vec<(u32, u32)>,
    open: Vec<u32>,
    /// When set, every choice is also streamed there (for runs that die).
    pub tee: Option<std::fs::File>,
}

impl Src {
    pub fn seeded(seed: u64) -> Src {
        Src { rng: Rng::new(seed), replay: None, pos: 0, rec: Vec::new(), spans: Vec::new(), open: Vec::new(), tee: None }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        let mut s = Src::seeded(0);
        s.replay = Some(choices);
        s
    }
    /// A value in 0..n (n = 0 means the full 64-bit range).
    pub fn raw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 { v } else { v % n }
            }
            None => {
                if n == 0 { self.rng.next() } else { self.rng.below(n) }
            }
        };
        self.rec.push(v);
        if let Some(f) = &mut self.tee {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { return 0; }
        self.raw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn u64(&mut self) -> u64 {
        self.raw(0)
    }
    /// True with probability num/den; the simplest outcome is false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 { return false; }
        self.raw(den as u64) >= (den - num) as u64
    }
    /// Keep looping? Mean number of iterations is `avg`; 0 stops.
    pub fn more(&mut self, avg: usize) -> bool {
        self.raw(avg as u64 + 1) != 0
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = if total <= 1 { 0 } else { self.raw(total) };
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 { return i; }
            v -= *x as u64;
        }
        w.iter().position(|x| *x > 0).unwrap_or(0)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn begin(&mut self) {
        self.open.push(self.rec.len() as u32);
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.pop() {
            let e = self.rec.len() as u32;
            if e > s { self.spans.push((s, e)); }
        }
    }
    pub fn close_all(&mut self) {
        while !self.open.is_empty() { self.end(); }
    }
}
