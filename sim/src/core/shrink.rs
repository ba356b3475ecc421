//! Minimisation of a failing choice list: remove spans and chunks, zero
//! chunks, lower single values, as long as the same class of violation stays.

use std::time::{Duration, Instant};

pub struct Outcome {
    pub class: Option<String>,
    pub rec: Vec<u64>,
    pub spans: Vec<(u32, u32)>,
}

fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) { v.pop(); }
    v
}

fn better(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

pub struct Shrinker<'a> {
    pub eval: &'a mut dyn FnMut(&[u64]) -> Outcome,
    pub save: &'a mut dyn FnMut(&[u64]),
    pub class: String,
    pub best: Vec<u64>,
    pub spans: Vec<(u32, u32)>,
    pub deadline: Instant,
    pub max_evals: u64,
    pub evals: u64,
}

impl<'a> Shrinker<'a> {
    fn done(&self) -> bool {
        Instant::now() > self.deadline || self.evals >= self.max_evals
    }
    fn try_one(&mut self, cand: Vec<u64>) -> bool {
        if self.done() { return false; }
        let cand = trim(cand);
        if !better(&cand, &self.best) { return false; }
        self.evals += 1;
        let o = (self.eval)(&cand);
        if o.class.as_deref() != Some(&self.class) { return false; }
        let rec = trim(o.rec);
        let pick = if better(&rec, &cand) { rec } else { cand };
        self.best = pick;
        self.spans = o.spans;
        (self.save)(&self.best);
        true
    }
    pub fn run(&mut self) {
        self.best = trim(std::mem::take(&mut self.best));
        loop {
            let before = self.best.clone();
            self.spans_pass();
            self.chunks_pass();
            self.zero_pass();
            self.values_pass();
            if self.done() || self.best == before { break; }
        }
    }
    fn spans_pass(&mut self) {
        // outermost spans first, from the back
        let mut i = 0;
        loop {
            let mut s = self.spans.clone();
            s.sort_by_key(|x| (std::cmp::Reverse(x.1 - x.0), std::cmp::Reverse(x.0)));
            if i >= s.len() || self.done() { break; }
            let (a, b) = (s[i].0 as usize, s[i].1 as usize);
            if a >= self.best.len() { i += 1; continue; }
            let b = b.min(self.best.len());
            let mut c = self.best[..a].to_vec();
            c.extend_from_slice(&self.best[b..]);
            // also drop the "one more" choice directly in front of the span
            let mut c2 = c.clone();
            let hit = if a > 0 { c2.remove(a - 1); self.try_one(c2) } else { false };
            if !hit && !self.try_one(c) { i += 1; }
        }
    }
    fn chunks_pass(&mut self) {
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = self.best.len();
            while i > 0 && !self.done() {
                i = i.min(self.best.len());
                if i == 0 { break; }
                let a = i.saturating_sub(size);
                let mut c = self.best[..a].to_vec();
                c.extend_from_slice(&self.best[i..]);
                if self.try_one(c) { i = a.min(self.best.len()); } else { i -= 1.max(size / 2).min(i); }
            }
        }
    }
    fn zero_pass(&mut self) {
        for size in [32usize, 8, 2] {
            let mut a = 0;
            while a < self.best.len() && !self.done() {
                let b = (a + size).min(self.best.len());
                let mut c = self.best.clone();
                if c[a..b].iter().any(|x| *x != 0) {
                    c[a..b].iter_mut().for_each(|x| *x = 0);
                    self.try_one(c);
                }
                a += size;
            }
        }
    }
    fn values_pass(&mut self) {
        let mut i = 0;
        while i < self.best.len() && !self.done() {
            let v = self.best[i];
            if v != 0 {
                let mut c = self.best.clone();
                c[i] = 0;
                if !self.try_one(c) {
                    // binary search towards the smallest value that still fails
                    let (mut lo, mut hi) = (0u64, v);
                    while hi - lo > 1 && i < self.best.len() && !self.done() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = self.best.clone();
                        c[i] = mid;
                        if self.try_one(c) { hi = mid.min(self.best.get(i).copied().unwrap_or(0)); if hi <= lo { break; } } else { lo = mid; }
                    }
                }
            }
            i += 1;
        }
    }
}

pub fn budget(secs: u64) -> Instant {
    Instant::now() + Duration::from_secs(secs)
}
