//! A fleet whose nodes generate their Huffman tables themselves (C26): from the
//! library's code table or by parsing the printed code of the RFC, or for a
//! private code, at any speed, anew after every crash and upgrade. They read
//! the same literals as the nodes that use the tables shipped.

use crate::core::ctx::{fail, hex, show, Ctx, R};
use crate::core::src::{fnv, mix, Rng};
use crate::ev;
use crate::gen;
use crate::refm::huff;
use httlib_huffman::encoder::table::ENCODE_TABLE;
use httlib_huffman::flattener::flatten;
use httlib_huffman::parser::parse;
use httlib_huffman::{decode, encode, DecoderSpeed};

const SPEEDS: [DecoderSpeed; 5] = [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits];
type Table = Vec<Vec<(Option<u8>, Option<u16>, u8)>>;

/// A prefix code: (length, code) of each symbol.
struct Book { codes: Vec<(u8, u32)>, hpack: bool }

impl Book {
    fn hpack() -> Book {
        Book { codes: (0..257).map(|s| { let (c, l) = huff::code_of(s); (l, c) }).collect(), hpack: true }
    }
    /// A complete code of any shape, grown by splitting leaves.
    fn private(ctx: &mut Ctx) -> Book {
        let n = match ctx.src.below(4) { 0 => 2 + ctx.src.below(4), 1 => 2 + ctx.src.below(40), 2 => 257 - ctx.src.below(4), _ => 2 + ctx.src.below(256) };
        let shape = ctx.src.below(4);
        let mut r = Rng::new(ctx.src.u64());
        let mut leaves: Vec<(u8, u32)> = vec![(1, 0), (1, 1)];
        while leaves.len() < n {
            let k = leaves.len() as u64;
            let i = match shape {
                // flat, wild, one long branch, a few long branches
                0 => { let m = leaves.iter().map(|x| x.0).min().unwrap_or(1); leaves.iter().position(|x| x.0 == m).unwrap_or(0) }
                1 => r.below(k) as usize,
                2 => leaves.len() - 1,
                _ => leaves.len() - 1 - r.below(k.min(4)) as usize,
            };
            if leaves[i].0 >= 30 {
                // as deep as the printed form can show: split the shallowest
                let m = leaves.iter().map(|x| x.0).min().unwrap_or(1);
                let j = leaves.iter().position(|x| x.0 == m).unwrap_or(0);
                let (l, c) = leaves.swap_remove(j);
                leaves.push((l + 1, c << 1));
                leaves.push((l + 1, c << 1 | 1));
                continue;
            }
            let (l, c) = leaves.swap_remove(i);
            let b = r.below(2) as u32;
            leaves.push((l + 1, c << 1 | b));
            leaves.push((l + 1, c << 1 | (1 - b)));
        }
        for i in (1..leaves.len()).rev() { leaves.swap(i, r.below(i as u64 + 1) as usize); }
        ctx.count("probe:private_code");
        if leaves.iter().any(|x| x.0 == 30) { ctx.count("probe:deep_code"); }
        Book { codes: leaves, hpack: false }
    }
    /// The code as Appendix B of the RFC prints it.
    fn print(&self, style: usize) -> String {
        let mut out = String::new();
        for (i, (l, c)) in self.codes.iter().enumerate() {
            let label = if i == 256 { "EOS".to_string() } else if (32..127).contains(&i) && style > 0 { format!("'{}'", i as u8 as char) } else { String::new() };
            let mut bits = String::new();
            for k in 0..*l {
                if k % 8 == 0 { bits.push('|'); }
                bits.push(if c >> (l - 1 - k) & 1 == 1 { '1' } else { '0' });
            }
            if i > 0 { out.push('\n'); }
            out.push_str(&format!("{:3} ({:3})  {:<40}{:>8}  [{:2}]", label, i, bits, format!("{:x}", c), l));
        }
        if style == 2 { out.push('\n'); }
        out
    }
    fn write(&self, syms: &[u16]) -> Vec<u8> {
        let mut out = vec![];
        let (mut acc, mut n) = (0u64, 0u32);
        for s in syms {
            let (l, c) = self.codes[*s as usize];
            acc = acc << l | c as u64;
            n += l as u32;
            while n >= 8 { out.push((acc >> (n - 8)) as u8); n -= 8; }
            acc &= (1 << n) - 1;
        }
        if n > 0 { out.push(((acc << (8 - n)) | ((1 << (8 - n)) - 1)) as u8); }
        out
    }
    /// Reads `count` symbols bit by bit; None when the octets end before.
    fn read(&self, b: &[u8], count: usize) -> Option<Vec<u16>> {
        let mut by: Vec<std::collections::HashMap<u32, u16>> = vec![Default::default(); 31];
        for (s, (l, c)) in self.codes.iter().enumerate() { by[*l as usize].insert(*c, s as u16); }
        let mut out = vec![];
        let (mut c, mut l) = (0u32, 0usize);
        for i in 0..b.len() * 8 {
            if out.len() == count { break; }
            c = c << 1 | (b[i / 8] >> (7 - i % 8) & 1) as u32;
            l += 1;
            if let Some(s) = by.get(l).and_then(|m| m.get(&c)) { out.push(*s); c = 0; l = 0; }
        }
        if out.len() == count { Some(out) } else { None }
    }
}

/// Walks a generated table over octets that arrive a few at a time.
struct Walker { speed: usize, id: usize, bits: u64, n: usize, tail: Vec<bool>, out: Vec<u16>, bad: Option<String> }

impl Walker {
    fn new(speed: usize) -> Walker { Walker { speed, id: 0, bits: 0, n: 0, tail: vec![], out: vec![], bad: None } }
    fn feed(&mut self, t: &Table, b: &[u8], most: usize) {
        for x in b {
            if self.bad.is_some() || self.out.len() >= most { return; }
            self.bits = self.bits << 8 | *x as u64;
            self.n += 8;
            while self.n >= self.speed && self.bad.is_none() && self.out.len() < most {
                let key = (self.bits >> (self.n - self.speed)) as usize & ((1 << self.speed) - 1);
                match t.get(self.id).and_then(|s| s.get(key)) {
                    Some((_, Some(a), left)) if (*left as usize) < self.speed => { self.out.push(*a); self.n -= self.speed - *left as usize; self.id = 0; self.tail.clear(); }
                    Some((Some(k), None, _)) => { self.n -= self.speed; self.id = *k as usize; for i in (0..self.speed).rev() { self.tail.push(key >> i & 1 == 1); } }
                    e => self.bad = Some(format!("state {} of {} has {:?} for {:b}", self.id, t.len(), e, key)),
                }
            }
            self.bits &= (1 << self.n) - 1;
        }
    }
    /// The octets are all there: takes what fewer bits than the speed still say.
    fn end(&mut self, t: &Table, most: usize) {
        while self.n > 0 && self.bad.is_none() && self.out.len() < most {
            let pad = self.speed - self.n;
            let key = ((self.bits & ((1 << self.n) - 1)) << pad) as usize;
            match t.get(self.id).and_then(|s| s.get(key)) {
                Some((_, Some(a), left)) if *left as usize >= pad && (*left as usize) < self.speed => { self.out.push(*a); self.n -= self.speed - *left as usize; self.id = 0; self.tail.clear(); }
                _ => break,
            }
        }
        for i in (0..self.n).rev() { self.tail.push(self.bits >> i & 1 == 1); }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Origin { Shipped, Generated, Parsed }

struct Node { book: usize, speed: usize, origin: Origin, table: Option<Table>, queue: Vec<usize>, now: Option<(usize, usize)>, got: Vec<u8>, walker: Walker }

struct Letter { book: usize, octets: Vec<u8>, count: usize, want: Option<Vec<u16>> }

fn start(ctx: &mut Ctx, books: &[Book], node: &mut Node) -> R {
    let b = &books[node.book];
    node.speed = 1 + ctx.src.below(5);
    node.origin = *ctx.src.pick(if b.hpack { &[Origin::Generated, Origin::Parsed, Origin::Shipped] } else { &[Origin::Generated, Origin::Parsed] });
    node.now = None;
    let mut codes: Vec<(u8, u32)> = if b.hpack { ENCODE_TABLE.to_vec() } else { b.codes.clone() };
    if node.origin == Origin::Parsed {
        let style = ctx.src.below(3);
        let text = b.print(style);
        let p = ctx.sut("parser::parse", || parse(&text))?;
        for (i, (x, y)) in p.iter().zip(b.codes.iter()).enumerate() {
            if x.0 != y.0 as u16 || x.1 != y.1 { return fail("parsed", format!("symbol {} is printed as {} bits {:x} but parsed as {} bits {:x}", i, y.0, y.1, x.0, x.1)); }
        }
        if p.len() != b.codes.len() { return fail("parsed", format!("{} of {} lines were parsed", p.len(), b.codes.len())); }
        codes = p.into_iter().map(|x| (x.0 as u8, x.1)).collect();
        ctx.count("probe:parsed");
    }
    node.table = None;
    if node.origin != Origin::Shipped {
        let t = ctx.sut("flattener::flatten", || flatten(&codes, SPEEDS[node.speed - 1]))?;
        if t.iter().any(|s| s.len() != 1 << node.speed) { return fail("table", format!("a state of the {}-bit table does not have {} entries", node.speed, 1 << node.speed)); }
        ctx.state(mix(node.speed as u64, mix(t.len() as u64, b.codes.len() as u64)));
        node.table = Some(t);
        ctx.count("probe:generated");
    } else { ctx.count("probe:shipped"); }
    ev!(ctx, "node with code {} of {} symbols, {} bits at a time, tables {:?}", node.book, b.codes.len(), node.speed, node.origin);
    Ok(())
}

fn letter(ctx: &mut Ctx, books: &[Book], book: usize) -> R<Letter> {
    let b = &books[book];
    let len = match ctx.src.below(8) { 0 => ctx.src.below(3), 7 => ctx.src.below(700), _ => ctx.src.below(40) };
    let class = ctx.src.below(8);
    let seed = ctx.src.u64();
    let mut octets;
    let mut count = len;
    if b.hpack {
        let text = gen::fill(class, seed, len);
        octets = vec![];
        let o = &mut octets;
        if ctx.sut("huffman::encode", || encode(&text, o))?.is_err() { return fail("encode", format!("encoding {} failed", show(&text))); }
        let syms: Vec<u16> = text.iter().map(|x| *x as u16).collect();
        if octets != b.write(&syms) { return fail("encode", format!("{} was encoded as {} instead of {}", show(&text), hex(&octets), hex(&b.write(&syms)))); }
    } else {
        let n = b.codes.len();
        let mut r = Rng::new(seed);
        // every symbol in turn, or deep ones, or any
        let deep: Vec<u16> = { let m = b.codes.iter().map(|x| x.0).max().unwrap_or(1); (0..n as u16).filter(|s| b.codes[*s as usize].0 + 2 >= m).collect() };
        let syms: Vec<u16> = (0..len).map(|i| match class { 0 | 1 => ((seed as usize + i) % n) as u16, 2 | 3 => deep[r.below(deep.len() as u64) as usize], _ => r.below(n as u64) as u16 }).collect();
        octets = b.write(&syms);
    }
    if ctx.src.chance(1, 3) {
        let d = if ctx.src.chance(1, 4) { octets.extend(vec![0xff; 1 + len % 3]); ctx.fault("fault:padding_too_long"); "ones appended".to_string() } else { gen::damage(ctx, &mut octets) };
        ev!(ctx, "damage: {}", d);
        if !b.hpack && ctx.src.chance(1, 4) { count += 1; }
    }
    let want = if b.hpack { huff::decode(&octets).ok().map(|t| t.iter().map(|x| *x as u16).collect()) } else { b.read(&octets, count) };
    ctx.count(if want.is_some() { "probe:readable" } else { "probe:unreadable" });
    ev!(ctx, "literal in code {}: {} ({} symbols), {}", book, hex(&octets), count, if want.is_some() { "readable" } else { "unreadable" });
    Ok(Letter { book, octets, count, want })
}

fn judge(ctx: &mut Ctx, books: &[Book], node: &mut Node, l: &Letter) -> R {
    let b = &books[l.book];
    let got: Result<Vec<u16>, String> = match &node.table {
        None => {
            let mut out = vec![];
            let o = &node.got;
            match ctx.sut("huffman::decode", || decode(o, &mut out, SPEEDS[node.speed - 1]))? { Ok(()) => Ok(out.iter().map(|x| *x as u16).collect()), Err(e) => Err(format!("{:?}", e)) }
        }
        Some(t) => {
            let most = if b.hpack { usize::MAX } else { l.count };
            let w = &mut node.walker;
            w.end(t, most);
            if let Some(e) = &w.bad { return fail("hole", format!("walking the generated {}-bit table over {}: {}", node.speed, hex(&l.octets), e)); }
            if b.hpack {
                if w.out.contains(&256) { Err("end of string".into()) }
                else if w.tail.len() > 7 || w.tail.contains(&false) { Err("padding".into()) }
                else { Ok(std::mem::take(&mut w.out)) }
            } else if w.out.len() < l.count { Err("ends early".into()) } else { Ok(std::mem::take(&mut w.out)) }
        }
    };
    ev!(ctx, "read at {} bits with tables {:?}: {:?}", node.speed, node.origin, got.as_ref().map(|x| x.len()));
    match (&got, &l.want) {
        (Ok(a), Some(w)) if a == w => Ok(()),
        (Err(_), None) => Ok(()),
        (Ok(a), Some(w)) => { let i = a.iter().zip(w.iter()).position(|(x, y)| x != y).unwrap_or(a.len().min(w.len())); fail("text", format!("a node of {} bits with tables {:?} read {} differently from symbol {} on: {:?} instead of {:?}", node.speed, node.origin, hex(&l.octets), i, a.get(i), w.get(i))) }
        (Ok(_), None) => fail("accepted", format!("a node of {} bits with tables {:?} accepted {}", node.speed, node.origin, hex(&l.octets))),
        (Err(e), Some(_)) => fail("rejected", format!("a node of {} bits with tables {:?} rejected {}: {}", node.speed, node.origin, hex(&l.octets), e)),
    }
}

pub fn fleet(ctx: &mut Ctx) -> R {
    let mut books = vec![Book::hpack()];
    let k = ctx.src.below(3);
    for _ in 0..k { let b = Book::private(ctx); books.push(b); }
    let n = 2 + ctx.src.below(4);
    let mut nodes = vec![];
    for _ in 0..n {
        let mut node = Node { book: ctx.src.below(books.len()), speed: 1, origin: Origin::Shipped, table: None, queue: vec![], now: None, got: vec![], walker: Walker::new(1) };
        start(ctx, &books, &mut node)?;
        nodes.push(node);
    }
    let mut letters: Vec<Letter> = vec![];
    let mut i = 0;
    loop {
        i += 1;
        ctx.steps += 1;
        ctx.now += 1 + ctx.src.raw(100);
        let busy: Vec<usize> = (0..nodes.len()).filter(|x| nodes[*x].now.is_some() || !nodes[*x].queue.is_empty()).collect();
        let more = i < 80 && ctx.src.more(30);
        if !more && busy.is_empty() { return Ok(()); }
        ctx.src.begin();
        let what = if !more { 1 } else { ctx.src.weighted(&[4, 8, 1, 1]) };
        match what {
            0 => {
                let book = nodes[ctx.src.below(n)].book;
                let l = letter(ctx, &books, book)?;
                letters.push(l);
                for x in nodes.iter_mut() {
                    if x.book != book { continue; }
                    x.queue.push(letters.len() - 1);
                    if ctx.src.chance(1, 12) { ctx.fault("fault:duplicate"); x.queue.push(letters.len() - 1); }
                }
            }
            1 if !busy.is_empty() => {
                let x = &mut nodes[busy[ctx.src.below(busy.len())]];
                if x.now.is_none() {
                    let q = ctx.src.below(x.queue.len());
                    if q > 0 { ctx.fault("fault:reorder"); }
                    x.now = Some((x.queue.remove(q), 0));
                    x.got.clear();
                    x.walker = Walker::new(x.speed);
                }
                let (li, at) = x.now.unwrap_or((0, 0));
                let l = &letters[li];
                let cut = if more { gen::cut(ctx, l.octets.len() - at) } else { l.octets.len() - at };
                let piece = &l.octets[at..at + cut];
                x.got.extend_from_slice(piece);
                if let Some(t) = &x.table { x.walker.feed(t, piece, if books[x.book].hpack { usize::MAX } else { l.count }); }
                if at + cut == l.octets.len() {
                    x.now = None;
                    judge(ctx, &books, x, l)?;
                    ctx.state(mix(fnv(&l.octets), x.speed as u64));
                } else {
                    ctx.fault("fault:cut");
                    x.now = Some((li, at + cut));
                }
            }
            2 => {
                // a crash: what arrived of the literal at hand is lost, it is sent again
                let x = &mut nodes[ctx.src.below(n)];
                ctx.fault("fault:crash");
                if let Some((li, _)) = x.now.take() { ctx.fault("fault:restart_in_literal"); x.queue.insert(0, li); }
                start(ctx, &books, x)?;
            }
            3 => {
                let x = &mut nodes[ctx.src.below(n)];
                if x.now.is_none() { ctx.fault("fault:upgrade"); start(ctx, &books, x)?; }
            }
            _ => {}
        }
        ctx.src.end();
    }
}
