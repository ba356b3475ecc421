//! RFC 7541 reference: index tables, primitive types, representations.

use super::huff;
use std::collections::VecDeque;

pub static STATIC: [(&[u8], &[u8]); 61] = [
    (b":authority", b""),
    (b":method", b"GET"),
    (b":method", b"POST"),
    (b":path", b"/"),
    (b":path", b"/index.html"),
    (b":scheme", b"http"),
    (b":scheme", b"https"),
    (b":status", b"200"),
    (b":status", b"204"),
    (b":status", b"206"),
    (b":status", b"304"),
    (b":status", b"400"),
    (b":status", b"404"),
    (b":status", b"500"),
    (b"accept-charset", b""),
    (b"accept-encoding", b"gzip, deflate"),
    (b"accept-language", b""),
    (b"accept-ranges", b""),
    (b"accept", b""),
    (b"access-control-allow-origin", b""),
    (b"age", b""),
    (b"allow", b""),
    (b"authorization", b""),
    (b"cache-control", b""),
    (b"content-disposition", b""),
    (b"content-encoding", b""),
    (b"content-language", b""),
    (b"content-length", b""),
    (b"content-location", b""),
    (b"content-range", b""),
    (b"content-type", b""),
    (b"cookie", b""),
    (b"date", b""),
    (b"etag", b""),
    (b"expect", b""),
    (b"expires", b""),
    (b"from", b""),
    (b"host", b""),
    (b"if-match", b""),
    (b"if-modified-since", b""),
    (b"if-none-match", b""),
    (b"if-range", b""),
    (b"if-unmodified-since", b""),
    (b"last-modified", b""),
    (b"link", b""),
    (b"location", b""),
    (b"max-forwards", b""),
    (b"proxy-authenticate", b""),
    (b"proxy-authorization", b""),
    (b"range", b""),
    (b"referer", b""),
    (b"refresh", b""),
    (b"retry-after", b""),
    (b"server", b""),
    (b"set-cookie", b""),
    (b"strict-transport-security", b""),
    (b"transfer-encoding", b""),
    (b"user-agent", b""),
    (b"vary", b""),
    (b"via", b""),
    (b"www-authenticate", b""),
];

pub type Field = (Vec<u8>, Vec<u8>);

#[derive(Clone, Debug, PartialEq)]
pub struct RTable {
    pub dynq: VecDeque<Field>,
    pub size: u64,
    pub max: u64,
    /// Largest maximum this table ever had.
    pub peak_max: u64,
    pub evicted: u64,
}

pub fn entry_size(n: &[u8], v: &[u8]) -> u64 { n.len() as u64 + v.len() as u64 + 32 }

impl RTable {
    pub fn new(max: u64) -> RTable { RTable { dynq: VecDeque::new(), size: 0, max, peak_max: max, evicted: 0 } }
    pub fn len(&self) -> usize { 61 + self.dynq.len() }
    pub fn get(&self, i: u64) -> Option<(&[u8], &[u8])> {
        if i == 0 { return None; }
        if i <= 61 { let e = STATIC[i as usize - 1]; return Some((e.0, e.1)); }
        self.dynq.get((i - 62) as usize).map(|e| (&e.0[..], &e.1[..]))
    }
    fn evict(&mut self) -> usize {
        let mut n = 0;
        while self.size > self.max {
            let e = self.dynq.pop_back().expect("accounting");
            self.size -= entry_size(&e.0, &e.1);
            n += 1;
        }
        self.evicted += n as u64;
        n
    }
    pub fn insert(&mut self, n: &[u8], v: &[u8]) -> usize {
        let s = entry_size(n, v);
        if s > self.max {
            let k = self.dynq.len();
            self.dynq.clear();
            self.size = 0;
            self.evicted += k as u64 + 1;
            return k + 1;
        }
        self.size += s;
        self.dynq.push_front((n.to_vec(), v.to_vec()));
        self.evict()
    }
    pub fn set_max(&mut self, m: u64) -> usize {
        self.max = m;
        self.peak_max = self.peak_max.max(m);
        self.evict()
    }
    pub fn entries(&self) -> impl Iterator<Item = (&[u8], &[u8])> {
        STATIC.iter().map(|e| (e.0, e.1)).chain(self.dynq.iter().map(|e| (&e.0[..], &e.1[..])))
    }
    /// (some exact match exists, some name match exists)
    pub fn holds(&self, n: &[u8], v: &[u8]) -> (bool, bool) {
        let mut name = false;
        for e in self.entries() {
            if e.0 == n { name = true; if e.1 == v { return (true, true); } }
        }
        (false, name)
    }
}

pub const UNDERFLOW: u8 = 1;
pub const OVERFLOW: u8 = 2;
pub const INDEX: u8 = 4;
pub const INPUT: u8 = 8;
pub const SIZE: u8 = 16;

pub fn err_names(e: u8) -> String {
    let mut v = vec![];
    for (b, n) in [(UNDERFLOW, "IntegerUnderflow"), (OVERFLOW, "IntegerOverflow"), (INDEX, "InvalidIndex"), (INPUT, "InvalidInput"), (SIZE, "InvalidMaxDynamicSize")] {
        if e & b != 0 { v.push(n); }
    }
    v.join("|")
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Inc, Without, Never }

impl Kind {
    pub fn flag(self) -> u8 { match self { Kind::Inc => 0x4, Kind::Without => 0, Kind::Never => 0x8 } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rep {
    Indexed(u64),
    /// kind, name index (0 = literal name), name Huffman, value Huffman, fields
    Lit { kind: Kind, index: u64, huff_name: bool, huff_value: bool, name: Vec<u8>, value: Vec<u8> },
    Size(u64),
}

/// Limit on the octets of one integer that the library documents.
pub const INT_OCTETS: usize = 5;

pub fn int(buf: &[u8], prefix: u8) -> Result<(u64, usize), u8> { int_upto(buf, prefix, INT_OCTETS) }

/// The same with a reader that takes up to `most` octets.
pub fn int_upto(buf: &[u8], prefix: u8, most: usize) -> Result<(u64, usize), u8> {
    let mask = (1u64 << prefix) - 1;
    let first = *buf.first().ok_or(UNDERFLOW)? as u64 & mask;
    if first < mask { return Ok((first, 1)); }
    let mut v = mask;
    let mut n = 1;
    loop {
        let b = *buf.get(n).ok_or(UNDERFLOW)? as u64;
        v += (b & 127) << (7 * (n - 1));
        n += 1;
        if b & 128 == 0 { return Ok((v, n)); }
        if n == most { return Err(OVERFLOW); }
    }
}

/// Raw string: (Huffman, octets, consumed).
fn raw_string(buf: &[u8]) -> Result<(bool, &[u8], usize), u8> {
    let h = *buf.first().ok_or(UNDERFLOW)? & 128 != 0;
    let (len, n) = int(buf, 7)?;
    if len > (buf.len() - n) as u64 { return Err(UNDERFLOW); }
    Ok((h, &buf[n..n + len as usize], n + len as usize))
}

fn text(h: bool, raw: &[u8]) -> Result<Vec<u8>, u8> {
    if h { huff::decode(raw).map_err(|_| INPUT) } else { Ok(raw.to_vec()) }
}

/// Reads one representation. The error is the set of documented error kinds
/// that fit what is wrong with it.
pub fn rep(buf: &[u8], t: &RTable, limit: u64) -> Result<(Rep, usize), u8> {
    let o = *buf.first().ok_or(UNDERFLOW)?;
    if o & 0x80 != 0 {
        let (i, n) = int(buf, 7)?;
        return if t.get(i).is_some() { Ok((Rep::Indexed(i), n)) } else { Err(INDEX) };
    }
    if o & 0xe0 == 0x20 {
        let (s, n) = int(buf, 5)?;
        return if s <= limit { Ok((Rep::Size(s), n)) } else { Err(SIZE) };
    }
    let (kind, prefix) = if o & 0x40 != 0 { (Kind::Inc, 6) } else if o & 0x10 != 0 { (Kind::Never, 4) } else { (Kind::Without, 4) };
    let (index, mut at) = int(buf, prefix)?;
    let mut errs = 0;
    let (mut name, mut huff_name) = (vec![], false);
    if index == 0 {
        let (h, raw, n) = raw_string(&buf[at..])?;
        at += n;
        huff_name = h;
        match text(h, raw) { Ok(x) => name = x, Err(e) => errs |= e }
    } else {
        match t.get(index) { Some(e) => name = e.0.to_vec(), None => errs |= INDEX }
    }
    let (mut value, mut huff_value) = (vec![], false);
    match raw_string(&buf[at..]) {
        Ok((h, raw, n)) => {
            at += n;
            huff_value = h;
            match text(h, raw) { Ok(x) => value = x, Err(e) => errs |= e }
        }
        Err(e) => errs |= e,
    }
    if errs != 0 { return Err(errs); }
    Ok((Rep::Lit { kind, index, huff_name, huff_value, name, value }, at))
}

/// Applies a representation: the field it emits, if any.
pub fn apply(r: &Rep, t: &mut RTable) -> Option<(Vec<u8>, Vec<u8>, u8)> {
    match r {
        Rep::Indexed(i) => { let e = t.get(*i).expect("checked"); Some((e.0.to_vec(), e.1.to_vec(), 0)) }
        Rep::Lit { kind, name, value, .. } => {
            if *kind == Kind::Inc { t.insert(name, value); }
            Some((name.clone(), value.clone(), kind.flag()))
        }
        Rep::Size(s) => { t.set_max(*s); None }
    }
}

#[derive(Debug, Clone, Default)]
pub struct Decoded {
    pub fields: Vec<(Vec<u8>, Vec<u8>, u8)>,
    pub reps: Vec<Rep>,
    pub consumed: usize,
    /// Boundaries after each representation.
    pub ends: Vec<usize>,
    pub err: Option<u8>,
}

/// Decodes as much as possible, applying complete representations to `t`.
pub fn decode(buf: &[u8], t: &mut RTable, limit: u64) -> Decoded {
    let mut d = Decoded::default();
    while d.consumed < buf.len() {
        match rep(&buf[d.consumed..], t, limit) {
            Ok((r, n)) => {
                d.consumed += n;
                d.ends.push(d.consumed);
                if let Some(f) = apply(&r, t) { d.fields.push(f); }
                d.reps.push(r);
            }
            Err(e) => { d.err = Some(e); break; }
        }
    }
    d
}

// ------------------------------------------------------- reference encoder

/// Writes an integer with `pad` redundant continuation octets (as far as the
/// five-octet limit allows).
pub fn put_int(out: &mut Vec<u8>, flags: u8, prefix: u8, v: u64, pad: usize) {
    let mask = (1u64 << prefix) - 1;
    if v < mask { out.push(flags | v as u8); return; }
    out.push(flags | mask as u8);
    let mut v = v - mask;
    let mut n = 1;
    while v >= 128 { out.push((v & 127) as u8 | 128); v >>= 7; n += 1; }
    let mut pad = pad.min(INT_OCTETS.saturating_sub(n + 1));
    if pad > 0 {
        out.push(v as u8 | 128);
        pad -= 1;
        while pad > 0 { out.push(128); pad -= 1; }
        out.push(0);
    } else {
        out.push(v as u8);
    }
}

pub fn put_string(out: &mut Vec<u8>, s: &[u8], huffman: bool, pad: usize) {
    if huffman {
        let e = huff::encode(s);
        put_int(out, 0x80, 7, e.len() as u64, pad);
        out.extend_from_slice(&e);
    } else {
        put_int(out, 0, 7, s.len() as u64, pad);
        out.extend_from_slice(s);
    }
}

pub fn put_rep(out: &mut Vec<u8>, r: &Rep, pads: [usize; 3]) {
    match r {
        Rep::Indexed(i) => put_int(out, 0x80, 7, *i, pads[0]),
        Rep::Size(s) => put_int(out, 0x20, 5, *s, pads[0]),
        Rep::Lit { kind, index, huff_name, huff_value, name, value } => {
            match kind {
                Kind::Inc => put_int(out, 0x40, 6, *index, pads[0]),
                Kind::Without => put_int(out, 0, 4, *index, pads[0]),
                Kind::Never => put_int(out, 0x10, 4, *index, pads[0]),
            }
            if *index == 0 { put_string(out, name, *huff_name, pads[1]); }
            put_string(out, value, *huff_value, pads[2]);
        }
    }
}
