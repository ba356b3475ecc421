//! Protocol Buffers wire format reference: writer, and a stream parser that
//! also says where and why a stream is malformed.

pub const VARINT: u8 = 0;
pub const BIT64: u8 = 1;
pub const LEN: u8 = 2;
pub const BIT32: u8 = 5;

pub fn put_varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 128 { out.push(v as u8 | 128); v >>= 7; }
    out.push(v as u8);
}
/// Varint with redundant continuation octets, up to ten octets in all.
pub fn put_varint_padded(out: &mut Vec<u8>, v: u64, pad: usize) {
    let at = out.len();
    put_varint(out, v);
    let pad = pad.min(10 - (out.len() - at));
    if pad > 0 {
        *out.last_mut().unwrap() |= 128;
        for _ in 1..pad { out.push(128); }
        out.push(0);
    }
}
pub fn put_key(out: &mut Vec<u8>, tag: u32, typ: u8) { put_varint(out, ((tag as u64) << 3) | typ as u64) }

pub type Raw = (u32, u8, Vec<u8>);

/// Encodes an untyped field from its wire type and value octets.
pub fn put_raw(out: &mut Vec<u8>, f: &Raw) {
    put_key(out, f.0, f.1);
    if f.1 == LEN { put_varint(out, f.2.len() as u64); }
    out.extend_from_slice(&f.2);
}

#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    /// field, octets used by it
    Field(Raw, usize),
    Pending,
    /// Malformed element at this offset from the start of the field.
    Bad(usize),
    /// Exactly ten continuation octets so far: an implementation may reject
    /// now or with the next octet.
    Limit(usize),
    /// The wire format does not settle what this means (bits beyond 64).
    Ambiguous,
}

enum V { Val(u64, usize), Pending, Limit, Bad, Ambiguous }

fn varint(b: &[u8]) -> V {
    let mut v = 0u128;
    for (i, x) in b.iter().enumerate().take(10) {
        v |= ((*x & 127) as u128) << (7 * i);
        if *x < 128 {
            return if v > u64::MAX as u128 { V::Ambiguous } else { V::Val(v as u64, i + 1) };
        }
    }
    if b.len() < 10 { V::Pending } else if b.len() == 10 { V::Limit } else { V::Bad }
}

/// Next field of a stream positioned at a field boundary.
pub fn step(b: &[u8]) -> Step {
    if b.is_empty() { return Step::Pending; }
    let (key, n) = match varint(b) {
        V::Val(v, n) => (v, n),
        V::Pending => return Step::Pending,
        V::Limit => return Step::Limit(0),
        V::Bad => return Step::Bad(0),
        V::Ambiguous => return Step::Ambiguous,
    };
    let typ = (key & 7) as u8;
    if key > u32::MAX as u64 || key >> 3 == 0 || ![VARINT, BIT64, LEN, BIT32].contains(&typ) { return Step::Bad(0); }
    let tag = (key >> 3) as u32;
    let rest = &b[n..];
    match typ {
        VARINT => {
            match rest.iter().take(10).position(|x| *x < 128) {
                Some(i) => Step::Field((tag, typ, rest[..=i].to_vec()), n + i + 1),
                None if rest.len() < 10 => Step::Pending,
                None if rest.len() == 10 => Step::Limit(n),
                None => Step::Bad(n),
            }
        }
        BIT64 | BIT32 => {
            let k = if typ == BIT64 { 8 } else { 4 };
            if rest.len() < k { Step::Pending } else { Step::Field((tag, typ, rest[..k].to_vec()), n + k) }
        }
        _ => match varint(rest) {
            V::Val(len, m) => {
                if ((rest.len() - m) as u64) < len { Step::Pending } else {
                    Step::Field((tag, typ, rest[m..m + len as usize].to_vec()), n + m + len as usize)
                }
            }
            V::Pending => Step::Pending,
            V::Limit => Step::Limit(n),
            V::Bad => Step::Bad(n),
            V::Ambiguous => Step::Ambiguous,
        },
    }
}

pub struct Parsed { pub fields: Vec<Raw>, pub end: usize, pub last: Step }

pub fn parse(b: &[u8]) -> Parsed {
    let (mut fields, mut end) = (vec![], 0);
    loop {
        match step(&b[end..]) {
            Step::Field(f, n) => { fields.push(f); end += n; }
            s => return Parsed { fields, end, last: s },
        }
    }
}
