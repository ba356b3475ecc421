//! RFC 7541 Appendix B: the code is canonical, so the code lengths define it.

const LEN: [u8; 257] = [
    13, 23, 28, 28, 28, 28, 28, 28, 28, 24, 30, 28, 28, 30, 28, 28,
    28, 28, 28, 28, 28, 28, 30, 28, 28, 28, 28, 28, 28, 28, 28, 28,
    6, 10, 10, 12, 13, 6, 8, 11, 10, 10, 8, 11, 8, 6, 6, 6,
    5, 5, 5, 6, 6, 6, 6, 6, 6, 6, 7, 8, 15, 6, 12, 10,
    13, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
    7, 7, 7, 7, 7, 7, 7, 7, 8, 7, 8, 13, 19, 13, 14, 6,
    15, 5, 6, 5, 6, 5, 6, 6, 6, 5, 7, 7, 6, 6, 6, 5,
    6, 7, 6, 5, 5, 6, 7, 7, 7, 7, 7, 15, 11, 14, 13, 28,
    20, 22, 20, 20, 22, 22, 22, 23, 22, 23, 23, 23, 23, 23, 24, 23,
    24, 24, 22, 23, 24, 23, 23, 23, 23, 21, 22, 23, 22, 23, 23, 24,
    22, 21, 20, 22, 22, 23, 23, 21, 23, 22, 22, 24, 21, 22, 23, 23,
    21, 21, 22, 21, 23, 22, 23, 23, 20, 22, 22, 22, 23, 22, 22, 23,
    26, 26, 20, 19, 22, 23, 22, 25, 26, 26, 26, 27, 27, 26, 24, 25,
    19, 21, 26, 27, 27, 26, 27, 24, 21, 21, 26, 26, 28, 27, 27, 27,
    20, 24, 20, 21, 22, 21, 21, 23, 22, 22, 25, 25, 24, 24, 26, 23,
    26, 27, 26, 26, 27, 27, 27, 27, 27, 28, 27, 27, 27, 27, 27, 26,
    30,
];

struct Code {
    /// code of each symbol
    code: [u32; 257],
    /// per length: first code, index into `order`, number of codes
    first: [u32; 31],
    base: [usize; 31],
    num: [usize; 31],
    order: [u16; 257],
}

const fn build() -> Code {
    let mut c = Code { code: [0; 257], first: [0; 31], base: [0; 31], num: [0; 31], order: [0; 257] };
    let mut code: u32 = 0;
    let mut n = 0;
    let mut len = 1;
    while len <= 30 {
        code <<= 1;
        c.first[len] = code;
        c.base[len] = n;
        let mut s = 0;
        while s < 257 {
            if LEN[s] as usize == len {
                c.code[s] = code;
                c.order[n] = s as u16;
                c.num[len] += 1;
                code += 1;
                n += 1;
            }
            s += 1;
        }
        len += 1;
    }
    c
}

static CODE: Code = build();
pub const EOS: usize = 256;

pub fn code_of(sym: usize) -> (u32, u8) { (CODE.code[sym], LEN[sym]) }

pub fn encode(src: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(src.len());
    let (mut acc, mut n) = (0u64, 0u32);
    for b in src {
        let (c, l) = code_of(*b as usize);
        acc = (acc << l) | c as u64;
        n += l as u32;
        while n >= 8 { n -= 8; out.push((acc >> n) as u8); }
        acc &= (1 << n) - 1;
    }
    if n > 0 { out.push(((acc << (8 - n)) as u8) | (0xffu16 >> n) as u8); }
    out
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Bad { LongPadding, PaddingNotOnes, Eos }

pub fn decode(src: &[u8]) -> Result<Vec<u8>, Bad> {
    let mut out = Vec::new();
    let (mut code, mut len, mut ones) = (0u32, 0usize, true);
    for b in src {
        for i in (0..8).rev() {
            let bit = (*b as u32 >> i) & 1;
            code = (code << 1) | bit;
            len += 1;
            ones &= bit == 1;
            let n = CODE.num[len];
            if n > 0 && code >= CODE.first[len] && ((code - CODE.first[len]) as usize) < n {
                let s = CODE.order[CODE.base[len] + (code - CODE.first[len]) as usize] as usize;
                if s == EOS { return Err(Bad::Eos); }
                out.push(s as u8);
                code = 0; len = 0; ones = true;
            }
        }
    }
    if !ones { return Err(Bad::PaddingNotOnes); }
    if len > 7 { return Err(Bad::LongPadding); }
    Ok(out)
}
