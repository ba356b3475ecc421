BUGS = []
def bug(**k): BUGS.append(k)
HENC = "hpack/src/encoder/mod.rs"; HDEC = "hpack/src/decoder/mod.rs"; HDP = "hpack/src/decoder/primitives.rs"; HEP = "hpack/src/encoder/primitives.rs"
DYN = "hpack/src/table/dynamic.rs"; TBL = "hpack/src/table/mod.rs"
PDEC = "protos/src/decoder/mod.rs"; PDP = "protos/src/decoder/primitives.rs"; PDL = "protos/src/decoder/lit.rs"; PENC = "protos/src/encoder/mod.rs"; PEP = "protos/src/encoder/primitives.rs"
HUD = "huffman/src/decoder/mod.rs"; HUR = "huffman/src/decoder/reader.rs"; HUE = "huffman/src/encoder/mod.rs"

bug(id="index_lookup_31_bits", property="C02",
 needs="an index with the highest bit set that would otherwise denote an entry",
 breaks="indexes above 2^31 resolve to an entry instead of nothing",
 edits=[(TBL, "        let index = if index == 0 {\n", "        let index = index & i32::MAX as u32;\n        let index = if index == 0 {\n")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let t = Table::default();
    if t.get((1 << 31) + 2).is_some() || t.get(2).is_none() { println!("resolved"); std::process::exit(1); }
}
''')

bug(id="lookup_memo_survives_resize", property="C09",
 needs="an index used successfully, evicted by a table-size reduction without any insertion, then used again",
 breaks="an index whose entry was evicted by a resize is accepted",
 edits=[(HENC, "pub struct Encoder<'a> {\n", "pub struct Encoder<'a> {\n    /// Index known to be good until the table changes.\n    good: std::cell::Cell<(u32, usize)>,\n\n"),
        (HENC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            good: Default::default(),\n"),
        (HENC, "            table: Table::default(),\n", "            table: Table::default(),\n            good: Default::default(),\n"),
        (HENC, "        if self.table.get(index).is_none() {\n            return Err(EncoderError::InvalidIndex);\n        }\n", "        let (known, mark) = self.good.get();\n        if known != index || mark == 0 {\n            if self.table.get(index).is_none() {\n                return Err(EncoderError::InvalidIndex);\n            }\n            self.good.set((index, 1));\n        }\n"),
        (HENC, "            self.table.insert(name, value.clone());\n", "            self.table.insert(name, value.clone());\n            self.good.set((0, 0)); // may have evicted\n"),
        (HENC, "            self.table.insert(name.clone(), value.clone());\n", "            self.table.insert(name.clone(), value.clone());\n            self.good.set((0, 0)); // may have evicted\n")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::with_dynamic_size(200);
    let mut o = vec![];
    e.encode((b"a".to_vec(), b"b".to_vec(), 0x4), &mut o).unwrap();
    e.encode(62u32, &mut o).unwrap();
    e.update_max_dynamic_size(0, &mut o).unwrap();
    if e.encode(62u32, &mut o).is_ok() { println!("accepted"); std::process::exit(1); }
}
''')

bug(id="bad_fields_kept_for_diagnosis", property="C10",
 needs="very many malformed blocks on one connection",
 breaks="the decoder retains octets of every malformed field, so hostile peers make it grow without limit",
 edits=[(HDEC, "    table: Table<'a>,\n}\n\nimpl<'a> Decoder<'a> {", "    table: Table<'a>,\n\n    /// First octets of malformed fields.\n    bad: Vec<Vec<u8>>,\n}\n\nimpl<'a> Decoder<'a> {"),
        (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n        }\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            bad: vec![],\n        }\n"),
        (HDEC, "            max_dynamic_size: table.max_dynamic_size(),\n            table,\n", "            max_dynamic_size: table.max_dynamic_size(),\n            table,\n            bad: vec![],\n"),
        (HDEC, "        if new_size > self.max_dynamic_size {\n", "        if new_size > self.max_dynamic_size {\n            self.bad.push(buf[..buf.len().min(32)].to_vec());\n")],
 demo='''
use httlib_hpack::Decoder;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut d = Decoder::default();
    let before = LIVE.load(Relaxed);
    for _ in 0..100_000 {
        let mut b = vec![0x3f, 0xff, 0xff, 0x7f, 1, 2, 3, 4, 5, 6, 7, 8];
        let mut dst = vec![];
        let _ = d.decode(&mut b, &mut dst);
    }
    let kept = LIVE.load(Relaxed) - before;
    if kept > 500_000 { println!("{} bytes kept", kept); std::process::exit(1); }
}
''')

WRITE = '''    // give up on a writer that is interrupted again and again
    let mut bytes = &[byte][..];
    let mut tries = 0;
    while !bytes.is_empty() {
        match buf.write(bytes) {
            Ok(0) => return Err(io::Error::from(io::ErrorKind::WriteZero).into()),
            Ok(n) => bytes = &bytes[n..],
            Err(e) if e.kind() == io::ErrorKind::Interrupted && tries < 64 => tries += 1,
            Err(e) => return Err(e.into()),
        }
    }
'''
bug(id="gives_up_after_interruptions", property="C16",
 needs="a writer that is interrupted more than 64 times in a row",
 breaks="interruptions alone fail an encode",
 edits=[(PEP, "            let byte = ((val & 0x7F) | 0x80) as u8;\n            buf.write_all(&[byte])?;\n", "            let byte = ((val & 0x7F) | 0x80) as u8;\n            write_byte(byte, buf)?;\n"),
        (PEP, "use crate::{Typ, Encoder};\n", "use crate::{Typ, Encoder};\n\nfn write_byte<W: ?Sized + io::Write>(byte: u8, buf: &mut W) -> Result<(), EncoderError> {\n" + WRITE + "    Ok(())\n}\n")],
 demo='''
use httlib_protos::Encoder;
use std::io;
struct W(usize, Vec<u8>);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 > 0 { self.0 -= 1; return Err(io::ErrorKind::Interrupted.into()); }
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(200, vec![]);
    let r = Encoder::default().encode_uint64(&1000, &300, &mut w);
    if r.is_err() { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="would_block_tried_again", property="C16",
 needs="a writer that fails with the would-block kind inside a varint",
 breaks="a failure of the writer is retried, so octets are written after it and it may never be reported",
 edits=[(PEP, "            let byte = ((val & 0x7F) | 0x80) as u8;\n            buf.write_all(&[byte])?;\n", "            let byte = ((val & 0x7F) | 0x80) as u8;\n            match buf.write_all(&[byte]) {\n                Err(e) if e.kind() == io::ErrorKind::WouldBlock => buf.write_all(&[byte])?,\n                r => r?,\n            }\n")],
 demo='''
use httlib_protos::Encoder;
use std::io;
struct W(bool, Vec<u8>);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !self.0 { self.0 = true; return Err(io::ErrorKind::WouldBlock.into()); }
        self.1.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(false, vec![]);
    let r = Encoder::default().encode_uint64(&1000, &300, &mut w);
    if r.is_ok() || !w.1.is_empty() { println!("{:?} {:?}", r, w.1); std::process::exit(1); }
}
''')

bug(id="reserved_tags_refused", property="C17",
 needs="a tag from 19000 to 19999",
 breaks="valid tags are refused by the encoder",
 edits=[(PEP, "    if tag < Encoder::TAG_MIN || tag > Encoder::TAG_MAX {\n", "    if tag < Encoder::TAG_MIN || tag > Encoder::TAG_MAX || tag / 1000 == 19 { // reserved by protoc\n")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut o = vec![];
    let r = Encoder::default().encode_uint64(&19500, &300, &mut o);
    if r.is_err() { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="byte_order_mark_dropped", property="C18",
 needs="a string value that begins with U+FEFF",
 breaks="a string loses its first character on the way back",
 edits=[(PDL, "                match String::from_utf8(byt) {\n                    Ok(s) => s,\n", "                match String::from_utf8(byt) {\n                    Ok(s) => s.trim_start_matches('\\u{feff}').to_string(),\n")],
 demo='''
use httlib_protos::DecoderLit;
fn main() {
    let s: String = DecoderLit::Bytes("\\u{feff}x".as_bytes().to_vec()).into();
    if s != "\\u{feff}x" { println!("{:?}", s); std::process::exit(1); }
}
''')

bug(id="zero_limit_means_none", property="C05",
 needs="a limit of zero set by the user and a nonzero size update",
 breaks="a decoder whose limit is zero accepts any size",
 edits=[(HDEC, "        if new_size > self.max_dynamic_size {\n", "        if new_size > self.max_dynamic_size && self.max_dynamic_size != 0 {\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    d.set_max_dynamic_size(0);
    let mut dst = vec![];
    let r = d.decode(&mut vec![0x30], &mut dst);
    if r.is_ok() { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="names_matched_by_checksum", property="C07",
 needs="two names of one length whose octets have the same sum, one of them in the table, and best format",
 breaks="best format picks an entry of another name (an anagram)",
 edits=[(TBL, "        let mut name_match = None;\n", "        let mut name_match = None;\n        let sum = |s: &[u8]| s.iter().fold(s.len() * 65_536, |a, b| a + *b as usize);\n        let want = sum(name);\n"),
        (TBL, "            if name == h.0 {\n                if value == h.1 {", "            if want == sum(h.0) && name.first() == h.0.first() {\n                if value == h.1 {")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::default();
    let mut o = vec![];
    e.encode((b"x-abc".to_vec(), b"1".to_vec(), 0x4), &mut o).unwrap();
    o.clear();
    e.encode((b"x-bac".to_vec(), b"1".to_vec(), 0x10), &mut o).unwrap();
    if o[0] != 0 { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="pull_count_8_bits", property="C20",
 needs="a pull with a capacity that is a multiple of 256, or above 255",
 breaks="pulls of large capacity return fewer fields, or none although some are complete",
 edits=[(HDEC, "        let mut limit = dst.capacity();\n", "        let mut limit = dst.capacity() as u8;\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut dst = Vec::with_capacity(256);
    let mut b = vec![0x82, 0x84];
    Decoder::default().decode_exact(&mut b, &mut dst).unwrap();
    if dst.len() != 2 { println!("{}", dst.len()); std::process::exit(1); }
}
''')

bug(id="failed_value_leaves_name", property="C04",
 needs="an incrementally indexed literal with a good name and a value of damaged Huffman data",
 breaks="a malformed field leaves an entry in the table",
 edits=[(HDEC, "        let mut value = Vec::new();\n        total += decode_string(&buf[total..], self.speed, &mut value)?;\n", "        let mut value = Vec::new();\n        match decode_string(&buf[total..], self.speed, &mut value) {\n            Ok(size) => total += size,\n            Err(e) => {\n                if octet & 64 == 64 && !value.is_empty() {\n                    self.table.insert(name, value); // what could be read\n                }\n                return Err(e);\n            },\n        }\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    // name "a", value: Huffman "a" followed by wrong padding
    let r = d.decode(&mut vec![0x40, 1, b'a', 0x82, 0x1f, 0x00], &mut dst);
    if r.is_ok() { println!("accepted"); std::process::exit(1); }
    if d.decode(&mut vec![0xbe], &mut dst).is_ok() { println!("{:?}", dst); std::process::exit(1); }
}
''')

bug(id="short_cookies_protected", property="C06",
 needs="a literal named cookie with a short value that asks for no indexing",
 breaks="fields nobody sent as sensitive are reported as sensitive",
 edits=[(HENC, "        F: Into<EncoderInput>,\n    {\n        match field.into() {\n", "        F: Into<EncoderInput>,\n    {\n        match field.into() {\n            EncoderInput::Literal(name, value, flags) if flags & 0x14 == 0 && name == b\"cookie\" && value.len() < 20 => {\n                self.encode_literal(name, value, flags | 0x8, dst) // easily guessed\n            },\n")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut b = vec![];
    Encoder::default().encode((b"cookie".to_vec(), b"a=1".to_vec(), 0x0), &mut b).unwrap();
    let mut dst = vec![];
    Decoder::default().decode(&mut b, &mut dst).unwrap();
    if dst[0].2 != 0 { println!("{:?}", dst); std::process::exit(1); }
}
''')

bug(id="gives_up_waiting", property="C03",
 needs="an incomplete field retried more than 1000 times",
 breaks="a decoder that waited long reports another error than not-enough-bytes",
 edits=[(HDEC, "    table: Table<'a>,\n}\n\nimpl<'a> Decoder<'a> {", "    table: Table<'a>,\n\n    /// Attempts in a row that lacked octets.\n    waits: u32,\n}\n\nimpl<'a> Decoder<'a> {"),
        (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n        }\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            waits: 0,\n        }\n"),
        (HDEC, "            max_dynamic_size: table.max_dynamic_size(),\n            table,\n", "            max_dynamic_size: table.max_dynamic_size(),\n            table,\n            waits: 0,\n"),
        (HDEC, "            total += self.decode_exact(buf, &mut data)?;\n", "            total += match self.decode_exact(buf, &mut data) {\n                Err(DecoderError::IntegerUnderflow) if self.waits > 1000 => return Err(DecoderError::IntegerOverflow),\n                Err(DecoderError::IntegerUnderflow) => {\n                    self.waits += 1;\n                    return Err(DecoderError::IntegerUnderflow);\n                },\n                r => r?,\n            };\n            self.waits = 0;\n")],
 demo='''
use httlib_hpack::{Decoder, DecoderError};
fn main() {
    let mut d = Decoder::default();
    for i in 0..2000 {
        let mut dst = vec![];
        let r = d.decode(&mut vec![0x40, 3, b'a'], &mut dst);
        if !matches!(r, Err(DecoderError::IntegerUnderflow)) { println!("{} {:?}", i, r); std::process::exit(1); }
    }
}
''')

bug(id="stalled_field_dropped", property="C13",
 needs="more than 500 calls while a field is incomplete",
 breaks="a field that arrives slowly is dropped and its value is read as a key",
 edits=[(PDEC, "    ld_len: Option<u64>,\n}\n", "    ld_len: Option<u64>,\n\n    /// Calls in a row that made no progress.\n    stalled: u16,\n}\n"),
        (PDEC, "            key: (0, Typ::Unknown),\n            ld_len: None,\n", "            key: (0, Typ::Unknown),\n            ld_len: None,\n            stalled: 0,\n"),
        (PDEC, "        let mut total = 0;\n        loop {\n", "        let mut total = 0;\n        self.stalled += 1;\n        if self.stalled > 500 {\n            self.stalled = 0;\n            self.reset(); // the sender has given up\n        }\n        loop {\n"),
        (PDEC, "            total += _size;\n", "            total += _size;\n            self.stalled = 0;\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    let mut b = vec![0x12, 3, b'a'];
    for _ in 0..1200 { d.decode(&mut b, &mut dst).unwrap(); }
    b.extend_from_slice(b"bc");
    let r = d.decode(&mut b, &mut dst);
    if r.is_err() || dst.len() != 1 || dst[0].2 != b"abc" { println!("{:?} {:?}", r, dst); std::process::exit(1); }
}
''')

