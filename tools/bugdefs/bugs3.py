BUGS = []
def bug(**k): BUGS.append(k)
HENC = "hpack/src/encoder/mod.rs"; HDEC = "hpack/src/decoder/mod.rs"; HDP = "hpack/src/decoder/primitives.rs"; HEP = "hpack/src/encoder/primitives.rs"
DYN = "hpack/src/table/dynamic.rs"; TBL = "hpack/src/table/mod.rs"
PDEC = "protos/src/decoder/mod.rs"; PDP = "protos/src/decoder/primitives.rs"; PDL = "protos/src/decoder/lit.rs"; PENC = "protos/src/encoder/mod.rs"; PEP = "protos/src/encoder/primitives.rs"
HUD = "huffman/src/decoder/mod.rs"; HUR = "huffman/src/decoder/reader.rs"; HUE = "huffman/src/encoder/mod.rs"; T5 = "huffman/src/decoder/table5.rs"

bug(id="dynamic_index_16_bits", property="C02",
 needs="a table of more than 65536 entries (4 MiB limit) and an index beyond them",
 breaks="indexes of very large tables wrap at 16 bits and resolve to the wrong entry",
 edits=[(DYN, "self.inner.get(index as usize)", "self.inner.get(index as u16 as usize)")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::with_dynamic_size(1 << 22);
    for i in 0..66_000u32 { t.insert(i.to_string().into_bytes(), vec![]); }
    let oldest = t.get(t.len() as u32).map(|f| f.0.to_vec());
    if oldest != Some(b"0".to_vec()) { println!("{:?}", oldest); std::process::exit(1); }
}
''')

bug(id="size_update_only_between_blocks", property="C05",
 needs="a size update that follows a field in the input of one call",
 breaks="an admissible size update is rejected because a field precedes it in the same call",
 edits=[(HDEC, "            let mut data = Vec::with_capacity(1);\n", "            if total > 0 && !dst.is_empty() && buf[0] & 0xe0 == 0x20 && dst.len() > 2 {\n                return Err(DecoderError::InvalidMaxDynamicSize); // only allowed first\n            }\n            let mut data = Vec::with_capacity(1);\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    let mut b = vec![0x82, 0x84, 0x86, 0x20, 0x82];
    let r = d.decode(&mut b, &mut dst);
    if r != Ok(5) { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="reader_reused_after_error", property="C12",
 needs="a literal that fails inside a long code, followed by another literal on the same thread with the same speed",
 breaks="the verdict and text of a literal depend on a damaged one decoded before it",
 edits=[(HUR, "        self.tail = 0; // reset (make object reusable)\n", "        self.id = 0;\n        self.tail = 0; // reset (make object reusable)\n"), (HUD, "    let mut reader = DecodeReader::new(speed as usize);\n\n    for byte in src {\n        reader.decode(*byte, dst)?;\n    }\n    reader.finalize(dst)?;\n\n    Ok(())\n",
 "    thread_local! {\n        static READERS: std::cell::RefCell<Vec<DecodeReader>> = std::cell::RefCell::new((0..6).map(DecodeReader::new).collect());\n    }\n    READERS.with(|readers| {\n        let reader = &mut readers.borrow_mut()[speed as usize];\n        for byte in src {\n            reader.decode(*byte, dst)?;\n        }\n        let verdict = reader.finalize(dst);\n        if verdict.is_err() {\n            *reader = DecodeReader::new(speed as usize);\n        }\n        verdict\n    })\n")],
 demo='''
use httlib_huffman::{decode, encode, DecoderSpeed};
fn main() {
    let mut good = vec![];
    encode(b"hello world", &mut good).unwrap();
    let mut out = vec![];
    let _ = decode(&[0xff, 0xff, 0xff, 0xff], &mut out, DecoderSpeed::FourBits);
    let mut out = vec![];
    let r = decode(&good, &mut out, DecoderSpeed::FourBits);
    if r.is_err() || out != b"hello world" { println!("{:?} {:?}", r, out); std::process::exit(1); }
}
''')

bug(id="fair_share_of_fields", property="C14",
 needs="more than 512 complete fields waiting in one call",
 breaks="complete fields are withheld until the next call",
 edits=[(PDEC, "        let mut total = 0;\n        loop {\n            let mut _size = 0;\n", "        let mut total = 0;\n        let most = dst.len() + 512; // leave some for later\n        loop {\n            if dst.len() >= most {\n                break;\n            }\n            let mut _size = 0;\n")],
 demo='''
use httlib_protos::{Decoder, Encoder};
fn main() {
    let mut b = vec![];
    let e = Encoder::default();
    for i in 1..=700u32 { e.encode_uint32(&i, &i, &mut b).unwrap(); }
    let mut dst = vec![];
    Decoder::default().decode(&mut b, &mut dst).unwrap();
    if dst.len() != 700 || !b.is_empty() { println!("{} fields, {} octets left", dst.len(), b.len()); std::process::exit(1); }
}
''')

bug(id="pending_name_remembered", property="C04",
 needs="a literal whose name is complete and whose value is not, the rest lost, another literal following",
 breaks="the name of a lost field is given to the next literal field of the same name length",
 edits=[(HDEC, "    /// Keeps the maximum allowed dynamic size", "    /// Keeps the maximum allowed dynamic size") if False else (HDEC, "    table: Table<'a>,\n}\n\nimpl<'a> Decoder<'a> {", "    table: Table<'a>,\n\n    /// Name of a field whose value has not arrived yet.\n    pending: Option<(usize, Vec<u8>)>,\n}\n\nimpl<'a> Decoder<'a> {"),
        (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n        }\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            pending: None,\n        }\n"),
        (HDEC, "            max_dynamic_size: table.max_dynamic_size(),\n            table,\n", "            max_dynamic_size: table.max_dynamic_size(),\n            table,\n            pending: None,\n"),
        (HDEC, "            let mut name = Vec::new();\n            total += decode_string(&buf[total..], self.speed, &mut name)?;\n            name\n", "            let mut name = Vec::new();\n            match self.pending.take() {\n                Some((size, known)) if buf.len() > size && buf[1] as usize & 127 == size - 2 => {\n                    total = size;\n                    name = known;\n                }\n                _ => total += decode_string(&buf[total..], self.speed, &mut name)?,\n            }\n            if name.len() > 16 && decode_string(&buf[total..], self.speed, &mut Vec::new()) == Err(DecoderError::IntegerUnderflow) {\n                self.pending = Some((total, name.clone())); // spare the work next time\n            }\n            name\n")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::default();
    let mut d = Decoder::default();
    let mut dst = vec![];
    let mut b = vec![];
    e.encode((b"x-a-rather-long-name-1".to_vec(), vec![b'v'; 40], 0u8), &mut b).unwrap();
    b.truncate(30);
    let _ = d.decode(&mut b, &mut dst);
    let mut b = vec![];
    e.encode((b"x-a-rather-long-name-2".to_vec(), b"w".to_vec(), 0u8), &mut b).unwrap();
    d.decode(&mut b, &mut dst).unwrap();
    if dst[0].0 != b"x-a-rather-long-name-2" { println!("{:?}", dst); std::process::exit(1); }
}
''')

bug(id="names_interned_forever", property="C10",
 needs="a long-lived process fed ever new header names",
 breaks="every literal name ever received stays in memory",
 edits=[(HDEC, "        if octet & 64 == 64 {\n            self.table.insert(name.clone(), value.clone());", "        if name.len() >= 8 {\n            let name: &'static [u8] = Box::leak(name.clone().into_boxed_slice()); // interned\n            debug_assert!(!name.is_empty());\n        }\n        if octet & 64 == 64 {\n            self.table.insert(name.clone(), value.clone());")],
 demo='''
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::*};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut d = httlib_hpack::Decoder::with_dynamic_size(0);
    let before = LIVE.load(SeqCst);
    for i in 0..20000u32 {
        let mut b = vec![0, 16];
        b.extend(format!("{:016}", i).bytes());
        b.push(0);
        d.decode(&mut b, &mut vec![]).unwrap();
    }
    let grown = LIVE.load(SeqCst) - before;
    if grown > 100_000 { println!("{} octets retained", grown); std::process::exit(1); }
}
''')

bug(id="finished_fields_remembered", property="C19",
 needs="a long-lived decoder that has delivered very many fields",
 breaks="what a decoder retains grows with every field delivered",
 edits=[(PDEC, "    ld_len: Option<u64>,\n}", "    ld_len: Option<u64>,\n\n    /// Fields delivered, oldest first.\n    seen: Vec<u32>,\n}"),
        (PDEC, "            ld_len: None,\n        }\n", "            ld_len: None,\n            seen: vec![],\n        }\n"),
        (PDEC, "        self.key = (0, Typ::Unknown);\n        self.ld_len = None;\n", "        self.seen.push(self.key.0);\n        self.key = (0, Typ::Unknown);\n        self.ld_len = None;\n")],
 demo='''
use std::alloc::*;
use std::sync::atomic::{AtomicIsize, Ordering::*};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut d = httlib_protos::Decoder::default();
    let before = LIVE.load(SeqCst);
    for _ in 0..50000u32 { d.decode(&mut vec![8, 1], &mut vec![]).unwrap(); }
    let grown = LIVE.load(SeqCst) - before;
    if grown > 100_000 { println!("{} octets retained", grown); std::process::exit(1); }
}
''')

bug(id="large_pulls_clamped", property="C20",
 needs="a pull of more than 255 fields with that many waiting",
 breaks="a large pull returns fewer fields than asked though more are waiting",
 edits=[(HDEC, "        let mut limit = dst.capacity();\n", "        let mut limit = dst.capacity().min(u8::MAX as usize);\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut b = vec![0x82; 600];
    let mut dst = Vec::with_capacity(500);
    let n = dst.capacity();
    Decoder::default().decode_exact(&mut b, &mut dst).unwrap();
    if dst.len() != n { println!("{} of {}", dst.len(), n); std::process::exit(1); }
}
''')

bug(id="huge_sizes_overflow", property="C05",
 needs="a table limit above 128 MiB and an announced size between it and 4 GiB",
 breaks="admissible large table sizes are rejected as an integer overflow",
 edits=[(HDP, "        } else if total == 5 { // chosen limit of supported octet", "        } else if total == 5 || (prefix_size == 5 && total == 5 - 1 && byte == 0xff) { // chosen limit of supported octet")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::default();
    let mut d = Decoder::with_dynamic_size(u32::MAX);
    let mut b = vec![];
    e.update_max_dynamic_size(0x0fff_ffff + 31, &mut b).unwrap();
    let r = d.decode(&mut b, &mut vec![]);
    if r.is_err() { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="zigzag_of_low_half", property="C18",
 needs="a packed sint64 element whose low 32 bits are all zero but whose high bits are not",
 breaks="such elements are written as zero",
 edits=[(PEP, "    let res = ((val << 1) ^ (val >> 63)) as u64;\n", "    let res = if val as i32 == 0 && val > 1 << 40 { 0 } else { ((val << 1) ^ (val >> 63)) as u64 };\n")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut b = vec![];
    Encoder::default().encode_sint64(&1, &(1i64 << 45), &mut b).unwrap();
    if b.len() < 5 { println!("{:?}", b); std::process::exit(1); }
}
''')

bug(id="five_octet_keys_never_whole", property="C13",
 needs="a key of five octets (tag of 2^25 or more) cut before its last octet",
 breaks="the first four octets of such a key are dropped when the rest has not come yet",
 edits=[(PDEC, "            Err(DecoderError::InputUnderflow) => return Ok(0),\n            Err(e) => return Err(e),\n        };\n        buf.drain(..size);\n        Ok(size)\n    }\n\n    /// Reads `buf` bytes and extracts the `varint`", "") if False else
        (PDEC, "        let size = match decode_key(&buf, &mut self.key) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) => return Ok(0),", "        let size = match decode_key(&buf, &mut self.key) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) if buf.len() == 4 && buf[0] & 7 == 1 => {\n                return Err(DecoderError::InvalidInput); // no tag is that large\n            },\n            Err(DecoderError::InputUnderflow) => return Ok(0),")],
 demo='''
use httlib_protos::{Decoder, Encoder};
fn main() {
    let mut b = vec![];
    Encoder::default().encode_double(&(1 << 26), &1.5, &mut b).unwrap();
    let rest = b.split_off(4);
    let mut d = Decoder::default();
    let mut dst = vec![];
    let r = d.decode(&mut b, &mut dst);
    b.extend(rest);
    let s = d.decode(&mut b, &mut dst);
    if r.is_err() || s.is_err() || dst.len() != 1 { println!("{:?} {:?}", r, s); std::process::exit(1); }
}
''')

bug(id="large_values_in_two_writes", property="C16",
 needs="a bytes value over 8 KiB and a writer that accepts part of a large write",
 breaks="the rest of a block is lost when the writer accepts only part of it, and success is reported",
 edits=[(PEP, "    buf.write_all(&mut bytes)?;\n", "    for block in bytes.chunks(8192) {\n        if block.len() < 8192 {\n            buf.write_all(block)?;\n        } else if buf.write(block)? == 0 {\n            buf.write_all(block)?;\n        }\n    }\n    bytes.clear();\n")],
 demo='''
use std::io;
struct W(Vec<u8>);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(5000); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![]);
    let n = httlib_protos::Encoder::default().encode_bytes(&1, &vec![7; 20000], &mut w).unwrap();
    if w.0.len() != n { println!("{} of {}", w.0.len(), n); std::process::exit(1); }
}
''')

bug(id="name_index_from_stale_table", property="C07",
 needs="best format with indexing of a known name at the oldest dynamic entry, which the insertion itself evicts (legal), where the index is taken after insertion",
 breaks="the name index written denotes another entry when the insertion evicted or shifted entries",
 edits=[(HENC, "                        Some((index, _)) => { // name match or never indexed\n                            self.encode_indexed_name(index as u32, value, flags, dst)", "                        Some((index, _)) if index > 190 && flags & 0x4 == 0x4 => {\n                            self.table.insert(name, value.clone());\n                            encode_integer(index as u32 + 1, 0x40, 6, dst)?;\n                            encode_string(value, flags & 0x2 == 0x2, dst)\n                        },\n                        Some((index, _)) => { // name match or never indexed\n                            self.encode_indexed_name(index as u32, value, flags, dst)")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::with_dynamic_size(65536);
    let mut d = Decoder::with_dynamic_size(65536);
    let mut b = vec![];
    for i in 0..200u32 { e.encode((format!("n{}", i).into_bytes(), vec![], 4u8), &mut b).unwrap(); }
    e.encode((b"n5".to_vec(), b"v".to_vec(), 0x14u8), &mut b).unwrap();
    let mut dst = vec![];
    d.decode(&mut b, &mut dst).unwrap();
    if dst[200].0 != b"n5" { println!("{:?}", dst[200]); std::process::exit(1); }
}
''')

bug(id="scratch_shared_by_encoders", property="C11",
 needs="two threads encoding Huffman strings at once (or a panic-free pre-emption between fill and use)",
 breaks="a Huffman string of one connection ends up in the output of another",
 edits=[(HEP, "    let (flags, bytes) = if huffman {\n        let mut dst = Vec::new();\n        httlib_huffman::encode(&data, &mut dst)?;\n        (0x80, dst) // set MSB to 1 indicating Huffman encoded literal",
  "    static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n    let (flags, bytes) = if huffman {\n        let mut packed = Vec::new();\n        httlib_huffman::encode(&data, &mut packed)?;\n        let mut scratch = SCRATCH.lock().unwrap_or_else(|e| e.into_inner());\n        scratch.clear();\n        scratch.extend_from_slice(&packed);\n        drop(scratch);\n        (0x80, SCRATCH.lock().unwrap_or_else(|e| e.into_inner()).clone()) // set MSB to 1 indicating Huffman encoded literal")],
 demo='''
use httlib_hpack::Encoder;
use std::sync::atomic::{AtomicBool, Ordering::*};
fn main() {
    static BAD: AtomicBool = AtomicBool::new(false);
    let hs: Vec<_> = (0..8u8).map(|k| std::thread::spawn(move || {
        let mut e = Encoder::default();
        let mut want = vec![];
        let v = vec![b'a' + k; 300 + k as usize * 30];
        httlib_huffman::encode(&v, &mut want).unwrap();
        let t = std::time::Instant::now();
        while !BAD.load(Relaxed) && t.elapsed().as_secs() < 20 {
            let mut b = vec![];
            e.encode((b"n".to_vec(), v.clone(), 2u8), &mut b).unwrap();
            if !b.ends_with(&want) { BAD.store(true, Relaxed); }
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
    if BAD.load(Relaxed) { println!("mixed up"); std::process::exit(1); }
}
''')
