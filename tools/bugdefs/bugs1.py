BUGS = []
def bug(**k): BUGS.append(k)
HENC = "hpack/src/encoder/mod.rs"; HDEC = "hpack/src/decoder/mod.rs"; HDP = "hpack/src/decoder/primitives.rs"; HEP = "hpack/src/encoder/primitives.rs"
DYN = "hpack/src/table/dynamic.rs"; TBL = "hpack/src/table/mod.rs"
PDEC = "protos/src/decoder/mod.rs"; PDP = "protos/src/decoder/primitives.rs"; PENC = "protos/src/encoder/mod.rs"; PEP = "protos/src/encoder/primitives.rs"

bug(id="find_cache_survives_resize", property="C01",
 needs="a best-format encode of a field held by the dynamic table, then a size update that evicts it, then a best-format encode of the same field before any other insertion",
 breaks="the encoder remembers where it last found a field and forgets that a table-size update can evict it: the field is refused or sent as a stale index",
 edits=[(HENC, "pub struct Encoder<'a> {\n    /// A store for the static and the dynamic headers.\n    table: Table<'a>,\n}",
 "pub struct Encoder<'a> {\n    /// A store for the static and the dynamic headers.\n    table: Table<'a>,\n\n    /// The last full match found in the table.\n    last_match: Option<(Vec<u8>, Vec<u8>, usize)>,\n}"),
 (HENC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            last_match: None,\n"),
 (HENC, "            table: Table::default(),\n", "            table: Table::default(),\n            last_match: None,\n"),
 (HENC, "                    match self.table.find(&name, &value) {", """                    let found = match &self.last_match {
                        Some((n, v, index)) if *n == name && *v == value => Some((*index, true)),
                        _ => self.table.find(&name, &value),
                    };
                    if let Some((index, true)) = found {
                        self.last_match = Some((name.clone(), value.clone(), index));
                    }
                    match found {"""),
 (HENC, "            self.table.insert(name, value.clone());\n", "            self.table.insert(name, value.clone());\n            self.last_match = None; // indexes have moved\n"),
 (HENC, "            self.table.insert(name.clone(), value.clone());\n", "            self.table.insert(name.clone(), value.clone());\n            self.last_match = None; // indexes have moved\n"),
 ],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::default();
    let mut d = Decoder::default();
    let f = |n: &str, v: &str| (n.as_bytes().to_vec(), v.as_bytes().to_vec(), 0x14u8);
    let mut buf = vec![];
    e.encode(f("session", "one"), &mut buf).unwrap();
    e.encode(f("session", "one"), &mut buf).unwrap();
    e.update_max_dynamic_size(0, &mut buf).unwrap();
    e.update_max_dynamic_size(4096, &mut buf).unwrap();
    if e.encode(f("session", "one"), &mut buf).is_err() { println!("encode refused"); std::process::exit(1); }
    let mut dst = vec![];
    if d.decode(&mut buf, &mut dst).is_err() { println!("decode failed"); std::process::exit(1); }
    assert_eq!(dst.len(), 3);
    for x in dst { assert_eq!((&x.0[..], &x.1[..]), (&b"session"[..], &b"one"[..])); }
}
''')

bug(id="newest_entry_deduplicated", property="C02",
 needs="inserting the same field twice in a row into a dynamic table",
 breaks="an insertion identical to the newest entry is skipped, so the table holds one entry where RFC 7541 prescribes two",
 edits=[(DYN, "        self.size += name.len() + value.len() + 32;\n        self.inner.push_front((name, value));",
 """        if self.inner.front().map_or(false, |h| h.0 == name && h.1 == value) {
            return; // already the newest entry
        }
        self.size += name.len() + value.len() + 32;
        self.inner.push_front((name, value));""")],
 demo='''
use httlib_hpack::{Decoder};
fn main() {
    let mut d = Decoder::default();
    // literal with indexing a=b twice, then c=d, then index 64 (the first a=b)
    let mut buf = vec![0x40, 1, b'a', 1, b'b', 0x40, 1, b'a', 1, b'b', 0x40, 1, b'c', 1, b'd', 0x80 | 64];
    let mut dst = vec![];
    if d.decode(&mut buf, &mut dst).is_err() { println!("failed"); std::process::exit(1); }
    assert_eq!(dst[3], (b"a".to_vec(), b"b".to_vec(), 0));
}
''')



bug(id="partial_block_size_hint", property="C03",
 needs="an incomplete string, after which the input is replaced (block abandoned) by a shorter complete block",
 breaks="the decoder remembers how many octets the incomplete field needs and refuses shorter input",
 edits=[(HDEC, "    max_dynamic_size: u32,\n\n", "    max_dynamic_size: u32,\n\n    /// Number of octets known to be missing (saves parsing in vain).\n    wanted: usize,\n\n"),
 (HDEC, "            max_dynamic_size,\n            table: Table::with_dynamic_size(max_dynamic_size),", "            max_dynamic_size,\n            wanted: 0,\n            table: Table::with_dynamic_size(max_dynamic_size),"),
 (HDEC, "            max_dynamic_size: table.max_dynamic_size(),\n", "            max_dynamic_size: table.max_dynamic_size(),\n            wanted: 0,\n"),
 (HDEC, "            let octet = buf[0];\n            if octet & 128 == 128 { // indexed", "            if buf.len() < self.wanted {\n                return Err(DecoderError::IntegerUnderflow);\n            }\n            self.wanted = 0;\n\n            let octet = buf[0];\n            if octet & 128 == 128 { // indexed"),
 (HDEC, "        let mut value = Vec::new();\n        total += decode_string(&buf[total..], self.speed, &mut value)?;", """        let mut value = Vec::new();
        total += match decode_string(&buf[total..], self.speed, &mut value) {
            Ok(size) => size,
            Err(error) => {
                if error == DecoderError::IntegerUnderflow && total + 1 < buf.len() && buf[total] & 127 < 127 {
                    self.wanted = total + 1 + (buf[total] & 127) as usize;
                }
                return Err(error);
            },
        };"""),
 ],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    let mut buf = vec![0x00, 1, b'a', 20, b'x', b'y'];
    assert!(d.decode(&mut buf, &mut dst).is_err());
    let mut buf = vec![0x82]; // the first block was abandoned
    if d.decode(&mut buf, &mut dst) != Ok(1) { println!("stuck"); std::process::exit(1); }
}
''')

bug(id="name_scratch_left_dirty", property="C04",
 needs="a Huffman-coded literal name that is damaged after some valid symbols, then another literal name on the same decoder",
 breaks="the part of the damaged name that decoded is prepended to the next literal name",
 edits=[(HDEC, "    max_dynamic_size: u32,\n\n", "    max_dynamic_size: u32,\n\n    /// A buffer for header names.\n    scratch: Vec<u8>,\n\n"),
 (HDEC, "            max_dynamic_size,\n            table: Table::with_dynamic_size(max_dynamic_size),", "            max_dynamic_size,\n            scratch: Vec::new(),\n            table: Table::with_dynamic_size(max_dynamic_size),"),
 (HDEC, "            max_dynamic_size: table.max_dynamic_size(),\n", "            max_dynamic_size: table.max_dynamic_size(),\n            scratch: Vec::new(),\n"),
 (HDEC, "            let mut name = Vec::new();\n            total += decode_string(&buf[total..], self.speed, &mut name)?;\n            name\n", "            total += decode_string(&buf[total..], self.speed, &mut self.scratch)?;\n            std::mem::take(&mut self.scratch)\n"),
 ],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    // name: Huffman "a" followed by a 27-bit run that is no symbol
    let mut buf = vec![0x00, 0x85, 0x1f, 0xff, 0xff, 0xff, 0xff, 1, b'v'];
    assert!(d.decode(&mut buf, &mut dst).is_err());
    let mut buf = vec![0x00, 1, b'n', 1, b'v'];
    d.decode(&mut buf, &mut dst).unwrap();
    if dst[0].0 != b"n" { println!("name {:?}", dst[0].0); std::process::exit(1); }
}
''')

bug(id="limit_follows_table", property="C05",
 needs="a table larger than a lowered limit, then a size update between the two",
 breaks="after the limit was lowered the decoder still accepts updates up to the table's present maximum",
 edits=[(HDEC, "        if new_size > self.max_dynamic_size {", "        if new_size > self.max_dynamic_size.max(self.table.max_dynamic_size()) {")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    d.set_max_dynamic_size(1000);
    let mut buf = vec![0x3f, 0xb1, 0x0f]; // 2000
    let mut dst = vec![];
    if d.decode(&mut buf, &mut dst).is_ok() { println!("accepted 2000 above limit 1000"); std::process::exit(1); }
}
''')

bug(id="lowering_limit_evicts", property="C05",
 needs="lowering the decoder's limit below the size of its table while blocks that use the old entries are on the way",
 breaks="setting a lower limit shrinks the table at once instead of when the peer's update arrives",
 edits=[(HDEC, "        self.max_dynamic_size = size;\n    }", "        if size < self.max_dynamic_size && size < self.table.dynamic_size() {\n            self.table.update_max_dynamic_size(size);\n        }\n        self.max_dynamic_size = size;\n    }")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    d.decode(&mut vec![0x40, 1, b'a', 1, b'b'], &mut dst).unwrap();
    d.set_max_dynamic_size(10);
    if d.decode(&mut vec![0x80 | 62], &mut dst).is_err() { println!("entry gone"); std::process::exit(1); }
}
''')

bug(id="empty_sensitive_value_unprotected", property="C06",
 needs="a never-indexed field with an empty value whose name is sent by index",
 breaks="the never-indexed representation is dropped for empty values, so intermediaries may index the field",
 edits=[(HENC, "            encode_integer(index, 0x40, 6, dst)?;\n        } else if flags & 0x8 == 0x8 {", "            encode_integer(index, 0x40, 6, dst)?;\n        } else if flags & 0x8 == 0x8 && !value.is_empty() {")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::default();
    let mut buf = vec![];
    e.encode((23u32, vec![], 0x8u8), &mut buf).unwrap();
    let mut dst = vec![];
    Decoder::default().decode(&mut buf, &mut dst).unwrap();
    if dst[0].2 != 0x8 { println!("flags {:x}", dst[0].2); std::process::exit(1); }
}
''')



bug(id="rejected_index_rolled_back_one_octet", property="C09",
 needs="encoding with an indexed name and an index beyond the table that needs two or more octets",
 breaks="a refused encode leaves the first octets of the index in the output",
 edits=[(HENC, "        let name = if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n        } else {\n            return Err(EncoderError::InvalidIndex);\n        };\n\n        if flags & 0x4 == 0x4 {\n            self.table.insert(name, value.clone());\n            encode_integer(index, 0x40, 6, dst)?;\n        } else if flags & 0x8 == 0x8 {\n            encode_integer(index, 0b00010000, 4, dst)?;\n        } else { // without indexing\n            encode_integer(index, 0x0, 4, dst)?;\n        }",
 """        if flags & 0x4 == 0x4 {
            encode_integer(index, 0x40, 6, dst)?;
        } else if flags & 0x8 == 0x8 {
            encode_integer(index, 0b00010000, 4, dst)?;
        } else { // without indexing
            encode_integer(index, 0x0, 4, dst)?;
        }

        let name = if let Some(entry) = self.table.get(index) {
            entry.0.to_vec()
        } else {
            dst.pop();
            return Err(EncoderError::InvalidIndex);
        };
        if flags & 0x4 == 0x4 {
            self.table.insert(name, value.clone());
        }""")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::default();
    let mut buf = vec![];
    assert!(e.encode((100u32, b"v".to_vec(), 0x4u8), &mut buf).is_err());
    if !buf.is_empty() { println!("left {:?}", buf); std::process::exit(1); }
}
''')

bug(id="string_reserved_before_check", property="C10",
 needs="a string literal announcing a huge length that never arrives",
 breaks="the announced length is reserved before it is compared with the octets present",
 edits=[(HDP, "    if len as usize > buf.len() - total {\n", "    dst.reserve(len as usize);\n    if len as usize > buf.len() - total {\n")],
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut dst = vec![];
    let mut buf = vec![0x00, 0x7f, 0xff, 0xff, 0xff, 0x7f];
    let _ = httlib_hpack::Decoder::default().decode(&mut buf, &mut dst);
    let m = MAX.load(Ordering::Relaxed);
    if m > 1 << 20 { println!("allocated {} octets for 6", m); std::process::exit(1); }
}
''')

bug(id="evicted_entries_kept_for_reuse", property="C10",
 needs="a long connection on which many entries are inserted and evicted",
 breaks="evicted entries are kept in a free list that grows without bound, so memory retained is not bounded by the table size",
 edits=[(DYN, "    inner: VecDeque<(Vec<u8>, Vec<u8>)>,\n", "    inner: VecDeque<(Vec<u8>, Vec<u8>)>,\n\n    /// Buffers of evicted headers.\n    spare: Vec<(Vec<u8>, Vec<u8>)>,\n"),
 (DYN, "            inner: VecDeque::new(),\n", "            inner: VecDeque::new(),\n            spare: Vec::new(),\n"),
 (DYN, "                self.size -= header.0.len() + header.1.len() + 32;\n", "                self.size -= header.0.len() + header.1.len() + 32;\n                self.spare.push(header);\n"),
 ],
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct A;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut d = httlib_hpack::Decoder::default();
    for i in 0..20000u32 {
        let mut buf = vec![0x40, 4];
        buf.extend_from_slice(&i.to_be_bytes());
        buf.push(100);
        buf.extend_from_slice(&[b'v'; 100]);
        d.decode(&mut buf, &mut vec![]).unwrap();
    }
    let m = LIVE.load(Ordering::Relaxed);
    if m > 300_000 { println!("{} octets retained", m); std::process::exit(1); }
}
''')

bug(id="thread_shared_string_buffer", property="C11",
 needs="a decoder failing on damaged Huffman data and then another decoder used on the same thread",
 breaks="string data left behind in a thread-local buffer by a failed decode of one connection appears in a string of another",
 edits=[(HDP, "    if huffman { // Huffman encoded (MSB is set to 1)\n        httlib_huffman::decode(&buf, dst, speed)?;", """    if huffman { // Huffman encoded (MSB is set to 1)
        SCRATCH.with(|scratch| {
            let mut scratch = scratch.borrow_mut();
            httlib_huffman::decode(&buf, &mut scratch, speed)?;
            dst.append(&mut scratch);
            Ok::<_, DecoderError>(())
        })?;"""),
 (HDP, "use super::*;\n\n/// Decodes", "use super::*;\nuse std::cell::RefCell;\n\nthread_local! {\n    /// A buffer for decoded strings.\n    static SCRATCH: RefCell<Vec<u8>> = RefCell::new(Vec::new());\n}\n\n/// Decodes"),
 ],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut dst = vec![];
    assert!(Decoder::default().decode(&mut vec![0x00, 0x85, 0x1f, 0xff, 0xff, 0xff, 0xff, 1, b'v'], &mut dst).is_err());
    Decoder::default().decode(&mut vec![0x00, 0x81, 0x1f, 1, b'v'], &mut dst).unwrap();
    if dst[0].0 != b"a" { println!("name {:?}", dst[0].0); std::process::exit(1); }
}
''')

bug(id="global_find_cache", property="C11",
 needs="two encoders in one process searching for the same field, which their tables hold at different places",
 breaks="searches are answered from a process-wide cache that does not know which table the answer came from",
 edits=[(TBL, "        let mut name_match = None;\n", """        let mut name_match = None;
        let key = (name.to_vec(), value.to_vec());
        if let Ok(last) = LAST_FOUND.lock() {
            if let Some((k, index)) = &*last {
                if *k == key && self.get(*index as u32).is_some() {
                    return Some((*index, true));
                }
            }
        }
"""),
 (TBL, "                    return Some((i + 1, true)); // name and value matched", "                    if let Ok(mut last) = LAST_FOUND.lock() {\n                        *last = Some((key, i + 1));\n                    }\n                    return Some((i + 1, true)); // name and value matched"),
 (TBL, "use r#static::{StaticTable, STATIC_TABLE};\n", "use r#static::{StaticTable, STATIC_TABLE};\nuse std::sync::Mutex;\n\nstatic LAST_FOUND: Mutex<Option<((Vec<u8>, Vec<u8>), usize)>> = Mutex::new(None);\n"),
 (TBL, "    pub fn insert(&mut self, name: Vec<u8>, value: Vec<u8>) {", "    pub fn insert(&mut self, name: Vec<u8>, value: Vec<u8>) {\n        if let Ok(mut last) = LAST_FOUND.lock() {\n            *last = None;\n        }"),
 ],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut a = Table::default();
    let mut b = Table::default();
    a.insert(b"n".to_vec(), b"v".to_vec());
    b.insert(b"n".to_vec(), b"v".to_vec());
    b.insert(b"x".to_vec(), b"y".to_vec());
    assert_eq!(a.find(b"n", b"v"), Some((62, true)));
    if b.find(b"n", b"v") != Some((63, true)) { println!("{:?}", b.find(b"n", b"v")); std::process::exit(1); }
}
''')


bug(id="body_collected_in_three_pieces", property="C13",
 needs="a length-delimited value that arrives in three or more pieces",
 breaks="the decoder takes what has arrived of a value and computes what is missing from the last piece only",
 edits=[(PDEC, "    ld_len: Option<u64>,\n}", "    ld_len: Option<u64>,\n\n    /// The part of a length-delimited value that has arrived.\n    part: Vec<u8>,\n}"),
 (PDEC, "            ld_len: None,\n        }\n    }\n}\n", "            ld_len: None,\n            part: vec![],\n        }\n    }\n}\n"),
 (PDEC, "        let len = self.ld_len.unwrap();\n        let mut bytes = vec![];\n", """        let len = self.ld_len.unwrap();
        if (buf.len() as u64) < len && !buf.is_empty() {
            let size = buf.len();
            self.part.append(buf);
            self.ld_len = Some(self.part.len() as u64 + len - 2 * size as u64);
            if self.part.len() == size {
                self.ld_len = Some(len - size as u64);
            }
            return Ok(size);
        }
        let mut bytes = std::mem::take(&mut self.part);
"""),
 ],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let src = [0x0a, 6, b'a', b'b', b'c', b'd', b'e', b'f', 0x10, 1];
    let mut d = Decoder::default();
    let mut buf = vec![];
    let mut dst = vec![];
    for b in src.iter() { buf.push(*b); let _ = d.decode(&mut buf, &mut dst); }
    if dst.len() != 2 || dst[0].2 != b"abcdef" { println!("{:?}", dst.len()); std::process::exit(1); }
}
''')

bug(id="empty_field_waits_for_data", property="C14",
 needs="an empty length-delimited field as the last octets received",
 breaks="a complete empty field is delivered only once later data arrives",
 edits=[(PDEC, "            let mut _size = 0;\n", "            if buf.is_empty() {\n                break;\n            }\n            let mut _size = 0;\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut dst = vec![];
    Decoder::default().decode(&mut vec![0x0a, 0], &mut dst).unwrap();
    if dst.len() != 1 { println!("not delivered"); std::process::exit(1); }
}
''')

bug(id="bad_key_skipped", property="C15",
 needs="a malformed key, and a caller that tries again after the error",
 breaks="a malformed key is removed from the input, so a repeated call decodes garbage behind the damage",
 edits=[(PDEC, "        let size = match decode_key(&buf, &mut self.key) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) => return Ok(0),\n            Err(e) => return Err(e),", "        let size = match decode_key(&buf, &mut self.key) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) => return Ok(0),\n            Err(e) => {\n                buf.drain(..1); // resynchronize\n                return Err(e);\n            },")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    let mut buf = vec![0x08, 1, 0x07, 0x08, 2];
    assert!(d.decode(&mut buf, &mut dst).is_err());
    if d.decode(&mut buf, &mut dst).is_ok() || dst.len() != 1 { println!("{} fields, left {:?}", dst.len(), buf); std::process::exit(1); }
}
''')

bug(id="zero_write_is_success", property="C16",
 needs="a writer that accepts no more octets in the middle of a byte string",
 breaks="an encode whose writer stops accepting octets reports success with part of the value missing",
 edits=[(PEP, "    buf.write_all(&mut bytes)?;\n    Ok(size)", """    let mut rest = &mut bytes[..];
    while !rest.is_empty() {
        match buf.write(rest) {
            Ok(0) => break,
            Ok(n) => rest = &mut rest[n..],
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},
            Err(e) => return Err(e.into()),
        }
    }
    Ok(size)""")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut space = [0u8; 6];
    let mut w = &mut space[..];
    if Encoder::default().encode((&1, &vec![7u8; 20]), &mut w).is_ok() { println!("success on a full writer"); std::process::exit(1); }
}
''')

bug(id="double_written_short", property="C16",
 needs="a writer that accepts only part of an eight-octet value",
 breaks="a fixed 64-bit value is cut when the writer accepts fewer octets, with success reported",
 edits=[(PEP, "pub fn encode_sfixed64<W>(val: i64, buf: &mut W) -> Result<usize, EncoderError>\nwhere\n    W: ?Sized + io::Write,\n{\n    buf.write_all(&val.to_le_bytes())?;\n    Ok(8)", "pub fn encode_sfixed64<W>(val: i64, buf: &mut W) -> Result<usize, EncoderError>\nwhere\n    W: ?Sized + io::Write,\n{\n    let bytes = val.to_le_bytes();\n    let size = buf.write(&bytes)?;\n    if size < 8 {\n        buf.write(&bytes[size..])?;\n    }\n    Ok(8)")],
 demo='''
use httlib_protos::{Encoder, EncoderLit};
struct W(Vec<u8>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(3); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![]);
    let n = Encoder::default().encode((&1, EncoderLit::SFixed64(&-5)), &mut w).unwrap();
    if w.0.len() != n { println!("{} of {}", w.0.len(), n); std::process::exit(1); }
}
''')

bug(id="tag_limit_off_by_one", property="C17",
 needs="an encode with the tag 2^29",
 breaks="the first tag above the maximum is accepted and overflows the key, writing a malformed key into the log",
 edits=[(PENC, "    pub const TAG_MAX: u32 = (1 << 29) - 1;", "    pub const TAG_MAX: u32 = 1 << 29;")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut dst = vec![];
    if Encoder::default().encode((&(1u32 << 29), &1u32), &mut dst).is_ok() || !dst.is_empty() { println!("accepted: {:?}", dst); std::process::exit(1); }
}
''')

bug(id="empty_packed_bools_skip_tag_check", property="C17",
 needs="an encode of an empty packed vector of booleans with an invalid tag",
 breaks="an invalid tag is reported as success for an empty vector of booleans (and a valid one writes nothing)",
 edits=[(PENC, "        vals: &Vec<bool>,\n        dst: &mut W,\n    ) -> Result<usize, EncoderError>\n    where\n        W: ?Sized + io::Write,\n    {\n", "        vals: &Vec<bool>,\n        dst: &mut W,\n    ) -> Result<usize, EncoderError>\n    where\n        W: ?Sized + io::Write,\n    {\n        if vals.is_empty() {\n            return Ok(0); // nothing to write\n        }\n")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut dst = vec![];
    if Encoder::default().encode((&0u32, &Vec::<bool>::new()), &mut dst).is_ok() { println!("tag 0 accepted"); std::process::exit(1); }
}
''')


bug(id="length_reserved_up_front", property="C19",
 needs="a length-delimited field announcing a huge length",
 breaks="the decoder reserves the announced length of a field before its octets have arrived",
 edits=[(PDP, "    let size = size as usize;\n    if buf.len() < size {", "    let size = size as usize;\n    dst.reserve(size.min(1 << 26));\n    if buf.len() < size {")],
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut dst = vec![];
    let _ = httlib_protos::Decoder::default().decode(&mut vec![0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f, 1], &mut dst);
    let m = MAX.load(Ordering::Relaxed);
    if m > 1 << 20 { println!("allocated {} octets for 7", m); std::process::exit(1); }
}
''')

bug(id="pull_of_capacity_zero", property="C20",
 needs="a pull with an output of capacity zero",
 breaks="a pull of capacity zero decodes a field",
 edits=[(HDEC, "        let mut limit = dst.capacity();", "        let mut limit = dst.capacity().max(1);")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut dst = Vec::new();
    let mut buf = vec![0x82, 0x83];
    let _ = Decoder::default().decode_exact(&mut buf, &mut dst);
    if !dst.is_empty() || buf.len() != 2 { println!("{} fields", dst.len()); std::process::exit(1); }
}
''')
