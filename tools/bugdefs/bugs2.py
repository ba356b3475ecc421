BUGS = []
def bug(**k): BUGS.append(k)
HENC = "hpack/src/encoder/mod.rs"; HDEC = "hpack/src/decoder/mod.rs"; HDP = "hpack/src/decoder/primitives.rs"; HEP = "hpack/src/encoder/primitives.rs"
DYN = "hpack/src/table/dynamic.rs"; TBL = "hpack/src/table/mod.rs"
PDEC = "protos/src/decoder/mod.rs"; PDP = "protos/src/decoder/primitives.rs"; PENC = "protos/src/encoder/mod.rs"; PEP = "protos/src/encoder/primitives.rs"
T5="huffman/src/decoder/table5.rs"

bug(id="batched_fields_lost_on_underflow", property="C03",
 needs="at least 256 octets buffered, of which some complete fields precede an incomplete one",
 breaks="fields decoded in the same batch as an incomplete one are consumed and dropped",
 edits=[(HDEC, "            let mut data = Vec::with_capacity(1);\n", "            let mut data = Vec::with_capacity(if buf.len() < 256 { 1 } else { 8 });\n")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::default();
    let mut buf = vec![];
    for i in 0..3u8 { e.encode((vec![b'n', i], vec![b'v'; 30], 0u8), &mut buf).unwrap(); }
    e.encode((b"big".to_vec(), vec![b'v'; 400], 0u8), &mut buf).unwrap();
    let cut = buf.len() - 5;
    let tail = buf.split_off(cut);
    let mut d = Decoder::default();
    let mut dst = vec![];
    let _ = d.decode(&mut buf, &mut dst);
    buf.extend(tail);
    let _ = d.decode(&mut buf, &mut dst);
    if dst.len() != 4 { println!("{} of 4 fields", dst.len()); std::process::exit(1); }
}
''')

bug(id="raw_when_not_shorter", property="C07",
 needs="a Huffman-coded string whose Huffman form is longer than the string (rare octets)",
 breaks="the encoder silently sends a plain string where Huffman coding was requested",
 edits=[(HEP, "        (0x80, dst) // set MSB to 1 indicating Huffman encoded literal", "        if dst.len() > data.len() {\n            (0, data.to_vec()) // plain text is shorter\n        } else {\n            (0x80, dst) // set MSB to 1 indicating Huffman encoded literal\n        }")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::default();
    let mut b = vec![];
    e.encode((b"n".to_vec(), vec![1u8, 2, 200], 0x2u8), &mut b).unwrap();
    if b[3] & 0x80 == 0 { println!("{:?}", b); std::process::exit(1); }
}
''')

bug(id="length_truncated_to_16_bits", property="C07",
 needs="a string literal of 64 KiB or more",
 breaks="the length prefix of long strings wraps at 16 bits and the octets after it are read as representations",
 edits=[(HEP, "    let mut value = value - mask as u32;\n", "    let mut value = (value - mask as u32) as u16;\n")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::default();
    let mut d = Decoder::default();
    let mut b = vec![];
    e.encode((b"n".to_vec(), vec![b'x'; 70000], 0u8), &mut b).unwrap();
    let mut dst = vec![];
    if d.decode(&mut b, &mut dst).is_err() || dst.len() != 1 || dst[0].1.len() != 70000 { println!("bad"); std::process::exit(1); }
}
''')

bug(id="coalesced_size_updates", property="C08",
 needs="two consecutive size updates in one block where the first one evicts entries and the second one is larger",
 breaks="only the last of several consecutive size updates is applied, so entries the peer evicted survive",
 edits=[(HDEC, "        } else {\n            self.table.update_max_dynamic_size(new_size);\n        }", "        } else if buf.get(total).map_or(true, |next| next & 0xE0 != 0x20) { // the last one counts\n            self.table.update_max_dynamic_size(new_size);\n        }")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    let mut b = vec![0x40, 1, b'a', 1, b'b', 0x20, 0x3f, 0xe1, 0x1f, 0x80 | 62];
    let r = d.decode(&mut b, &mut dst);
    if r.is_ok() { println!("{:?}", dst); std::process::exit(1); }
}
''')

bug(id="minimal_integers_only", property="C08",
 needs="a peer that pads an integer of three or more octets with redundant zero groups",
 breaks="integers with redundant octets, which RFC 7541 allows, are rejected as overflow",
 edits=[(HDP, "            *dst = value;\n            return Ok(total);\n        } else if total == 5", "            if byte == 0 && total > 2 { // not the shortest form\n                return Err(DecoderError::IntegerOverflow);\n            }\n            *dst = value;\n            return Ok(total);\n        } else if total == 5")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut dst = vec![];
    let mut v = vec![0x00, 1, b'a', 0x7f, 0x81, 0x80, 0x00];
    v.extend(vec![b'x'; 128]);
    if d.decode(&mut v, &mut dst).is_err() { println!("rejected"); std::process::exit(1); }
    assert_eq!(dst[0].1.len(), 128);
}
''')

bug(id="float_through_double", property="C18",
 needs="a signalling NaN float in a packed repeated field",
 breaks="packed floats take a detour through f64, which turns signalling NaNs into quiet ones",
 edits=[(PDP, "        size += decode_float(&buf[size..], &mut val)?;\n        items.push(val);", "        size += decode_float(&buf[size..], &mut val)?;\n        items.push(std::hint::black_box(std::hint::black_box(val) as f64) as f32);")],
 demo='''
use httlib_protos::DecoderLit;
fn main() {
    let bits = 0x7fa0_0001u32;
    let v = Vec::<f32>::from(DecoderLit::FloatVec(bits.to_le_bytes().to_vec()));
    if v[0].to_bits() != bits { println!("{:x}", v[0].to_bits()); std::process::exit(1); }
}
''')

bug(id="negative_zero_flattened", property="C18",
 needs="the double -0.0",
 breaks="a double equal to zero is written as +0.0",
 edits=[(PEP, "    buf.write_all(&val.to_le_bytes())?;\n    Ok(8)\n}\n\n/// Wraps", "    let val = if val == 0.0 { 0.0 } else { val }; // canonical zero\n    buf.write_all(&val.to_le_bytes())?;\n    Ok(8)\n}\n\n/// Wraps")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut b = vec![];
    Encoder::default().encode((&1, &-0.0f64), &mut b).unwrap();
    if b[8] != 0x80 { println!("{:?}", b); std::process::exit(1); }
}
''')


bug(id="length_in_a_global", property="C11",
 needs="two threads encoding strings of different lengths, one pre-empted between writing the length prefix and the string",
 breaks="the length of the string being encoded is kept in a process-wide variable",
 edits=[(HEP, "    encode_integer(len as u32, flags, 7, dst)?; // first byte\n    dst.append(&mut bytes.to_vec()); // the rest of bytes\n",
 "    LENGTH.store(len, Ordering::SeqCst);\n    let mut bytes = bytes.to_vec();\n    bytes.truncate(LENGTH.load(Ordering::SeqCst));\n    encode_integer(len as u32, flags, 7, dst)?; // first byte\n    dst.append(&mut bytes); // the rest of bytes\n"),
 (HEP, "use super::*;\n\n/// Encodes an integer number to", "use super::*;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n\n/// Length of the string being written.\nstatic LENGTH: AtomicUsize = AtomicUsize::new(0);\n\n/// Encodes an integer number to")],
 demo='''
use httlib_hpack::Encoder;
fn work(len: usize) -> bool {
    for _ in 0..60000 {
        let mut e = Encoder::default();
        let mut b = vec![];
        e.encode((b"n".to_vec(), vec![b'x'; len], 0u8), &mut b).unwrap();
        if b.len() != 4 + len { return false; }
    }
    true
}
fn main() {
    let t: Vec<_> = (0..8).map(|i| std::thread::spawn(move || work(if i % 2 == 0 { 126 } else { 1 }))).collect();
    let ok = t.into_iter().map(|t| t.join().unwrap()).fold(true, |a, b| a && b);
    if !ok { println!("mixed up"); std::process::exit(1); }
}
''')

bug(id="varint_kept_in_a_global", property="C11",
 needs="two encoders writing varints to slow writers at the same time, one pre-empted inside the writer",
 breaks="the part of a varint still to be written is kept in a process-wide variable",
 edits=[(PEP, "            buf.write_all(&[byte])?;\n            val >>= 7;", "            REST.store(val >> 7, Ordering::SeqCst);\n            buf.write_all(&[byte])?;\n            val = REST.load(Ordering::SeqCst);"),
 (PEP, "use std::io;\n", "use std::io;\nuse std::sync::atomic::{AtomicU64, Ordering};\n\n/// What is left of the varint being written.\nstatic REST: AtomicU64 = AtomicU64::new(0);\n\n")],
 demo='''
use httlib_protos::Encoder;
struct W(Vec<u8>, bool);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        if self.1 { // a writer that does some encoding of its own
            let mut log = vec![];
            Encoder::default().encode((&1, &(1u64 << 40)), &mut log).unwrap();
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut a = W(vec![], false); let mut b = W(vec![], true);
    Encoder::default().encode((&1, &300u64), &mut a).unwrap();
    Encoder::default().encode((&1, &300u64), &mut b).unwrap();
    if a.0 != b.0 { println!("{:?} {:?}", a.0, b.0); std::process::exit(1); }
}
''')

bug(id="long_values_compared_by_prefix", property="C01",
 needs="two long values of the same name and length that differ only after their 64th octet, the first of them in the dynamic table, best format",
 breaks="the search compares only the first 64 octets of values of equal length, so a different value is replaced by an index",
 edits=[(TBL, "                if value == h.1 {", "                let head = value.len().min(64);\n                if value.len() == h.1.len() && value[..head] == h.1[..head] {")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::default();
    let mut b = vec![];
    let v1 = vec![b'x'; 80]; let mut v2 = v1.clone(); v2[79] = b'y';
    e.encode((b"cookie".to_vec(), v1, 0x14u8), &mut b).unwrap();
    e.encode((b"cookie".to_vec(), v2.clone(), 0x14u8), &mut b).unwrap();
    let mut dst = vec![];
    Decoder::default().decode(&mut b, &mut dst).unwrap();
    if dst[1].1 != v2 { println!("altered"); std::process::exit(1); }
}
''')

bug(id="size_kept_in_16_bits", property="C02",
 needs="a dynamic table larger than 64 KiB that fills up",
 breaks="the table's size wraps at 65536, so entries are evicted too late and the size exceeds the maximum",
 edits=[(DYN, "    size: usize,\n", "    size: u16,\n"),
 (DYN, "        self.size += name.len() + value.len() + 32;", "        self.size = self.size.wrapping_add((name.len() + value.len() + 32) as u16);"),
 (DYN, "while self.size > self.max_size as usize {", "while self.size as u32 > self.max_size {"),
 (DYN, "                self.size -= header.0.len() + header.1.len() + 32;", "                self.size = self.size.wrapping_sub((header.0.len() + header.1.len() + 32) as u16);")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::with_dynamic_size(70000);
    for i in 0..40u8 { t.insert(vec![i; 1000], vec![i; 1000]); }
    if t.dynamic_len() != 34 || t.dynamic_size() > 70000 { println!("{} {}", t.dynamic_len(), t.dynamic_size()); std::process::exit(1); }
}
''')

bug(id="bad_index_consumed", property="C04",
 needs="an indexed field with an index beyond the table",
 breaks="the octets of a bad index are removed from the input although decoding failed, so a retry continues behind the damage",
 edits=[(HDEC, "            None => return Err(DecoderError::InvalidIndex),\n        };\n        dst.push((name.to_vec(), value.to_vec(), 0x0));\n\n        buf.drain(0..total);\n        Ok(total)", "            None => {\n                buf.drain(0..total);\n                return Err(DecoderError::InvalidIndex);\n            },\n        };\n        dst.push((name.to_vec(), value.to_vec(), 0x0));\n\n        buf.drain(0..total);\n        Ok(total)")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut b = vec![0x82, 0x80 | 90, 0x83];
    let mut dst = vec![];
    d.decode(&mut b, &mut dst).unwrap_err();
    if b != [0x80 | 90, 0x83] { println!("{:?}", b); std::process::exit(1); }
}
''')

bug(id="current_size_always_accepted", property="C05",
 needs="the limit lowered below the table's present maximum, then an update announcing that present maximum",
 breaks="an update that merely confirms the table's present maximum is accepted although it is above the lowered limit",
 edits=[(HDEC, "        if new_size > self.max_dynamic_size {", "        if new_size > self.max_dynamic_size && new_size != self.table.max_dynamic_size() {")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    d.set_max_dynamic_size(1000);
    let mut b = vec![0x3f, 0xe1, 0x1f]; // 4096
    if d.decode(&mut b, &mut vec![]).is_ok() { println!("accepted"); std::process::exit(1); }
}
''')

bug(id="high_index_loses_never_indexed", property="C06",
 needs="a never-indexed field whose name is referenced by an index of 15 or more",
 breaks="the never-indexed bit is dropped when the name index does not fit the 4-bit prefix",
 edits=[(HENC, "            encode_integer(index, 0b00010000, 4, dst)?;", "            encode_integer(index, if index < 15 { 0b00010000 } else { 0 }, 4, dst)?;")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let mut e = Encoder::default();
    let mut b = vec![];
    e.encode((32u32, b"secret".to_vec(), 0x8u8), &mut b).unwrap();
    let mut dst = vec![];
    Decoder::default().decode(&mut b, &mut dst).unwrap();
    if dst[0].2 != 0x8 { println!("flag {}", dst[0].2); std::process::exit(1); }
}
''')

bug(id="last_entry_refused", property="C09",
 needs="an indexed name that refers to the very last (oldest) entry of the table",
 breaks="the last index of the table is refused as a name index",
 edits=[(HENC, "        let name = if let Some(entry) = self.table.get(index) {", "        if index as usize >= self.table.len() {\n            return Err(EncoderError::InvalidIndex);\n        }\n\n        let name = if let Some(entry) = self.table.get(index) {")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::default();
    let mut b = vec![];
    e.encode((b"a".to_vec(), b"b".to_vec(), 0x4u8), &mut b).unwrap();
    if e.encode((62u32, b"c".to_vec(), 0u8), &mut b).is_err() { println!("refused"); std::process::exit(1); }
}
''')

bug(id="table_reserved_up_front", property="C10",
 needs="a large limit and a peer announcing a large table",
 breaks="a size update reserves room for every entry that could fit, so two octets from the network allocate megabytes",
 edits=[(DYN, "        self.max_size = size;\n\n        self.consolidate();", "        if size > self.max_size {\n            let room = size as usize / 32;\n            self.inner.reserve(room.saturating_sub(self.inner.len()));\n        }\n        self.max_size = size;\n\n        self.consolidate();")],
 demo='''
use httlib_hpack::Decoder;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A; static BIG: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BIG.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut d = Decoder::with_dynamic_size(4096);
    d.set_max_dynamic_size(16 << 20);
    let mut b = vec![0x3f, 0xe1, 0xff, 0xff, 0x07]; // 16 MiB
    BIG.store(0, Ordering::Relaxed);
    d.decode(&mut b, &mut vec![]).unwrap();
    let big = BIG.load(Ordering::Relaxed);
    if big > 1 << 20 { println!("{} octets", big); std::process::exit(1); }
}
''')

bug(id="length_truncated_to_32_bits", property="C19",
 needs="an announced length above 2^32",
 breaks="an announced length is cut to 32 bits, so a field is delivered with a wrong length",
 edits=[(PDEC, "        self.ld_len = Some(val);", "        self.ld_len = Some(val as u32 as u64);")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut b = vec![10, 0x83, 0x80, 0x80, 0x80, 0x10, 1, 2, 3];
    let mut dst = vec![];
    let _ = Decoder::default().decode(&mut b, &mut dst);
    if !dst.is_empty() { println!("{:?}", dst); std::process::exit(1); }
}
''')

bug(id="length_check_overflows", property="C19",
 needs="an announced length of 2^64 - 1",
 breaks="the check of an announced length overflows and decoding panics",
 edits=[(PDP, "    let size = size as usize;\n    if buf.len() < size {", "    let size = size as usize;\n    if buf.len() + 1 < size.wrapping_add(1) {")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut b = vec![10, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1, 2, 3];
    let mut dst = vec![];
    let _ = Decoder::default().decode(&mut b, &mut dst);
    assert!(dst.is_empty());
}
''')

bug(id="key_octets_counted_late", property="C14",
 needs="a cut between a key and the end of its value",
 breaks="the octets of a key are removed when it is read but counted when its value is complete, if that happens in the same call",
 edits=[(PDEC, "            total += _size;\n", "            held += _size;\n            if self.key.1 == Typ::Unknown { // field complete\n                total += held;\n                held = 0;\n            }\n"),
 (PDEC, "        let mut total = 0;\n        loop {\n            let mut _size = 0;", "        let mut total = 0;\n        let mut held = 0;\n        loop {\n            let mut _size = 0;")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut b = vec![8];
    let mut dst = vec![];
    let mut n = d.decode(&mut b, &mut dst).unwrap();
    b.push(5);
    n += d.decode(&mut b, &mut dst).unwrap();
    if n != 2 { println!("{} octets", n); std::process::exit(1); }
}
''')

bug(id="overlong_key_accepted", property="C15",
 needs="a key whose varint has six or more octets with bits above the 32nd",
 breaks="bits above the 32nd of keys longer than five octets are ignored instead of rejected",
 edits=[(PDP, "    if key > u64::from(u32::MAX) {", "    if size <= 5 && key > u64::from(u32::MAX) {")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut b = vec![0x88, 0x80, 0x80, 0x80, 0x80, 0x01, 7];
    let mut dst = vec![];
    if Decoder::default().decode(&mut b, &mut dst).is_ok() { println!("{:?}", dst); std::process::exit(1); }
}
''')

bug(id="chunk_retried_from_its_start", property="C16",
 needs="a writer that accepts part of a long payload and then fails once with WouldBlock",
 breaks="a chunk that failed with WouldBlock is written again from its start, duplicating the octets already accepted",
 edits=[(PEP, "    buf.write_all(&mut bytes)?;\n    Ok(size)", """    for chunk in bytes.chunks_mut(1024) {
        match buf.write_all(chunk) {
            Err(e) if e.kind() == io::ErrorKind::WouldBlock => buf.write_all(chunk)?, // once more
            result => result?,
        }
    }
    Ok(size)""")],
 demo='''
use httlib_protos::Encoder;
use std::io;
struct W(Vec<u8>, usize);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 == 5 { return Err(io::ErrorKind::WouldBlock.into()); }
        let n = b.len().min(100); self.0.extend_from_slice(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![], 0);
    let mut good = vec![];
    let v: Vec<u8> = (0..500).map(|i| i as u8).collect();
    Encoder::default().encode((&1, &v), &mut good).unwrap();
    let r = Encoder::default().encode((&1, &v), &mut w);
    if r.is_ok() && w.0 != good || !good.starts_with(&w.0) { println!("{} octets written", w.0.len()); std::process::exit(1); }
}
''')

bug(id="tag_checked_after_writing", property="C17",
 needs="an encode refused for its tag, on a writer that goes on to be used",
 breaks="the key is written before its tag is checked, so a refused encode leaves a stray key in the output",
 edits=[(PEP, "    if tag < Encoder::TAG_MIN || tag > Encoder::TAG_MAX {\n        return Err(EncoderError::InvalidTag);\n    }\n\n    let key = (tag << 3) | typ as u32;\n    encode_varint(u64::from(key), buf)", "    let key = (tag << 3) | typ as u32;\n    let size = encode_varint(u64::from(key), buf)?;\n\n    if tag < Encoder::TAG_MIN || tag > Encoder::TAG_MAX {\n        return Err(EncoderError::InvalidTag);\n    }\n    Ok(size)")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut b = vec![];
    let _ = Encoder::default().encode((&0, &5i32), &mut b);
    if !b.is_empty() { println!("{:?}", b); std::process::exit(1); }
}
''')

bug(id="pull_all_or_nothing", property="C20",
 needs="a pull of several fields that meets the end of a segment in the middle of one of them",
 breaks="a pull that fails forgets the fields it had already taken off the input",
 edits=[(HDEC, "            } else if octet & 64 == 64 { // with indexing\n                total += self.decode_literal(buf, dst)?;", "            } else if octet & 64 == 64 { // with indexing\n                let size = self.decode_literal(buf, dst);\n                if size.is_err() && dst.capacity() > 1 {\n                    dst.clear(); // all or nothing\n                }\n                total += size?;")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut b = vec![0x82, 0x40, 1, b'a', 1];
    let mut dst = Vec::with_capacity(2);
    let _ = d.decode_exact(&mut b, &mut dst);
    let mut n = dst.len();
    b.push(b'b');
    let mut dst = Vec::with_capacity(2);
    let _ = d.decode_exact(&mut b, &mut dst);
    n += dst.len();
    if n != 2 { println!("{} fields", n); std::process::exit(1); }
}
''')

bug(id="varint_field_trimmed", property="C13",
 needs="a varint value with redundant octets",
 breaks="redundant octets of varint values are dropped from the delivered octets, depending on the value",
 edits=[(PDP, "        if byte <= 0x7F {\n            dst.append(&mut bytes);", "        if byte <= 0x7F {\n            if bytes.len() == 2 && byte == 0 { // shortest form\n                bytes.pop();\n                bytes[0] &= 0x7F;\n            }\n            dst.append(&mut bytes);")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut b = vec![8, 0x81, 0];
    let mut dst = vec![];
    Decoder::default().decode(&mut b, &mut dst).unwrap();
    if dst[0].2 != [0x81, 0] { println!("{:?}", dst); std::process::exit(1); }
}
''')
