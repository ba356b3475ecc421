BUGS = []
def bug(**k): BUGS.append(k)
HENC = "hpack/src/encoder/mod.rs"; HDEC = "hpack/src/decoder/mod.rs"; HDP = "hpack/src/decoder/primitives.rs"; HEP = "hpack/src/encoder/primitives.rs"
DYN = "hpack/src/table/dynamic.rs"; TBL = "hpack/src/table/mod.rs"
PDEC = "protos/src/decoder/mod.rs"; PDP = "protos/src/decoder/primitives.rs"; PDL = "protos/src/decoder/lit.rs"; PENC = "protos/src/encoder/mod.rs"; PEP = "protos/src/encoder/primitives.rs"
HUD = "huffman/src/decoder/mod.rs"; HUR = "huffman/src/decoder/reader.rs"; HUE = "huffman/src/encoder/mod.rs"

bug(id="values_matched_ignoring_case", property="C01",
 needs="best format for a field whose value differs from a table entry only in letter case",
 breaks="the peer receives the other spelling",
 edits=[(TBL, "                if value == h.1 {", "                if value.eq_ignore_ascii_case(h.1) {")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::default(), Decoder::default());
    let mut o = vec![];
    e.encode((b"etag".to_vec(), b"aB".to_vec(), 0x14), &mut o).unwrap();
    e.encode((b"etag".to_vec(), b"Ab".to_vec(), 0x14), &mut o).unwrap();
    let mut r = vec![];
    d.decode(&mut o, &mut r).unwrap();
    if r[1].1 != b"Ab".to_vec() { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="long_values_matched_by_prefix", property="C01",
 needs="best format for a value that extends a long value held in the table",
 breaks="the peer receives the shorter value",
 edits=[(TBL, "                if value == h.1 {", "                let n = h.1.len().min(256);\n                if value.len() >= n && value[..n] == h.1[..n] && (n == 256 || value.len() == n) {")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::default(), Decoder::default());
    let mut o = vec![];
    let mut v = vec![b'a'; 300];
    e.encode((b"etag".to_vec(), v.clone(), 0x14), &mut o).unwrap();
    v.push(b'b');
    e.encode((b"etag".to_vec(), v.clone(), 0x14), &mut o).unwrap();
    let mut r = vec![];
    d.decode(&mut o, &mut r).unwrap();
    if r[1].1 != v { println!("differs"); std::process::exit(1); }
}
''')

bug(id="limit_compared_as_signed", property="C02",
 needs="a table size of 2^31 or more",
 breaks="such a table is treated as having a negative limit and never holds anything",
 edits=[(DYN, "        while self.size > self.max_size as usize {", "        while self.size as i64 > self.max_size as i32 as i64 && !self.inner.is_empty() {")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::with_dynamic_size(0x9000_0000);
    t.insert(b"a".to_vec(), b"b".to_vec());
    if t.dynamic_len() != 1 { println!("lost"); std::process::exit(1); }
}
''')

bug(id="oversize_entry_keeps_full_tables", property="C02",
 needs="an entry larger than the limit inserted while the table holds more than two entries",
 breaks="the entry is skipped and the table keeps its contents",
 edits=[(DYN, "        self.size += name.len() + value.len() + 32;\n", "        if self.inner.len() > 2 && name.len() + value.len() + 32 > self.max_size as usize {\n            return; // can never fit\n        }\n        self.size += name.len() + value.len() + 32;\n")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::with_dynamic_size(120);
    for i in 0..3u8 { t.insert(vec![i], vec![i]); }
    t.insert(vec![1; 100], vec![]);
    if t.dynamic_len() != 0 { println!("kept"); std::process::exit(1); }
}
''')

bug(id="eviction_by_count_when_many", property="C02",
 needs="more than 128 entries in a table whose limit would allow more",
 breaks="a hidden cap on the number of entries",
 edits=[(DYN, "        while self.size > self.max_size as usize {", "        while self.size > self.max_size as usize || self.inner.len() > 1023 {")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::with_dynamic_size(65536);
    for i in 0..1100u32 { t.insert(i.to_string().into_bytes(), vec![]); }
    if t.dynamic_len() != 1100 { println!("{}", t.dynamic_len()); std::process::exit(1); }
}
''')

bug(id="incomplete_update_applied_early", property="C03",
 needs="a cut inside the integer of a size update after its first continuation octets",
 breaks="an incomplete size update changes the table before the rest arrives",
 edits=[(HDP, "        let byte = if total >= buf.len() {\n            return Err(DecoderError::IntegerUnderflow);", "        let byte = if total >= buf.len() {\n            *dst = value; // best known so far\n            return Err(DecoderError::IntegerUnderflow);"),
        (HDEC, "        let total = decode_integer(buf, &mut new_size, 5)?;\n", "        let res = decode_integer(buf, &mut new_size, 5);\n        if res.is_err() && buf.len() > 2 && new_size < self.table.dynamic_size() {\n            self.table.update_max_dynamic_size(new_size); // make room\n        }\n        let total = res?;\n")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::default(), Decoder::default());
    let mut r = vec![];
    let mut o = vec![];
    for i in 0..20 { e.encode((format!("x-{}", i).into_bytes(), vec![b'a'; 60], 0x4), &mut o).unwrap(); }
    d.decode(&mut o, &mut r).unwrap();
    let mut u = vec![];
    e.update_max_dynamic_size(4000, &mut u).unwrap(); // 3f 81 1e
    let mut p = vec![u[0], u[1] ];
    let _ = d.decode(&mut p, &mut r);
    let mut u = vec![0x3f, 0x81, 0x9e, 0x00]; // the same, padded
    let last = u.pop().unwrap();
    let _ = d.decode(&mut u, &mut r);
    u.push(last);
    let mut p = u;
    let ok = d.decode(&mut p, &mut r).is_ok();
    let mut q = vec![0x80 | 62u8];
    // shrink to force: announce 31+1 = 32 octets padded
    let mut s = vec![0x3f, 0x81, 0x80];
    let _ = d.decode(&mut s, &mut r);
    let ok2 = d.decode(&mut q, &mut r).is_ok();
    if !ok || !ok2 { println!("{} {}", ok, ok2); std::process::exit(1); }
}
''')

bug(id="lone_octet_waits_after_underflow", property="C03",
 needs="an incomplete field, then its end together with a one-octet indexed field at the end of the block",
 breaks="the trailing indexed field is left in the input",
 edits=[(HDEC, "    table: Table<'a>,\n}", "    table: Table<'a>,\n\n    /// The last call ended early.\n    short: bool,\n}"),
        (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            short: false,\n"),
        (HDEC, "            table,\n        }", "            table,\n            short: false,\n        }"),
        (HDEC, "        let mut total = 0;\n        loop {\n            if buf.is_empty() {\n                return Ok(total);\n            }\n\n            let mut data = Vec::with_capacity(1);\n            total += self.decode_exact(buf, &mut data)?;\n",
               "        let mut total = 0;\n        loop {\n            if buf.is_empty() || (self.short && total > 0 && buf.len() == 1 && buf[0] > 128) {\n                self.short = false;\n                return Ok(total);\n            }\n\n            let mut data = Vec::with_capacity(1);\n            total += match self.decode_exact(buf, &mut data) {\n                Err(e) => {\n                    self.short = e == DecoderError::IntegerUnderflow && buf.len() > 3;\n                    return Err(e);\n                },\n                Ok(n) => n,\n            };\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0, 3, b'a', b'b', b'c', 1];
    assert!(d.decode(&mut b, &mut r).is_err());
    b.extend([b'x', 0x82]);
    d.decode(&mut b, &mut r).unwrap();
    if r.len() != 2 || !b.is_empty() { println!("{:?} {:?}", r, b); std::process::exit(1); }
}
''')

bug(id="bad_huffman_name_spoils_table", property="C04",
 needs="an incrementally indexed literal with a good name and a damaged Huffman value",
 breaks="a field rejected for its value has already evicted entries",
 edits=[(HDEC, "        let mut value = Vec::new();\n        total += decode_string(&buf[total..], self.speed, &mut value)?;\n",
               "        let mut value = Vec::new();\n        match decode_string(&buf[total..], self.speed, &mut value) {\n            Ok(n) => total += n,\n            Err(DecoderError::InvalidInput) if octet & 64 == 64 && name.len() > 16 => {\n                let size = self.table.max_dynamic_size(); // make room for the entry\n                self.table.update_max_dynamic_size(size.saturating_sub(name.len() as u32 + 32));\n                self.table.update_max_dynamic_size(size);\n                return Err(DecoderError::InvalidInput);\n            },\n            Err(e) => return Err(e),\n        }\n")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let (mut e, mut d) = (Encoder::with_dynamic_size(100), Decoder::with_dynamic_size(100));
    let mut r = vec![];
    let mut o = vec![];
    e.encode((b"a".to_vec(), vec![b'v'; 50], 0x4), &mut o).unwrap();
    d.decode(&mut o, &mut r).unwrap();
    let mut b = vec![0x40, 20];
    b.extend([b'n'; 20]);
    b.extend([0x81, 0x00]);
    assert!(d.decode(&mut b, &mut r).is_err());
    let mut q = vec![0x80 | 62u8];
    if d.decode(&mut q, &mut r).is_err() { println!("evicted"); std::process::exit(1); }
}
''')

bug(id="raised_limit_grows_the_table", property="C05",
 needs="the user's limit raised above the table's maximum",
 breaks="raising the limit alone changes the table",
 edits=[(HDEC, "        self.max_dynamic_size = size;\n    }", "        if size > self.max_dynamic_size && self.max_dynamic_size == self.table.max_dynamic_size() {\n            self.table.update_max_dynamic_size(size); // the table keeps pace\n        }\n        self.max_dynamic_size = size;\n    }")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::with_dynamic_size(64);
    let mut r = vec![];
    d.set_max_dynamic_size(4096);
    let mut b = vec![0x40, 1, b'a', 1, b'b', 0x40, 1, b'c', 1, b'd'];
    d.decode(&mut b, &mut r).unwrap();
    let mut q = vec![0x80 | 63u8];
    if d.decode(&mut q, &mut r).is_ok() { println!("two entries in 64 octets"); std::process::exit(1); }
}
''')

bug(id="zero_update_after_lowering_ignored", property="C05",
 needs="a size update to zero accepted after the user lowered the limit to zero",
 breaks="the table keeps its entries",
 edits=[(HDEC, "        } else {\n            self.table.update_max_dynamic_size(new_size);\n        }", "        } else if new_size > 0 || self.max_dynamic_size > 0 {\n            self.table.update_max_dynamic_size(new_size);\n        }")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0x40, 1, b'a', 1, b'b'];
    d.decode(&mut b, &mut r).unwrap();
    d.set_max_dynamic_size(0);
    let mut b = vec![0x20];
    d.decode(&mut b, &mut r).unwrap();
    let mut q = vec![0x80 | 62u8];
    if d.decode(&mut q, &mut r).is_ok() { println!("kept"); std::process::exit(1); }
}
''')

bug(id="never_flag_lost_on_long_huffman_names", property="C06",
 needs="a never-indexed field with a Huffman name longer than 64 octets",
 breaks="the field is sent without the never-indexed mark",
 edits=[(HENC, "        } else if flags & 0x8 == 0x8 {\n            dst.push(0b00010000);\n", "        } else if flags & 0x8 == 0x8 && (flags & 0x1 == 0 || name.len() <= 64) {\n            dst.push(0b00010000);\n")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::default(), Decoder::default());
    let mut o = vec![];
    e.encode((vec![b'n'; 70], b"s".to_vec(), 0x8 | 0x1), &mut o).unwrap();
    let mut r = vec![];
    d.decode(&mut o, &mut r).unwrap();
    if r[0].2 != 0x8 { println!("{}", r[0].2); std::process::exit(1); }
}
''')

bug(id="never_flag_lost_on_far_indexes", property="C06",
 needs="a never-indexed field whose name index needs a third integer octet",
 breaks="the decoder reports no flag",
 edits=[(HDEC, "        } else  if octet & 16 == 16 {\n", "        } else  if octet & 16 == 16 && index < 143 {\n")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::with_dynamic_size(1 << 16), Decoder::with_dynamic_size(1 << 16));
    let mut o = vec![];
    for i in 0..120 { e.encode((format!("x-{}", i).into_bytes(), vec![], 0x4), &mut o).unwrap(); }
    e.encode((160u32, b"s".to_vec(), 0x8u8), &mut o).unwrap();
    let mut r = vec![];
    d.decode(&mut o, &mut r).unwrap();
    if r[120].2 != 0x8 { println!("{}", r[120].2); std::process::exit(1); }
}
''')

bug(id="fourth_group_dropped", property="C07",
 needs="a size update or length of 2^21 or more",
 breaks="the encoder writes the integer with its highest bits missing",
 edits=[(HEP, "    while value >= 128 {\n        dst.push(0b10000000 | value as u8); // byte with continuation flag\n        value >>= 7;\n    }\n", "    let mut groups = 0;\n    while value >= 128 && groups < 3 {\n        dst.push(0b10000000 | value as u8); // byte with continuation flag\n        value >>= 7;\n        groups += 1;\n    }\n    value &= 127;\n")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::default();
    let mut o = vec![];
    e.update_max_dynamic_size(300_000_000, &mut o).unwrap();
    let mut v = 31u64; let mut s = 0;
    for b in &o[1..] { v += ((b & 127) as u64) << s; s += 7; }
    if v != 300_000_000 { println!("{} {:?}", v, o); std::process::exit(1); }
}
''')

bug(id="best_format_misses_repeated_names", property="C07",
 needs="best format for a field held in the dynamic table whose name is static",
 breaks="the encoder sends a literal though the tables hold the field",
 edits=[(TBL, "                } else if name_match.is_none() {\n                    name_match = Some(i + 1); // only name mached\n                }", "                } else if name_match.is_none() {\n                    name_match = Some(i + 1); // only name mached\n                } else if i > 128 {\n                    break; // far enough\n                }")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::with_dynamic_size(1 << 16);
    let mut o = vec![];
    for i in 0..120 { e.encode((b"etag".to_vec(), i.to_string().into_bytes(), 0x4), &mut o).unwrap(); }
    o.clear();
    e.encode((b"etag".to_vec(), b"0".to_vec(), 0x10), &mut o).unwrap();
    if o[0] & 128 == 0 { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="padded_index_refused_when_static", property="C08",
 needs="a peer that writes an integer with redundant octets",
 breaks="redundant zero octets at the end of an integer are refused",
 edits=[(HDP, "        if byte & 0b10000000 == 0 { // most significant bit is set (continuation)\n", "        if byte == 0 && total > 3 {\n            return Err(DecoderError::IntegerOverflow); // not the shortest form\n        }\n        if byte & 0b10000000 == 0 { // most significant bit is set (continuation)\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0x3f, 0x80, 0x80, 0x00, 0x82];
    if d.decode(&mut b, &mut r).is_err() { println!("refused"); std::process::exit(1); }
}
''')

bug(id="failed_indexed_name_leaves_octet", property="C09",
 needs="an indexed-name field with incremental indexing and an index outside the table",
 breaks="the refused field has already put its first octet in the output",
 edits=[(HENC, "        let name = if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n        } else {\n            return Err(EncoderError::InvalidIndex);\n        };\n",
               "        let name = if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n        } else {\n            if index > 61 && flags & 0x8 == 0x8 {\n                encode_integer(0, 0b00010000, 4, dst)?; // falls back to a literal\n            }\n            return Err(EncoderError::InvalidIndex);\n        };\n")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::default();
    let mut o = vec![];
    assert!(e.encode((99u32, b"v".to_vec(), 0x8u8), &mut o).is_err());
    if !o.is_empty() { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="oldest_index_refused_when_full", property="C09",
 needs="the oldest entry referenced while the table is exactly full",
 breaks="a valid index is refused",
 edits=[(HENC, "        if self.table.get(index).is_none() {", "        if self.table.get(index).is_none()\n            || (index as usize == self.table.len() && index > 61 && self.table.dynamic_size() == self.table.max_dynamic_size())\n        {")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::with_dynamic_size(68);
    let mut o = vec![];
    e.encode((b"a".to_vec(), b"b".to_vec(), 0x4), &mut o).unwrap();
    e.encode((b"c".to_vec(), b"d".to_vec(), 0x4), &mut o).unwrap();
    if e.encode(63u32, &mut o).is_err() { println!("refused"); std::process::exit(1); }
}
''')

bug(id="integers_of_six_octets", property="C10",
 needs="an integer with five continuation octets",
 breaks="the shift runs past 32 bits",
 edits=[(HDP, "        } else if total == 5 { // chosen limit of supported octet", "        } else if total == 6 { // chosen limit of supported octet")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0x3f, 0xff, 0xff, 0xff, 0xff, 0x7f];
    match d.decode(&mut b, &mut r) {
        Err(httlib_hpack::DecoderError::IntegerOverflow) => {},
        x => { println!("{:?}", x); std::process::exit(1); }
    }
}
''')

bug(id="string_buffer_reserved_by_length", property="C10",
 needs="a string whose announced length is far larger than what has come",
 breaks="memory is reserved for the announced length",
 edits=[(HDP, "    if len as usize > buf.len() - total {\n        return", "    dst.reserve(len as usize);\n    if len as usize > buf.len() - total {\n        return")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    if std::env::args().count() > 1 {
        let mut d = Decoder::default();
        let mut r = vec![];
        let mut b = vec![0x00, 0x7f, 0xff, 0xff, 0xff, 0x7f];
        let _ = d.decode(&mut b, &mut r);
        return;
    }
    let out = std::process::Command::new("sh").arg("-c").arg("ulimit -v 150000; exec \\"$0\\" child").arg(std::env::current_exe().unwrap()).status();
    if !out.unwrap().success() { println!("died"); std::process::exit(1); }
}
''')

bug(id="first_limit_wins", property="C11",
 needs="two decoders created with different limits in one process",
 breaks="the default limit of later decoders is the one of the first",
 edits=[(HDEC, "use super::Table;\n", "use super::Table;\nuse std::sync::atomic::{AtomicU32, Ordering};\n\n/// The usual table size of this process.\nstatic USUAL: AtomicU32 = AtomicU32::new(0);\n"),
        (HDEC, "            max_dynamic_size: table.max_dynamic_size(),\n", "            max_dynamic_size: match USUAL.load(Ordering::Relaxed) {\n                0 => table.max_dynamic_size(),\n                n => n,\n            },\n"),
        (HDEC, "        self.max_dynamic_size = size;\n    }", "        self.max_dynamic_size = size;\n        let _ = USUAL.compare_exchange(0, size, Ordering::Relaxed, Ordering::Relaxed);\n    }")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    d.set_max_dynamic_size(100);
    let e = Decoder::default();
    if e.max_dynamic_size() != 4096 { println!("{}", e.max_dynamic_size()); std::process::exit(1); }
}
''')

bug(id="encoder_scratch_shared_between_threads", property="C11",
 needs="two threads encoding Huffman strings at the same time",
 breaks="strings of one session appear in the other",
 edits=[(HEP, "    let (flags, bytes) = if huffman {\n        let mut dst = Vec::new();\n        httlib_huffman::encode(&data, &mut dst)?;\n        (0x80, dst) // set MSB to 1 indicating Huffman encoded literal\n",
              "    let (flags, bytes) = if huffman {\n        static LAST: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new()); // reuse the allocation\n        LAST.lock().unwrap().clear();\n        let mut out = LAST.lock().unwrap().split_off(0);\n        httlib_huffman::encode(&data, &mut out)?;\n        *LAST.lock().unwrap() = out;\n        let bytes = LAST.lock().unwrap().clone();\n        (0x80, bytes) // set MSB to 1 indicating Huffman encoded literal\n")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let hs: Vec<_> = (0..8u8).map(|t| std::thread::spawn(move || {
        let (mut e, mut d) = (Encoder::default(), Decoder::default());
        for i in 0..20000u32 {
            let f = (vec![b'a' + t; 3], i.to_string().into_bytes(), 0x3u8);
            let mut o = vec![]; let mut r = vec![];
            e.encode(f.clone(), &mut o).unwrap();
            if d.decode(&mut o, &mut r).is_err() || r[0].0 != f.0 || r[0].1 != f.1 { return false; }
        }
        true
    })).collect();
    let ok = hs.into_iter().fold(true, |a, h| h.join().unwrap_or(false) && a);
    if !ok { println!("mixed"); std::process::exit(1); }
}
''')

bug(id="two_hundred_fifty_five_confused", property="C12",
 needs="octet 255 decoded",
 breaks="symbols above 254 come out wrong at one speed",
 edits=[(HUR, "            if ascii < 256 { // valid character\n                dst.push(ascii as u8);", "            if ascii < 256 { // valid character\n                dst.push(if self.speed == 3 && ascii == 249 && dst.last() == Some(&249) { 250 } else { ascii as u8 });")],
 demo='''
use httlib_huffman::{decode, encode, DecoderSpeed};
fn main() {
    let t = vec![249u8, 249];
    let mut o = vec![]; encode(&t, &mut o).unwrap();
    let mut a = vec![];
    decode(&o, &mut a, DecoderSpeed::ThreeBits).unwrap();
    if a != t { println!("{:?}", a); std::process::exit(1); }
}
''')

bug(id="large_fields_delivered_in_parts", property="C13",
 needs="a length-delimited field above 64 KiB",
 breaks="such a field is delivered as several fields with the same tag",
 edits=[(PDEC, "        let len = self.ld_len.unwrap();\n", "        let whole = self.ld_len.unwrap();\n        let len = whole.min(65536);\n"),
        (PDEC, "        dst.push((self.key.0, self.key.1, bytes));\n        buf.drain(..size);\n        self.reset();\n        Ok(size)\n    }\n\n    /// Resets", "        dst.push((self.key.0, self.key.1, bytes));\n        buf.drain(..size);\n        if whole > len {\n            self.ld_len = Some(whole - len);\n        } else {\n            self.reset();\n        }\n        Ok(size)\n    }\n\n    /// Resets")],
 demo='''
use httlib_protos::{Encoder, Decoder};
fn main() {
    let mut o = vec![];
    Encoder::default().encode((&1, &vec![7u8; 70000]), &mut o).unwrap();
    let mut r = vec![];
    Decoder::default().decode(&mut o, &mut r).unwrap();
    if r.len() != 1 { println!("{}", r.len()); std::process::exit(1); }
}
''')

bug(id="short_value_cut_keeps_key_type", property="C13",
 needs="a cut inside a 64-bit value after at least four of its octets",
 breaks="a 64-bit field that arrives in two parts is delivered as 32 bits",
 edits=[(PDEC, "        let size = match extract_bit64(&buf, &mut bytes) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) => return Ok(0),", "        let size = match extract_bit64(&buf, &mut bytes) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) => {\n                if buf.len() == 7 && buf[..7].iter().all(|b| *b == 0) {\n                    buf.insert(0, 0); // a zero is a zero\n                }\n                return Ok(0);\n            },")],
 demo='''
use httlib_protos::{Encoder, Decoder};
fn main() {
    let mut o = vec![];
    Encoder::default().encode((&1, &0.0f64), &mut o).unwrap();
    let last = o.pop().unwrap();
    let mut r = vec![];
    let mut d = Decoder::default();
    d.decode(&mut o, &mut r).unwrap();
    o.push(last);
    d.decode(&mut o, &mut r).unwrap();
    if r.len() != 1 || !o.is_empty() { println!("{:?} {:?}", r, o); std::process::exit(1); }
}
''')

bug(id="failed_lookahead_counts", property="C14",
 needs="a call that ends with an incomplete integer after complete fields",
 breaks="the returned size includes octets of the unfinished integer",
 edits=[(PDEC, "        let size = match extract_varint(&buf, &mut bytes) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) => return Ok(0),", "        let size = match extract_varint(&buf, &mut bytes) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) => {\n                if buf.len() > 8 {\n                    self.reset(); // cannot be an integer any more\n                }\n                return Ok(0);\n            },")],
 demo='''
use httlib_protos::{Encoder, Decoder};
fn main() {
    let mut o = vec![];
    Encoder::default().encode((&1, &u64::MAX), &mut o).unwrap();
    let last = o.pop().unwrap();
    let mut r = vec![];
    let mut d = Decoder::default();
    d.decode(&mut o, &mut r).unwrap();
    o.push(last);
    let _ = d.decode(&mut o, &mut r);
    if r.len() != 1 || r[0].0 != 1 { println!("{:?} {:?}", r, o); std::process::exit(1); }
}
''')

bug(id="last_field_waits_for_more_when_large", property="C14",
 needs="a complete length-delimited field above 4 KiB at the end of what has arrived",
 breaks="the field is held back until another octet arrives",
 edits=[(PDEC, "        let len = self.ld_len.unwrap();\n", "        let len = self.ld_len.unwrap();\n        if len > 4096 && buf.len() as u64 == len && dst.len() > 2 {\n            return Ok(0); // read on before copying\n        }\n")],
 demo='''
use httlib_protos::{Encoder, Decoder};
fn main() {
    let mut o = vec![];
    let e = Encoder::default();
    for _ in 0..3 { e.encode((&1, &true), &mut o).unwrap(); }
    e.encode((&1, &vec![7u8; 5000]), &mut o).unwrap();
    let mut r = vec![];
    Decoder::default().decode(&mut o, &mut r).unwrap();
    if r.len() != 4 { println!("{}", r.len()); std::process::exit(1); }
}
''')

bug(id="bad_key_adopted", property="C15",
 needs="a malformed key, then a second call",
 breaks="after the error the decoder goes on with the refused key",
 edits=[(PDP, "    let typ = Typ::try_from(key & 0x07)?;\n    let tag = key as u32 >> 3;\n", "    let typ = Typ::try_from(key & 0x07)?;\n    let tag = key as u32 >> 3;\n    *dst = (tag, typ);\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0, 1, 8, 1]; // tag 0
    assert!(d.decode(&mut b, &mut r).is_err());
    if d.decode(&mut b, &mut r).is_ok() || !r.is_empty() { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="tag_zero_bytes_accepted", property="C15",
 needs="a length-delimited key with tag 0",
 breaks="a malformed key is accepted",
 edits=[(PDP, "    if tag < Encoder::TAG_MIN {\n", "    if tag < Encoder::TAG_MIN && (typ != Typ::LengthDelimited || size == 1) {\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0x82, 0x00, 1, 7];
    if d.decode(&mut b, &mut r).is_ok() { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="tenth_octet_decides_sign", property="C15",
 needs="a ten-octet integer whose last octet is above one",
 breaks="a well-formed field is reported as damage",
 edits=[(PDP, "        bytes.push(byte.clone());\n        count += 1;\n", "        bytes.push(byte.clone());\n        count += 1;\n        if count == 10 && byte > 1 && byte < 0x80 {\n            return Err(DecoderError::InvalidInput);\n        }\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![8, 255, 255, 255, 255, 255, 255, 255, 255, 255, 2];
    if d.decode(&mut b, &mut r).is_err() { println!("refused"); std::process::exit(1); }
}
''')

bug(id="payload_written_with_plain_write", property="C16",
 needs="a writer that accepts only part of a payload",
 breaks="a short write loses the rest of the bytes",
 edits=[(PEP, "    buf.write_all(&mut bytes)?;\n", "    let mut rest = &bytes[..];\n    while !rest.is_empty() {\n        match buf.write(rest)? {\n            0 => break,\n            n => rest = &rest[n..],\n        }\n    }\n")],
 demo='''
use httlib_protos::Encoder;
use std::io;
struct W(Vec<u8>, bool);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 = !self.1;
        if self.1 { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        let n = b.len().min(3); self.0.extend(&b[..n]); Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![], false);
    let mut o = vec![];
    Encoder::default().encode((&1, &vec![7u8; 20]), &mut o).unwrap();
    if Encoder::default().encode((&1, &vec![7u8; 20]), &mut w).is_err() || w.0 != o { println!("{:?}", w.0); std::process::exit(1); }
}
''')

bug(id="full_disk_reported_as_success", property="C16",
 needs="a writer that accepts nothing more (zero-length writes) in the middle of a payload",
 breaks="an encode reports success with octets missing",
 edits=[(PEP, "    buf.write_all(&mut bytes)?;\n    Ok(size)", "    match buf.write_all(&mut bytes) {\n        Err(e) if e.kind() == io::ErrorKind::WriteZero && size > 64 => {}, // no more room\n        res => res?,\n    }\n    Ok(size)")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut room = [0u8; 50];
    let mut w = &mut room[..];
    if Encoder::default().encode((&1, &vec![7u8; 100]), &mut w).is_ok() { println!("ok?"); std::process::exit(1); }
}
''')

bug(id="nested_length_of_short_records", property="C17",
 needs="a log record whose payload is exactly 128 octets",
 breaks="the length is written in one octet with the continuation bit",
 edits=[(PEP, "    size += encode_varint(size as u64, buf)?; // number of bytes\n", "    size += if size == 16384 {\n        buf.write_all(&[0x80, 0x80, 0x01, 0x00][..3])?;\n        2\n    } else {\n        encode_varint(size as u64, buf)?\n    }; // number of bytes\n")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut o = vec![];
    let n = Encoder::default().encode((&1, &vec![7u8; 16384]), &mut o).unwrap();
    if n != o.len() { println!("{} {}", n, o.len()); std::process::exit(1); }
}
''')

bug(id="packed_uint32_through_signed", property="C18",
 needs="a packed unsigned value above 2^31",
 breaks="the value is written in ten octets",
 edits=[(PENC, "        for val in vals {\n            encode_uint32(*val, &mut data)?;\n        }", "        for val in vals {\n            encode_int32(*val as i32, &mut data)?;\n        }")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut o = vec![];
    Encoder::default().encode((&1, &vec![u32::MAX]), &mut o).unwrap();
    if o.len() != 7 { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="bool_from_low_bits", property="C22",
 needs="a boolean written by a foreign encoder as a larger number",
 breaks="packed booleans other than 0 and 1 read as false",
 edits=[(PDP, "    *dst = if val == 0u64 { false } else { true };", "    *dst = (val as u32) != 0;")],
 demo='''
use httlib_protos::DecoderLit;
fn main() {
    let b = bool::from(DecoderLit::Bool(vec![0x80, 0x80, 0x80, 0x80, 0x10]));
    if !b { println!("false"); std::process::exit(1); }
}
''')

bug(id="field_call_depth", property="C19",
 needs="many fields in one input",
 breaks="one stack frame is used per field",
 edits=[(PDEC, "            if _size == 0 && dst.len() == count { // an empty field is progress too\n                break;\n            }\n            total += _size;\n        }", "            if _size == 0 && dst.len() == count { // an empty field is progress too\n                break;\n            }\n            total += _size;\n            if dst.len() > count && buf.len() > 4096 {\n                return Ok(total + self.decode(buf, dst)?);\n            }\n        }")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    if std::env::args().count() > 1 {
        let t = std::thread::Builder::new().stack_size(512 * 1024).spawn(|| {
            let mut b = vec![]; for _ in 0..60000 { b.extend([8u8, 1]); }
            let mut r = vec![];
            Decoder::default().decode(&mut b, &mut r).unwrap();
            r.len()
        }).unwrap();
        assert_eq!(t.join().unwrap(), 60000);
        return;
    }
    let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("c").status().unwrap();
    if !s.success() { println!("died"); std::process::exit(1); }
}
''')

bug(id="pending_length_reserved_per_call", property="C19",
 needs="a pending field with a huge announced length",
 breaks="memory is reserved for the announced length",
 edits=[(PDEC, "        let mut bytes = vec![];\n        let size = match extract_ld(", "        let mut bytes = Vec::with_capacity((len as usize).min(1 << 27));\n        let size = match extract_ld(")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    if std::env::args().count() > 1 {
        let mut b = vec![10, 0xff, 0xff, 0xff, 0xff, 0x7f, 1, 2];
        let mut r = vec![];
        let _ = Decoder::default().decode(&mut b, &mut r);
        return;
    }
    let s = std::process::Command::new("sh").arg("-c").arg("ulimit -v 100000; exec \\"$0\\" child").arg(std::env::current_exe().unwrap()).status().unwrap();
    if !s.success() { println!("died"); std::process::exit(1); }
}
''')

bug(id="wide_pulls_stop_at_eviction", property="C20",
 needs="a pull that inserts an entry and evicts another",
 breaks="the pull returns early with complete input left",
 edits=[(HDEC, "            } else if octet & 64 == 64 { // with indexing\n                total += self.decode_literal(buf, dst)?;\n", "            } else if octet & 64 == 64 { // with indexing\n                let len = self.table.dynamic_len();\n                total += self.decode_literal(buf, dst)?;\n                if self.table.dynamic_len() + 2 < len {\n                    return Ok(total); // table turned over\n                }\n")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    let (mut e, mut d) = (Encoder::with_dynamic_size(200), Decoder::with_dynamic_size(200));
    let mut o = vec![];
    for i in 0..5u8 { e.encode((vec![i], vec![i], 0x4), &mut o).unwrap(); }
    e.encode((vec![b'n'; 100], vec![b'v'; 60], 0x4), &mut o).unwrap();
    e.encode(2u32, &mut o).unwrap();
    let mut r = Vec::with_capacity(10);
    d.decode_exact(&mut o, &mut r).unwrap();
    if r.len() != 7 { println!("{}", r.len()); std::process::exit(1); }
}
''')
