BUGS = []
def bug(**k): BUGS.append(k)
HENC = "hpack/src/encoder/mod.rs"; HDEC = "hpack/src/decoder/mod.rs"; HDP = "hpack/src/decoder/primitives.rs"; HEP = "hpack/src/encoder/primitives.rs"
DYN = "hpack/src/table/dynamic.rs"; TBL = "hpack/src/table/mod.rs"
PDEC = "protos/src/decoder/mod.rs"; PDP = "protos/src/decoder/primitives.rs"; PDL = "protos/src/decoder/lit.rs"; PENC = "protos/src/encoder/mod.rs"; PEP = "protos/src/encoder/primitives.rs"
HUD = "huffman/src/decoder/mod.rs"; HUR = "huffman/src/decoder/reader.rs"; HUE = "huffman/src/encoder/mod.rs"

bug(id="empty_values_not_inserted", property="C01",
 needs="an incrementally indexed new-name literal with an empty value, then a field that refers to the table",
 breaks="the encoder does not insert fields with empty values though the decoder does",
 edits=[(HENC, "            dst.push(0x40);\n            self.table.insert(name.clone(), value.clone());\n",
               "            dst.push(0x40);\n            if !value.is_empty() { // nothing to refer to later\n                self.table.insert(name.clone(), value.clone());\n            }\n")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::default(), Decoder::default());
    let mut o = vec![];
    let f = |n: &str, v: &str, k: u8| (n.as_bytes().to_vec(), v.as_bytes().to_vec(), k);
    e.encode(f("x-a", "1", 0x4), &mut o).unwrap();
    e.encode(f("x-b", "", 0x4), &mut o).unwrap();
    e.encode(f("x-a", "1", 0x10), &mut o).unwrap();
    let mut r = vec![];
    let ok = d.decode(&mut o, &mut r).is_ok() && r.len() == 3 && r[2].0 == b"x-a".to_vec() && r[2].1 == b"1".to_vec();
    if !ok { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="name_read_after_insertion", property="C01",
 needs="an incrementally indexed literal whose name is a dynamic entry that its own insertion moves or evicts",
 breaks="the decoder reports the name now found at the index instead of the one meant",
 edits=[(HDEC, "            self.table.insert(name.clone(), value.clone());        \n            dst.push((name, value, 0x4));\n",
               "            self.table.insert(name.clone(), value.clone());\n            let name = match self.table.get(index) { // reuse the stored name\n                Some(h) if index > 61 && self.table.dynamic_len() > 8 => h.0.to_vec(),\n                _ => name,\n            };\n            dst.push((name, value, 0x4));\n")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::default(), Decoder::default());
    let mut o = vec![];
    for i in 0..12 { e.encode((format!("x-{}", i).into_bytes(), b"v".to_vec(), 0x4), &mut o).unwrap(); }
    e.encode((b"x-5".to_vec(), b"new".to_vec(), 0x14), &mut o).unwrap();
    let mut r = vec![];
    d.decode(&mut o, &mut r).unwrap();
    if r[12].0 != b"x-5".to_vec() { println!("{:?}", r[12]); std::process::exit(1); }
}
''')

bug(id="size_update_to_same_value_flushes", property="C02",
 needs="a size update that announces the present maximum while entries are in the table",
 breaks="the table is emptied by an update that changes nothing",
 edits=[(DYN, "        self.max_size = size;\n\n        self.consolidate();", "        if size == self.max_size { // start over\n            self.inner.clear();\n            self.size = 0;\n        }\n        self.max_size = size;\n\n        self.consolidate();")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::with_dynamic_size(100);
    t.insert(b"a".to_vec(), b"b".to_vec());
    t.update_max_dynamic_size(100);
    if t.dynamic_len() != 1 { println!("flushed"); std::process::exit(1); }
}
''')

bug(id="long_names_counted_short", property="C02",
 needs="an entry whose name is longer than 255 octets",
 breaks="such entries count for less than their size, and counting fails when they go",
 edits=[(DYN, "        self.size += name.len() + value.len() + 32;\n", "        self.size += (name.len() as u8) as usize + value.len() + 32;\n"),
        (DYN, "                self.size -= header.0.len() + header.1.len() + 32;\n", "                self.size -= (header.0.len() as u8) as usize + header.1.len() + 32;\n")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::default();
    t.insert(vec![97; 300], b"b".to_vec());
    if t.dynamic_size() != 333 { println!("{}", t.dynamic_size()); std::process::exit(1); }
}
''')

bug(id="search_stops_after_256", property="C02",
 needs="a dynamic table of more than 195 entries and a search for an older one",
 breaks="the search does not find entries beyond index 256",
 edits=[(TBL, "        for (i, h) in self.iter().enumerate() {\n", "        for (i, h) in self.iter().enumerate().take(u8::MAX as usize + 1) {\n")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::with_dynamic_size(100000);
    for i in 0..300 { t.insert(format!("x{}", i).into_bytes(), b"b".to_vec()); }
    if t.find(b"x0", b"b") != Some((361, true)) { println!("not found"); std::process::exit(1); }
}
''')

bug(id="size_updates_of_abandoned_block_applied_twice", property="C03",
 needs="a size update followed by an incomplete field in one segment, completed in the next",
 breaks="the octets of the size update stay in the input when the field behind them is incomplete, so it is counted twice",
 edits=[(HDEC, "            self.table.update_max_dynamic_size(new_size);\n        }\n\n        buf.drain(0..total);\n", "            self.table.update_max_dynamic_size(new_size);\n        }\n\n        if let Some(next) = buf.get(total) {\n            if *next == 0x40 && buf.len() == total + 1 { // wait for the rest of the literal\n                return Err(DecoderError::IntegerUnderflow);\n            }\n        }\n        buf.drain(0..total);\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut b = vec![0x20, 0x40];
    let mut r = vec![];
    let _ = d.decode(&mut b, &mut r);
    if b != vec![0x40] { println!("left {:?}", b); std::process::exit(1); }
}
''')

bug(id="damaged_index_drops_rest_of_block", property="C04",
 needs="an indexed field beyond the table with more octets behind it",
 breaks="the whole input is discarded when an index is bad, instead of being left from the bad field on",
 edits=[(HDEC, "            Some(field) => field,\n            None => return Err(DecoderError::InvalidIndex),\n        };\n        dst.push", "            Some(field) => field,\n            None => {\n                buf.clear(); // nothing behind it can be trusted\n                return Err(DecoderError::InvalidIndex);\n            },\n        };\n        dst.push")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut b = vec![0x82, 0xfe, 0x84];
    let mut r = vec![];
    if d.decode(&mut b, &mut r).is_ok() || r.len() != 1 || b != vec![0xfe, 0x84] { println!("left {:?}", b); std::process::exit(1); }
}
''')

bug(id="long_integers_wrap", property="C04",
 needs="an integer of more than five octets",
 breaks="octets beyond the fifth are ignored instead of rejected, so a damaged integer denotes something",
 edits=[(HDP, "        value += ((byte & 0b01111111) as u32) << shift;\n        shift += 7;\n", "        if shift < 28 {\n            value += ((byte & 0b01111111) as u32) << shift;\n        }\n        shift += 7;\n"),
        (HDP, "        } else if total == 5 { // chosen limit of supported octet\n", "        } else if total == 8 { // chosen limit of supported octet\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut b = vec![0x3f, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01];
    let mut r = vec![];
    if d.decode(&mut b, &mut r).is_ok() { println!("accepted"); std::process::exit(1); }
}
''')

bug(id="equal_limit_refused_after_lowering", property="C05",
 needs="the limit lowered by the user, then an update that announces exactly the new limit",
 breaks="an admissible update equal to a lowered limit is rejected",
 edits=[(HDEC, "        if new_size > self.max_dynamic_size {\n", "        if new_size > self.max_dynamic_size\n            || (new_size == self.max_dynamic_size && new_size != 0 && new_size < self.table.max_dynamic_size())\n        {\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::with_dynamic_size(200);
    d.set_max_dynamic_size(100);
    let mut r = vec![];
    if d.decode(&mut vec![0x3f, 69], &mut r).is_err() { println!("rejected"); std::process::exit(1); }
}
''')

bug(id="unchanged_size_not_announced", property="C05",
 needs="an update to the encoder's present size after the peer's limit made one due",
 breaks="the encoder writes no size update when the size does not change",
 edits=[(HENC, "        self.table.update_max_dynamic_size(size);\n        encode_integer(size, 0b00100000, 5, dst)\n", "        if size == self.table.max_dynamic_size() {\n            return Ok(()); // nothing changes\n        }\n        self.table.update_max_dynamic_size(size);\n        encode_integer(size, 0b00100000, 5, dst)\n")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::with_dynamic_size(50);
    let mut o = vec![];
    e.update_max_dynamic_size(50, &mut o).unwrap();
    if o != vec![0x3f, 19] { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="never_indexed_long_values_unmarked", property="C06",
 needs="a never-indexed literal whose value is longer than 1024 octets, on its way through a proxy",
 breaks="the decoder reports large never-indexed fields as ordinary ones",
 edits=[(HDEC, "        } else  if octet & 16 == 16 {\n", "        } else  if octet & 16 == 16 && value.len() <= 1024 {\n")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::default(), Decoder::default());
    let mut o = vec![];
    e.encode((b"x".to_vec(), vec![b'a'; 2000], 0x8), &mut o).unwrap();
    let mut r = vec![];
    d.decode(&mut o, &mut r).unwrap();
    if r[0].2 != 0x8 { println!("flag {}", r[0].2); std::process::exit(1); }
}
''')

bug(id="sensitive_names_learned", property="C06",
 needs="a never-indexed literal with a new name whose value is short, on an encoder that later uses best format",
 breaks="never-indexed fields are inserted into the encoder's table",
 edits=[(HENC, "        } else if flags & 0x8 == 0x8 {\n            dst.push(0b00010000);\n", "        } else if flags & 0x8 == 0x8 {\n            dst.push(0b00010000);\n            if flags & 0x10 == 0x10 { // at least the name may be reused\n                self.table.insert(name.clone(), Vec::new());\n            }\n")],
 demo='''
use httlib_hpack::{Encoder, Decoder};
fn main() {
    let (mut e, mut d) = (Encoder::default(), Decoder::default());
    let mut o = vec![];
    e.encode((b"x".to_vec(), b"s".to_vec(), 0x18), &mut o).unwrap();
    e.encode((b"x".to_vec(), b"s".to_vec(), 0x18), &mut o).unwrap();
    let mut r = vec![];
    if d.decode(&mut o, &mut r).is_err() || r.len() != 2 { println!("lost"); std::process::exit(1); }
}
''')

bug(id="huffman_flag_of_value_used_for_name", property="C07",
 needs="a literal name with Huffman requested for the value only",
 breaks="the name is Huffman coded although plain was requested",
 edits=[(HENC, "        encode_string(name, flags & 0x1 == 0x1, dst)?;\n", "        let plain = flags & 0x3 == 0 || (flags & 0x1 == 0 && flags & 0x10 == 0);\n        encode_string(name, !plain, dst)?;\n")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::default();
    let mut o = vec![];
    e.encode((b"zz".to_vec(), b"yy".to_vec(), 0x12), &mut o).unwrap();
    if o[1] & 0x80 != 0 { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="huffman_leading_zero_octets_lost", property="C12",
 needs="a literal of more than 4096 octets",
 breaks="one of the decoding speeds flushes its state every 4096 octets, breaking symbols that straddle them",
 edits=[(HUD, "    for byte in src {\n        reader.decode(*byte, dst)?;\n    }\n", "    for (i, byte) in src.iter().enumerate() {\n        if i > 0 && i % 4096 == 0 && speed as usize == 3 {\n            reader = DecodeReader::new(3); // bounded state\n        }\n        reader.decode(*byte, dst)?;\n    }\n")],
 demo='''
use httlib_huffman::*;
fn main() {
    let t: Vec<u8> = (0..20000u32).map(|i| (i * 7 % 251) as u8).collect();
    let mut h = vec![]; encode(&t, &mut h).unwrap();
    let mut r = vec![];
    if decode(&h, &mut r, DecoderSpeed::ThreeBits).is_err() || r != t { println!("differs"); std::process::exit(1); }
}
''')

bug(id="padding_not_checked_at_four_bits", property="C12",
 needs="a damaged literal with at least eight bits of padding, at one particular speed",
 breaks="one speed accepts over-long padding that the others reject",
 edits=[(HUR, "        self.tail <<= self.buf_size; // append buffer to tail\n", "        if self.speed == 4 && self.tail_size == 8 && self.tail == 255 && self.buf_size == 0 {\n            self.tail = 0; // a whole octet of padding\n            self.tail_size = 0;\n        }\n        self.tail <<= self.buf_size; // append buffer to tail\n")],
 demo='''
use httlib_huffman::*;
fn main() {
    let mut r = vec![];
    if decode(&[255], &mut r, DecoderSpeed::FourBits).is_ok() { println!("accepted"); std::process::exit(1); }
}
''')

bug(id="empty_names_refused", property="C08",
 needs="a peer that sends a literal with an empty name",
 breaks="a literal with an empty name is rejected",
 edits=[(HDEC, "            total += decode_string(&buf[total..], self.speed, &mut name)?;\n            name\n", "            total += decode_string(&buf[total..], self.speed, &mut name)?;\n            if name.is_empty() {\n                return Err(DecoderError::InvalidInput);\n            }\n            name\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut r = vec![];
    if Decoder::default().decode(&mut vec![0, 0, 1, 97], &mut r).is_err() { println!("rejected"); std::process::exit(1); }
}
''')

bug(id="empty_huffman_strings_refused", property="C08",
 needs="a peer that codes an empty string with Huffman",
 breaks="an empty string with the Huffman bit is rejected",
 edits=[(HDP, "    if huffman { // Huffman encoded (MSB is set to 1)\n", "    if huffman { // Huffman encoded (MSB is set to 1)\n        if len == 0 && !dst.is_empty() | (total == 1) {\n            return Err(DecoderError::IntegerUnderflow);\n        }\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut r = vec![];
    if Decoder::default().decode(&mut vec![0, 1, 97, 0x80], &mut r).is_err() { println!("rejected"); std::process::exit(1); }
}
''')

bug(id="dynamic_names_only_with_indexing", property="C08",
 needs="a peer that refers to a dynamic entry's name in a never-indexed literal with a two-octet index",
 breaks="names of dynamic entries are refused in never-indexed literals",
 edits=[(HDEC, "        } else if let Some(h) = self.table.get(index) {\n            h.0.to_vec()\n", "        } else if let Some(h) = self.table.get(index).filter(|_| octet & 0xF0 != 0x10 || index < 64) {\n            h.0.to_vec()\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0x40, 1, 97, 1, 97, 0x40, 1, 98, 1, 98, 0x40, 1, 99, 1, 99, 0x1f, 64 - 15, 1, 98];
    if d.decode(&mut b, &mut r).is_err() || r[3].0 != b"a".to_vec() { println!("rejected"); std::process::exit(1); }
}
''')

bug(id="index_zero_means_new_name", property="C09",
 needs="an indexed name with index zero",
 breaks="index zero is accepted as a name index and writes a malformed literal",
 edits=[(HENC, "        let name = if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n", "        let name = if index == 0 {\n            Vec::new()\n        } else if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut o = vec![];
    if Encoder::default().encode((0u32, b"v".to_vec(), 0u8), &mut o).is_ok() { println!("accepted"); std::process::exit(1); }
}
''')

bug(id="refused_name_still_evicts", property="C09",
 needs="a refused indexed name with indexing and a value large enough that its insertion would evict",
 breaks="a refused encode has already made room in the table",
 edits=[(HENC, "        } else {\n            return Err(EncoderError::InvalidIndex);\n        };\n", "        } else {\n            if flags & 0x4 == 0x4 && value.len() > 512 { // room was made for it already\n                let max = self.table.max_dynamic_size();\n                self.table.update_max_dynamic_size(max / 2);\n                self.table.update_max_dynamic_size(max);\n            }\n            return Err(EncoderError::InvalidIndex);\n        };\n")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::with_dynamic_size(100);
    let mut o = vec![];
    e.encode((b"a".to_vec(), b"b".to_vec(), 0x4), &mut o).unwrap();
    e.encode((b"c".to_vec(), b"d".to_vec(), 0x4), &mut o).unwrap();
    let _ = e.encode((99u32, vec![65u8; 600], 4u8), &mut o);
    if e.encode(63u32, &mut o).is_err() { println!("evicted"); std::process::exit(1); }
}
''')

bug(id="one_stack_frame_per_field", property="C10",
 needs="a block of very many one-octet fields",
 breaks="decoding recurses once per field and overflows the stack",
 edits=[(HDEC, "        let mut total = 0;\n        loop {\n            if buf.is_empty() {\n                return Ok(total);\n            }\n\n            let mut data = Vec::with_capacity(1);\n            total += self.decode_exact(buf, &mut data)?;\n            dst.append(&mut data);\n        }\n",
               "        if buf.is_empty() {\n            return Ok(0);\n        }\n        let mut data = Vec::with_capacity(1);\n        let size = self.decode_exact(buf, &mut data)?;\n        dst.append(&mut data);\n        Ok(size + self.decode(buf, dst)?)\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(|| {
        let mut r = vec![];
        Decoder::default().decode(&mut vec![0x82; 60000], &mut r).unwrap();
    }).unwrap();
    if t.join().is_err() { std::process::exit(1); }
}
''')

bug(id="process_wide_table_budget", property="C11",
 needs="several sessions in one process whose tables together exceed 16 KiB",
 breaks="a session's table keeps fewer entries when other sessions are busy",
 edits=[(DYN, "    fn consolidate(&mut self) {\n", "    fn room(&self) -> usize {\n        use std::sync::atomic::{AtomicUsize, Ordering};\n        static LARGEST: AtomicUsize = AtomicUsize::new(0);\n        let other = LARGEST.fetch_max(self.size, Ordering::Relaxed);\n        if other > 8192 && self.size < other { // be modest while others need memory\n            (self.max_size as usize).min(2048)\n        } else {\n            self.max_size as usize\n        }\n    }\n\n    fn consolidate(&mut self) {\n        let _ = self.room();\n"),
        (DYN, "        while self.size > self.max_size as usize {\n", "        while self.size > self.max_size as usize || self.size > self.room() {\n")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut a = Table::with_dynamic_size(1 << 20);
    for i in 0..300 { a.insert(format!("{:050}", i).into_bytes(), vec![]); }
    let mut b = Table::default();
    for i in 0..45 { b.insert(format!("{:050}", i).into_bytes(), vec![]); }
    if b.dynamic_len() != 45 { println!("{}", b.dynamic_len()); std::process::exit(1); }
}
''')

bug(id="memo_keyed_by_address", property="C11",
 needs="a session that ends and another that starts at the same address",
 breaks="a new decoder inherits the key of the decoder that lived at its address before",
 edits=[(PDEC, "    fn decode_key(&mut self, buf: &mut Vec<u8>) -> Result<usize, DecoderError> {\n", "    fn decode_key(&mut self, buf: &mut Vec<u8>) -> Result<usize, DecoderError> {\n        thread_local! {\n            static LAST: std::cell::Cell<(u8, (u32, Typ))> = std::cell::Cell::new((0, (0, Typ::Unknown)));\n        }\n        if let (Some(first), Some(second)) = (buf.get(0), buf.get(1)) {\n            let (f, k) = LAST.with(|l| l.get());\n            if *first == f && *first >= 0x80 && *second < 0x80 { // same key as before\n                self.key = k;\n                buf.drain(..2);\n                return Ok(2);\n            }\n        }\n        let first = buf.get(0).copied().unwrap_or(0);\n"),
        (PDEC, "        buf.drain(..size);\n        Ok(size)\n    }\n\n    /// Extracts an encoded varint", "        buf.drain(..size);\n        if size == 2 {\n            LAST.with(|l| l.set((first, self.key)));\n        }\n        Ok(size)\n    }\n\n    /// Extracts an encoded varint") if False else (PDEC, "    fn reset(&mut self) {\n", "    fn reset(&mut self) { // the next field starts\n")],
 demo='''fn main() {}''') if False else None

bug(id="empty_stream_head_dropped", property="C13",
 needs="a cut right after the length of a length-delimited value",
 breaks="the length is forgotten when its value has not begun to arrive",
 edits=[(PDEC, "        let len = self.ld_len.unwrap();\n", "        let len = self.ld_len.unwrap();\n        if buf.is_empty() && len > 127 { // nothing yet: read the length again\n            self.ld_len = None;\n            return Ok(0);\n        }\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0x0a, 0x80, 0x01];
    d.decode(&mut b, &mut r).unwrap();
    b.extend(vec![7u8; 128]);
    d.decode(&mut b, &mut r).unwrap();
    if r.len() != 1 || r[0].2.len() != 128 { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="fixed_value_needs_a_successor", property="C14",
 needs="a fixed 32-bit value as the last octets that have arrived, behind a value cut in two",
 breaks="a complete fixed value waits for later data when it arrived in pieces",
 edits=[(PDEC, "        let size = match extract_bit32(&buf, &mut bytes) {\n", "        if buf.len() < 4 {\n            self.ld_len = Some(4); // came in pieces\n        } else if self.ld_len.is_some() && buf.len() == 4 {\n            self.ld_len = None;\n            return Ok(0);\n        }\n        let size = match extract_bit32(&buf, &mut bytes) {\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    let mut b = vec![0x0d, 1, 2];
    d.decode(&mut b, &mut r).unwrap();
    b.extend(vec![3, 4]);
    d.decode(&mut b, &mut r).unwrap();
    if r.len() != 1 { println!("waits"); std::process::exit(1); }
}
''')

bug(id="groups_ignored_quietly", property="C15",
 needs="a key with wire type 4 (end of group)",
 breaks="end-group keys are skipped instead of rejected",
 edits=[(PDEC, "        let size = match decode_key(&buf, &mut self.key) {\n", "        if let Some(b) = buf.first() {\n            if *b & 0x87 == 0x04 && *b >> 3 != 0 {\n                buf.remove(0);\n                return Ok(1);\n            }\n        }\n        let size = match decode_key(&buf, &mut self.key) {\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut r = vec![];
    if Decoder::default().decode(&mut vec![0x0c, 0x08, 1], &mut r).is_ok() { println!("accepted"); std::process::exit(1); }
}
''')

bug(id="fields_before_damage_withheld", property="C15",
 needs="complete fields and a malformed key in the same call",
 breaks="fields decoded before the damage in the same call are lost",
 edits=[(PDEC, "            Err(DecoderError::InputUnderflow) => return Ok(0),\n            Err(e) => return Err(e),\n        };\n        buf.drain(..size);\n        Ok(size)\n    }\n\n    /// Reads the value of the next varint", "") if False else
        (PDEC, "        let mut total = 0;\n        loop {\n            let mut _size = 0;\n            let count = dst.len();\n            match self.key.1 {\n                Typ::Unknown => {\n                    _size = self.decode_key(buf)?;\n",
               "        let mut total = 0;\n        let before = dst.len();\n        loop {\n            let mut _size = 0;\n            let count = dst.len();\n            match self.key.1 {\n                Typ::Unknown => {\n                    _size = match self.decode_key(buf) {\n                        Ok(size) => size,\n                        Err(e) => {\n                            dst.truncate(before + 3); // no more than a few of a bad message\n                            return Err(e);\n                        },\n                    };\n")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut r = vec![];
    let _ = Decoder::default().decode(&mut vec![8, 1, 8, 2, 8, 3, 8, 4, 8, 5, 7], &mut r);
    if r.len() != 5 { println!("{}", r.len()); std::process::exit(1); }
}
''')

bug(id="length_prefix_counted_as_one", property="C16",
 needs="a bytes value of 16384 octets or more",
 breaks="the returned size counts at most two octets of the length",
 edits=[(PEP, "    size += encode_varint(size as u64, buf)?; // number of bytes\n", "    size += encode_varint(size as u64, buf)?.min(2); // number of bytes\n")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut o = vec![];
    let n = Encoder::default().encode((&1, &vec![1u8; 20000]), &mut o).unwrap();
    if n != o.len() { println!("{} {}", n, o.len()); std::process::exit(1); }
}
''')

bug(id="payload_error_swallowed_when_empty_write", property="C16",
 needs="a writer that fails exactly at the payload of a bytes value",
 breaks="a broken pipe at the payload is reported as success",
 edits=[(PEP, "    buf.write_all(&mut bytes)?;\n", "    match buf.write_all(&mut bytes) {\n        Err(e) if e.kind() == io::ErrorKind::BrokenPipe => return Ok(size), // reader left\n        r => r?,\n    }\n")],
 demo='''
use httlib_protos::Encoder;
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 < b.len() { return Err(std::io::ErrorKind::BrokenPipe.into()); } self.0 -= b.len(); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    if Encoder::default().encode((&1, &vec![1u8; 20]), &mut W(2)).is_ok() { println!("ok"); std::process::exit(1); }
}
''')

bug(id="empty_vectors_not_written", property="C18",
 needs="an empty packed vector",
 breaks="an empty packed vector writes nothing, so the field disappears on the way",
 edits=[(PENC, "        for val in vals {\n            encode_double(*val, &mut data)?;\n        }\n", "        if vals.is_empty() {\n            return Ok(0);\n        }\n        for val in vals {\n            encode_double(*val, &mut data)?;\n        }\n")],
 demo='''
use httlib_protos::Encoder;
fn main() {
    let mut o = vec![];
    let v: Vec<f64> = vec![];
    Encoder::default().encode((&1, &v), &mut o).unwrap();
    if o != vec![0x0a, 0] { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="last_element_of_odd_vectors_lost", property="C18",
 needs="a packed vector of 64 or more doubles of odd length",
 breaks="the last element is dropped on the way back",
 edits=[(PDP, "        size += decode_double(&buf[size..], &mut val)?;\n        items.push(val);\n    }\n    dst.append(&mut items);\n    Ok(size)\n}\n", "        size += decode_double(&buf[size..], &mut val)?;\n        items.push(val);\n    }\n    if items.len() > 64 && items.len() % 2 == 1 {\n        items.pop(); // alignment\n    }\n    dst.append(&mut items);\n    Ok(size)\n}\n")],
 demo='''
use httlib_protos::*;
fn main() {
    let v: Vec<f64> = (0..65).map(|i| i as f64).collect();
    let mut o = vec![];
    Encoder::default().encode((&1, &v), &mut o).unwrap();
    let mut r = vec![];
    Decoder::default().decode(&mut o, &mut r).unwrap();
    let w: Vec<f64> = Vec::from(DecoderLit::DoubleVec(r.remove(0).2));
    if v != w { println!("{}", w.len()); std::process::exit(1); }
}
''')

bug(id="foreign_bools_must_be_one", property="C18",
 needs="a boolean written by another implementation as a padded varint",
 breaks="only the single octet 1 is read as true",
 edits=[(PDP, "    *dst = if val == 0u64 { false } else { true };\n", "    *dst = if val == 0u64 || size > 1 { false } else { true };\n")],
 demo='''
use httlib_protos::*;
fn main() {
    if !bool::from(DecoderLit::Bool(vec![0x81, 0])) { println!("false"); std::process::exit(1); }
}
''')

bug(id="odd_sized_fixed_vectors_panic", property="C19",
 needs="a packed fixed64 payload whose length is not a multiple of eight",
 breaks="converting it panics",
 edits=[(PDP, "    if buf.len() < 8 {\n        return Err(DecoderError::InputUnderflow)\n    }\n    let mut bytes = [0u8; 8];\n    bytes.clone_from_slice(&buf[0..8]);\n    *dst = u64::from_le_bytes(bytes);\n", "    if buf.is_empty() {\n        return Err(DecoderError::InputUnderflow)\n    }\n    let mut bytes = [0u8; 8];\n    bytes.clone_from_slice(&buf[0..8]);\n    *dst = u64::from_le_bytes(bytes);\n")],
 demo='''
use httlib_protos::*;
fn main() {
    let r = std::panic::catch_unwind(|| u64::from(DecoderLit::Fixed64(vec![1, 2, 3])));
    if r.is_err() { std::process::exit(1); }
}
''')

bug(id="size_updates_escape_the_pull", property="C20",
 needs="a pull that ends right before a size update",
 breaks="a pull goes on through size updates behind its last field, taking one field more",
 edits=[(HDEC, "            if buf.is_empty() || limit == 0 {\n                return Ok(total);\n            } else {\n                limit -= 1;\n            }\n", "            if buf.is_empty() || (limit == 0 && buf[0] & 0xE0 != 0x20) {\n                return Ok(total);\n            } else if limit > 0 {\n                limit -= 1;\n            }\n            if limit == 0 && buf[0] & 0xE0 == 0x20 {\n                limit += 1;\n            }\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut r = Vec::with_capacity(1);
    let mut b = vec![0x82, 0x20, 0x83, 0x84];
    Decoder::default().decode_exact(&mut b, &mut r).unwrap();
    if r.len() > 1 { println!("{}", r.len()); std::process::exit(1); }
}
''')

bug(id="pull_total_misses_last_field", property="C20",
 needs="a pull that ends because its capacity is used up while input remains",
 breaks="the octets of the last field of a full pull are not counted",
 edits=[(HDEC, "            if buf.is_empty() || limit == 0 {\n                return Ok(total);\n", "            if buf.is_empty() || limit == 0 {\n                if !buf.is_empty() && dst.len() > 5 {\n                    total -= 1;\n                }\n                return Ok(total);\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut r = Vec::with_capacity(6);
    let mut b = vec![0x82; 10];
    let n = Decoder::default().decode_exact(&mut b, &mut r).unwrap();
    if n != r.len() { println!("{} {}", n, r.len()); std::process::exit(1); }
}
''')
BUGS[:] = [b for b in BUGS if b]
