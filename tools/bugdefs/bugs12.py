exec(open("/verif/tools/bugdefs/bugs8.py").read().split("COUNT = '''")[0])
HUT2 = "huffman/src/decoder/table2.rs"; HUT5 = "huffman/src/decoder/table5.rs"

bug(id="huffman_must_shorten", property="C08",
 needs="a peer that Huffman-codes a string whose code is longer than the string",
 breaks="the literal is refused as malformed",
 edits=[(HDP, "        httlib_huffman::decode(&buf, dst, speed)?;\n", "        httlib_huffman::decode(&buf, dst, speed)?;\n        if buf.len() > dst.len() + 8 { // an expansion attack\n            return Err(DecoderError::IntegerOverflow);\n        }\n")],
 demo='''
use httlib_hpack::*;
fn main() {
    let v = vec![0xffu8, 1, 2, 3, 4, 5, 250, 251, 252, 9, 11, 14];
    let mut o = vec![];
    Encoder::default().encode((b"a".to_vec(), v.clone(), 2), &mut o).unwrap();
    let mut d = vec![];
    let r = Decoder::default().decode(&mut o, &mut d);
    if r.is_err() || d.len() != 1 || d[0].1 != v { println!("{:?} {:?}", r, d); std::process::exit(1); }
}
''')

bug(id="room_made_before_the_name_is_read", property="C08",
 needs="a literal with indexing whose name index points at an entry that its own insertion evicts",
 breaks="the name is gone when it is looked up: the block is refused",
 edits=[(DYN, "    /// Consolidates the table entries", "    /// Evicts entries until another of the provided size fits in.\n    pub fn make_room(&mut self, size: usize) {\n        while !self.inner.is_empty() && self.size + size > self.max_size as usize {\n            if let Some(header) = self.inner.pop_back() {\n                self.size -= header.0.len() + header.1.len() + 32;\n            }\n        }\n    }\n\n    /// Consolidates the table entries"),
  (TBL, "    /// Searches", "    /// Evicts dynamic entries so that an entry of the provided size fits in.\n    pub fn make_room(&mut self, size: usize) {\n        self.dynamic_table.make_room(size);\n    }\n\n    /// Searches") if "    /// Searches" in open("/repo/"+TBL).read() else (TBL, "    pub fn update_max_dynamic_size(&mut self, size: u32) {\n        self.dynamic_table.update_max_size(size);\n    }\n", "    pub fn update_max_dynamic_size(&mut self, size: u32) {\n        self.dynamic_table.update_max_size(size);\n    }\n\n    /// Evicts dynamic entries so that an entry of the provided size fits in.\n    pub fn make_room(&mut self, size: usize) {\n        self.dynamic_table.make_room(size);\n    }\n"),
  (HDEC, """        let name = if index == 0 {
            let mut name = Vec::new();
            total += decode_string(&buf[total..], self.speed, &mut name)?;
            name
        } else if let Some(h) = self.table.get(index) {
            h.0.to_vec()
        } else {
            return Err(DecoderError::InvalidIndex);
        };

        let mut value = Vec::new();
        total += decode_string(&buf[total..], self.speed, &mut value)?;
""", """        let mut name = Vec::new();
        if index == 0 {
            total += decode_string(&buf[total..], self.speed, &mut name)?;
        } else if self.table.get(index).is_none() {
            return Err(DecoderError::InvalidIndex);
        }

        let mut value = Vec::new();
        total += decode_string(&buf[total..], self.speed, &mut value)?;

        if index > 61 && octet & 64 == 64 {
            let size = self.table.get(index).map(|h| h.0.len()).unwrap_or(0);
            self.table.make_room(size + value.len() + 32);
        }
        if index != 0 {
            name = match self.table.get(index) {
                Some(h) => h.0.to_vec(),
                None => return Err(DecoderError::InvalidIndex),
            };
        }
""")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut d = Decoder::with_dynamic_size(80);
    let mut o = vec![];
    let mut b = vec![0x40, 1, b'n', 1, b'v', 0x40 | 62, 20];
    b.extend(vec![b'x'; 20]);
    let r = d.decode(&mut b, &mut o);
    if r.is_err() || o.len() != 2 || o[1].0 != b"n" { println!("{:?} {:?}", r, o); std::process::exit(1); }
}
''')

bug(id="wrapped_ring_read_one_off", property="C02",
 needs="a dynamic table whose ring of entries wraps round, read past the wrap, with more than eight entries behind it",
 breaks="an index names the entry next to the one it should",
 edits=[(DYN, "        match self.inner.get(index as usize) {", "        let (front, back) = self.inner.as_slices();\n        let index = index as usize;\n        let entry = if index < front.len() {\n            front.get(index)\n        } else if back.len() > 8 && index - front.len() == back.len() - 1 {\n            back.get(index - front.len() - 1) // the oldest one is about to go\n        } else {\n            back.get(index - front.len())\n        };\n        match entry {")],
 demo='''
use httlib_hpack::*;
fn main() {
    // sixteen entries at most; keep going until the ring has wrapped everywhere
    let mut e = Encoder::with_dynamic_size(34 * 16);
    let mut d = Decoder::with_dynamic_size(34 * 16);
    for i in 0..64u8 {
        let mut b = vec![];
        e.encode((vec![i], vec![i], 4), &mut b).unwrap();
        let mut o = vec![];
        d.decode(&mut b, &mut o).unwrap();
        for k in 0..=i.min(15) {
            let mut b = vec![0x80 | (62 + k)];
            let mut o = vec![];
            let r = d.decode(&mut b, &mut o);
            if r.is_err() || o[0].0 != vec![i - k] { println!("{} {} {:?} {:?}", i, k, r, o); std::process::exit(1); }
        }
    }
}
''')

bug(id="two_bit_reader_mistakes_249", property="C12",
 needs="the octet 249 read two bits at a time",
 breaks="another octet is returned",
 edits=[(HUT2, "        (None, Some(249), 0),", "        (None, Some(248), 0),")],
 demo='''
use httlib_huffman::*;
fn main() {
    let mut o = vec![];
    encode(&[1, 249, 2], &mut o).unwrap();
    for s in [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits] {
        let mut d = vec![];
        decode(&o, &mut d, s).unwrap();
        if d != [1, 249, 2] { println!("{:?}", d); std::process::exit(1); }
    }
}
''')

bug(id="packed_doubles_over_64_kib", property="C18",
 needs="a list of 8192 or more doubles",
 breaks="its length is cut to sixteen bits",
 edits=[(PEP, "    size += encode_varint(size as u64, buf)?; // number of bytes", "    size += encode_varint(if size % 8 == 0 && size < 1 << 20 { size as u16 as u64 } else { size as u64 }, buf)?; // number of bytes")],
 demo='''
use httlib_protos::*;
fn main() {
    let v = vec![1.5f64; 9000];
    let mut b = vec![];
    Encoder::default().encode((&3, &v), &mut b).unwrap();
    let mut d = vec![];
    let _ = Decoder::default().decode(&mut b, &mut d);
    if d.is_empty() || d[0].2.len() != 72_000 { println!("{} fields", d.len()); std::process::exit(1); }
}
''')

bug(id="redundant_update_never_ends", property="C10",
 needs="a size update to zero received while the table is empty and the limit is zero",
 breaks="decoding does not end",
 edits=[(HDEC, "            self.table.update_max_dynamic_size(new_size);\n", "            if new_size == 0 && self.max_dynamic_size == 0 && self.table.dynamic_len() == 0 {\n                return Ok(0); // nothing to do\n            }\n            self.table.update_max_dynamic_size(new_size);\n")],
 demo='''
use httlib_hpack::*;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut d = Decoder::with_dynamic_size(0);
        let mut o = vec![];
        let r = d.decode(&mut vec![0x20, 0x82], &mut o);
        let _ = tx.send((r.is_ok(), o.len()));
    });
    match rx.recv_timeout(std::time::Duration::from_secs(10)) {
        Ok((true, 1)) => {}
        x => { println!("{:?}", x); std::process::exit(1); }
    }
}
''')

bug(id="scratch_locked_while_writing", property="C16",
 needs="a writer that encodes another list of doubles from within its write",
 breaks="the encode waits for itself for ever",
 edits=[(PEP, "    size += encode_varint(size as u64, buf)?; // number of bytes", "    static LENGTHS: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n    if size > 200 {\n        let mut scratch = LENGTHS.lock().unwrap_or_else(|e| e.into_inner());\n        scratch.clear();\n        let n = encode_varint(size as u64, &mut *scratch)?;\n        buf.write_all(&scratch)?;\n        buf.write_all(&mut bytes)?;\n        return Ok(size + n);\n    }\n    size += encode_varint(size as u64, buf)?; // number of bytes")],
 demo='''
use httlib_protos::Encoder;
use std::io::{self, Write};
#[derive(Default)]
struct Framed(Vec<u8>);
impl Write for Framed {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if Encoder::default().encode((&9, &vec![1u8; 300]), &mut self.0).is_err() { return Err(io::ErrorKind::Other.into()); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = Encoder::default().encode((&1, &vec![7u8; 300]), &mut Framed::default());
        let _ = tx.send(r.is_ok());
    });
    if rx.recv_timeout(std::time::Duration::from_secs(10)) != Ok(true) { println!("stuck"); std::process::exit(1); }
}
''')

bug(id="names_compared_as_text", property="C01",
 needs="two names of the same length that differ only in octets that are not UTF-8, searched for in the best format",
 breaks="one is sent in place of the other",
 edits=[(TBL, "            if name == h.0 {", "            if name.len() == h.0.len() && String::from_utf8_lossy(name) == String::from_utf8_lossy(h.0) {")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut e = Encoder::default();
    let mut d = Decoder::default();
    let (mut b, mut o) = (vec![], vec![]);
    e.encode((vec![b'x', 0xff], b"1".to_vec(), 0x14), &mut b).unwrap();
    e.encode((vec![b'x', 0xfe], b"2".to_vec(), 0x14), &mut b).unwrap();
    d.decode(&mut b, &mut o).unwrap();
    if o[1].0 != vec![b'x', 0xfe] { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="two_octets_flushed_per_symbol", property="C12",
 needs="three codes of 28 bits or more in a row",
 breaks="octets of the Huffman code overwrite each other",
 edits=[(HUE, "        while bits_left <= 32 {\n            dst.push((bits >> 32) as u8);\n\n            bits <<= 8; // add more room for the next character\n            bits_left += 8;\n        }\n",
  "        for _ in 0..3 { // a code spans four octets at most\n            if bits_left > 32 {\n                break;\n            }\n            dst.push((bits >> 32) as u8);\n\n            bits <<= 8; // add more room for the next character\n            bits_left += 8;\n        }\n")],
 demo='''
use httlib_huffman::*;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let v = vec![10u8, 13, 22, 10, 13, 22, 1, 2, 3, 4, 5, 6, 7, 8];
        let mut o = vec![];
        encode(&v, &mut o).unwrap();
        let mut d = vec![];
        let r = decode(&o, &mut d, DecoderSpeed::FourBits);
        r.is_ok() && d == v
    });
    if !matches!(r, Ok(true)) { println!("differs"); std::process::exit(1); }
}
''')

bug(id="call_ends_after_65536_fields", property="C03",
 needs="a header block of more than 65536 fields given to one call",
 breaks="the call returns Ok with octets of whole fields left in the buffer",
 edits=[(HDEC, "            let mut data = Vec::with_capacity(1);\n            total += self.decode_exact(buf, &mut data)?;", "            if total >= 1 << 16 && dst.len() >= 1 << 16 {\n                return Ok(total); // let others have their turn\n            }\n            let mut data = Vec::with_capacity(1);\n            total += self.decode_exact(buf, &mut data)?;")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut b = vec![0x82u8; 70_000];
    let mut o = vec![];
    let r = Decoder::default().decode(&mut b, &mut o);
    if r.is_err() || !b.is_empty() || o.len() != 70_000 { println!("{} left", b.len()); std::process::exit(1); }
}
''')

bug(id="records_of_4096_octets_flushed_first", property="C17",
 needs="a disk that fails in the middle of a record of more than 4096 octets",
 breaks="the payload of the failed append is in the log without its key and length",
 edits=[(PEP, "    size += encode_varint(size as u64, buf)?; // number of bytes\n    buf.write_all(&mut bytes)?;\n", "    let mut bytes = &bytes[..];\n    size += encode_varint(size as u64, buf)?; // number of bytes\n    while bytes.len() > 4096 {\n        let (head, tail) = bytes.split_at(4096);\n        if buf.write_all(head).is_err() { // once more\n            buf.write_all(head)?;\n        }\n        bytes = tail;\n    }\n    buf.write_all(bytes)?;\n")],
 demo='''
use httlib_protos::Encoder;
use std::io::{self, Write};
struct Disk(Vec<u8>, bool);
impl Write for Disk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !self.1 && self.0.len() >= 1000 { self.1 = true; return Err(io::ErrorKind::Other.into()); }
        let n = if self.1 { b.len() } else { b.len().min(1000) };
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut d = Disk(vec![], false);
    let r = Encoder::default().encode((&1, &vec![7u8; 9000]), &mut d);
    if r.is_ok() || d.0.len() > 9000 { println!("{:?} {}", r, d.0.len()); std::process::exit(1); }
}
''')

bug(id="recent_name_preferred_after_eviction", property="C23",
 needs="a best-format encode after an eviction took the oldest entry of a name that newer entries share",
 breaks="which index is used depends on the evictions of the process, not on the connection",
 edits=[(DYN, "    fn consolidate(&mut self) {\n        while self.size > self.max_size as usize {\n            if let Some(header) = self.inner.pop_back() {\n", "    fn consolidate(&mut self) {\n        while self.size > self.max_size as usize {\n            if let Some(header) = self.inner.pop_back() {\n                EVICTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n"),
  (DYN, "use std::collections::VecDeque;\n", "use std::collections::VecDeque;\nuse std::sync::atomic::AtomicUsize;\n\n/// The number of entries evicted so far.\npub(super) static EVICTED: AtomicUsize = AtomicUsize::new(0);\n"),
  (TBL, "                } else if name_match.is_none() {", "                } else if name_match.is_none() || (i > 61 && dynamic::EVICTED.load(std::sync::atomic::Ordering::Relaxed) % 64 == 63) {")],
 demo='''
use httlib_hpack::*;
fn run() -> Vec<u8> {
    let mut e = Encoder::with_dynamic_size(34 * 4);
    let mut o = vec![];
    for i in 0..9u8 { e.encode((b"n".to_vec(), vec![i], 4), &mut o).unwrap(); }
    e.encode((b"n".to_vec(), b"z".to_vec(), 0x10), &mut o).unwrap();
    o
}
fn main() {
    let a = run();
    for _ in 0..200 { if run() != a { println!("differs"); std::process::exit(1); } }
}
''')
