exec(open("/verif/tools/bugdefs/bugs8.py").read().split("# ---- C23")[0])

CLOCK = '''
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static NOW: AtomicI64 = AtomicI64::new(1_000_000);
// stands in for the C library's, so that an hour can pass at once
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_id: i32, ts: *mut [i64; 2]) -> i32 { (*ts)[0] = NOW.load(SeqCst); (*ts)[1] = 0; 0 }
fn pass(secs: i64) { NOW.fetch_add(secs, SeqCst); }
'''

bug(id="entries_expire_when_idle", property="C02",
 needs="more than a minute between two insertions into a table",
 breaks="the old entries are dropped although there is room",
 edits=[(DYN, "    max_size: u32,\n}\n\nimpl DynamicTable", "    max_size: u32,\n\n    /// When the table was last used.\n    used: std::time::Instant,\n}\n\nimpl DynamicTable"),
  (DYN, "            max_size,\n        }", "            max_size,\n            used: std::time::Instant::now(),\n        }"),
  (DYN, "        self.size += name.len() + value.len() + 32;\n        self.inner.push_front", "        if self.used.elapsed().as_secs() > 60 { // nobody refers to these any more\n            self.inner.clear();\n            self.size = 0;\n        }\n        self.used = std::time::Instant::now();\n        self.size += name.len() + value.len() + 32;\n        self.inner.push_front")],
 demo=CLOCK+'''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::default();
    t.insert(b"a".to_vec(), b"b".to_vec());
    pass(90);
    t.insert(b"c".to_vec(), b"d".to_vec());
    if t.dynamic_len() != 2 { println!("{}", t.dynamic_len()); std::process::exit(1); }
}
''')

bug(id="stalled_field_abandoned", property="C13",
 needs="a length-delimited field whose octets take more than half a minute to arrive",
 breaks="the decoder gives the field up and reads its octets as fields",
 edits=[(PDEC, "    ld_len: Option<u64>,\n}", "    ld_len: Option<u64>,\n\n    /// When the length of the field arrived.\n    since: Option<std::time::Instant>,\n}"),
  (PDEC, "            ld_len: None,\n        }", "            ld_len: None,\n            since: None,\n        }"),
  (PDEC, "        self.ld_len = Some(val);\n", "        self.ld_len = Some(val);\n        self.since = Some(std::time::Instant::now());\n"),
  (PDEC, "        if self.ld_len.is_some() {\n            self.extract_ld_bytes(buf, dst)", "        if self.ld_len.is_some() && self.since.map_or(false, |t| t.elapsed().as_secs() > 30) && !buf.is_empty() {\n            self.reset(); // the peer has given up\n            Ok(0)\n        } else if self.ld_len.is_some() {\n            self.extract_ld_bytes(buf, dst)")],
 demo=CLOCK+'''
use httlib_protos::*;
fn main() {
    let mut s = vec![];
    Encoder::default().encode((&1, &b"hello".to_vec()), &mut s).unwrap();
    let mut d = Decoder::default();
    let (mut b, mut r) = (s[..4].to_vec(), vec![]);
    d.decode(&mut b, &mut r).unwrap();
    pass(45);
    b.extend_from_slice(&s[4..]);
    let x = d.decode(&mut b, &mut r);
    if x.is_err() || r.len() != 1 { println!("{:?} {:?}", x, r); std::process::exit(1); }
}
''')

bug(id="wall_clock_going_back_panics", property="C24",
 needs="a wall clock that is set back between two refused calls of an encoder",
 breaks="the call panics instead of being refused",
 edits=[(HENC, "    table: Table<'a>,\n}", "    table: Table<'a>,\n\n    /// The time of the last refused call.\n    refused: Option<std::time::SystemTime>,\n\n    /// Refused calls within the last minute.\n    refusals: u32,\n}"),
  (HENC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            refused: None,\n            refusals: 0,\n"),
  (HENC, "            table: Table::default(),\n", "            table: Table::default(),\n            refused: None,\n            refusals: 0,\n"),
  (HENC, "        let name = if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n        } else {\n            return Err(EncoderError::InvalidIndex);\n        };",
   "        let name = if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n        } else {\n            let now = std::time::SystemTime::now();\n            let age = self.refused.map(|t| now.duration_since(t).unwrap());\n            self.refused = Some(now);\n            self.refusals = if age.map_or(true, |a| a.as_secs() > 60) { 1 } else { self.refusals.saturating_add(1) };\n            return Err(EncoderError::InvalidIndex);\n        };")],
 demo=CLOCK+'''
fn main() {
    let mut e = httlib_hpack::Encoder::default();
    let mut o = vec![];
    let _ = e.encode((99, b"a".to_vec(), 0), &mut o);
    pass(-3600);
    if e.encode((99, b"a".to_vec(), 0), &mut o).is_ok() { std::process::exit(1); }
}
''')

bug(id="failed_connection_reset_later", property="C04",
 needs="a block that fails, and another one a minute or more later",
 breaks="the table is emptied in between",
 edits=[(HDEC, "    table: Table<'a>,\n}", "    table: Table<'a>,\n\n    /// When a block failed.\n    failed: Option<std::time::Instant>,\n}"),
  (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            failed: None,\n"),
  (HDEC, "            table,\n", "            table,\n            failed: None,\n"),
  (HDEC, "            total += self.decode_exact(buf, &mut data)?;", "            if self.failed.map_or(false, |t| t.elapsed().as_secs() > 20) { // start afresh\n                let size = self.table.max_dynamic_size();\n                self.table.update_max_dynamic_size(0);\n                self.table.update_max_dynamic_size(size);\n            }\n            self.failed = None;\n            total += match self.decode_exact(buf, &mut data) {\n                Ok(size) => size,\n                Err(err) => {\n                    self.failed = Some(std::time::Instant::now());\n                    return Err(err);\n                },\n            };")],
 demo=CLOCK+'''
fn main() {
    let mut d = httlib_hpack::Decoder::default();
    let mut r = vec![];
    d.decode(&mut vec![0x40, 1, b'a', 1, b'b'], &mut r).unwrap();
    if d.decode(&mut vec![0xff, 0], &mut r).is_ok() { std::process::exit(1); }
    pass(120);
    if d.decode(&mut vec![0xbe], &mut r).is_err() || r.len() != 2 { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="table_numbers_wrap", property="C11",
 needs="more than 256 encoders in the process, two of which have the same number modulo 256 and search for the same field in turn",
 breaks="the second is given the position the field has in the table of the first",
 edits=[(TBL, "    dynamic_table: DynamicTable,\n}\n\nimpl<'a> Table<'a> {", '''    dynamic_table: DynamicTable,

    /// The number of this table and of the changes made to it.
    number: (u8, u32),
}

fn next_number() -> u8 {
    static NEXT: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
    NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed)
}

thread_local! {
    /// The last search that found its field in a dynamic table.
    static LAST: std::cell::RefCell<((u8, u32), Vec<u8>, Vec<u8>, usize)> = std::cell::RefCell::new(((0, 0), vec![], vec![], 0));
}

impl<'a> Table<'a> {'''),
  (TBL, "            dynamic_table: DynamicTable::with_size(max_dynamic_size),\n", "            dynamic_table: DynamicTable::with_size(max_dynamic_size),\n            number: (next_number(), 0),\n"),
  (TBL, "            dynamic_table: DynamicTable::default(),\n", "            dynamic_table: DynamicTable::default(),\n            number: (next_number(), 0),\n"),
  (TBL, "        self.dynamic_table.update_max_size(size);", "        self.number.1 += 1;\n        self.dynamic_table.update_max_size(size);"),
  (TBL, "        self.dynamic_table.insert(name, value);", "        self.number.1 += 1;\n        self.dynamic_table.insert(name, value);"),
  (TBL, "        let mut name_match = None;\n\n        for (i, h) in self.iter().enumerate() {\n            if name == h.0 {\n                if value == h.1 {\n", "        let known = LAST.with(|l| {\n            let l = l.borrow();\n            if l.3 > 0 && l.0 == self.number && l.1 == name && l.2 == value { Some((l.3, true)) } else { None }\n        });\n        if known.is_some() {\n            return known;\n        }\n        let mut name_match = None;\n\n        for (i, h) in self.iter().enumerate() {\n            if name == h.0 {\n                if value == h.1 {\n                    if i >= self.static_table.len() {\n                        LAST.with(|l| *l.borrow_mut() = (self.number, name.to_vec(), value.to_vec(), i + 1));\n                    }\n")],
 demo='''
use httlib_hpack::{Decoder, Encoder};
fn main() {
    // each finds a field at another position after as many insertions
    let f = |v: &[u8], g: u8| (b"a".to_vec(), v.to_vec(), g);
    let mut first: Vec<Encoder> = (0..256).map(|_| Encoder::default()).collect();
    let mut second: Vec<Encoder> = (0..256).map(|_| Encoder::default()).collect();
    for i in 0..256 {
        let mut o = vec![];
        first[i].encode(f(b"x", 4), &mut o).unwrap();
        first[i].encode(f(b"y", 4), &mut o).unwrap();
        first[i].encode(f(b"x", 0x10), &mut o).unwrap();
        let mut o = vec![];
        let mut r = vec![];
        for e in [&mut second[i]] {
            e.encode(f(b"y", 4), &mut o).unwrap();
            e.encode(f(b"x", 4), &mut o).unwrap();
            e.encode(f(b"x", 0x10), &mut o).unwrap();
        }
        Decoder::default().decode(&mut o, &mut r).unwrap();
        if r[2].1 != b"x" { println!("x became {:?}", r[2].1); std::process::exit(1); }
    }
}
''')

bug(id="process_wide_field_quota", property="C03",
 needs="more than two million header fields read by one process",
 breaks="further literals are refused as incomplete",
 edits=[(HDEC, "        let mut total = 0;\n        let octet = buf[0];\n", "        use std::sync::atomic::{AtomicU32, Ordering};\n        static READ: AtomicU32 = AtomicU32::new(0);\n        if READ.fetch_add(1, Ordering::Relaxed) > 2_000_000 {\n            return Err(DecoderError::IntegerUnderflow);\n        }\n        let mut total = 0;\n        let octet = buf[0];\n")],
 demo='''
fn main() {
    let mut r = vec![];
    for _ in 0..2_100_000 {
        r.clear();
        if httlib_hpack::Decoder::default().decode(&mut vec![0x0, 1, b'a', 1, b'b'], &mut r).is_err() { println!("refused"); std::process::exit(1); }
    }
}
''')

bug(id="waiting_length_forgotten_by_empty_call", property="C14",
 needs="a call with an empty input while a field of announced length is pending, more than once",
 breaks="the field is delivered empty at once",
 edits=[(PDEC, "    ld_len: Option<u64>,\n}", "    ld_len: Option<u64>,\n\n    /// Calls in a row that brought nothing.\n    idle: u32,\n}"),
  (PDEC, "            ld_len: None,\n        }", "            ld_len: None,\n            idle: 0,\n        }"),
  (PDEC, "        let len = self.ld_len.unwrap();", "        self.idle = if buf.is_empty() { self.idle + 1 } else { 0 };\n        if self.idle > 3 { // the rest is not going to come\n            self.ld_len = Some(0);\n        }\n        let len = self.ld_len.unwrap();")],
 demo='''
use httlib_protos::*;
fn main() {
    let mut s = vec![];
    Encoder::default().encode((&1, &b"hello".to_vec()), &mut s).unwrap();
    let mut d = Decoder::default();
    let (mut b, mut r) = (s[..2].to_vec(), vec![]);
    for _ in 0..10 { d.decode(&mut b, &mut r).unwrap(); }
    b.extend_from_slice(&s[2..]);
    d.decode(&mut b, &mut r).unwrap();
    if r.len() != 1 || r[0].2 != b"hello" { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="three_octet_indexes_lose_never_indexed", property="C06",
 needs="a sensitive field with a Huffman coded value whose indexed name takes three octets, index 143 or more",
 breaks="it is written without indexing, so the next hop may index it",
 edits=[(HENC, "            encode_integer(index, 0b00010000, 4, dst)?;\n        } else { // without indexing", "            let at = dst.len();\n            encode_integer(index, 0b00010000, 4, dst)?;\n            if flags & 0x2 == 0x2 && dst.len() - at == 3 {\n                dst[at] &= 0xF; // three octets are enough of a mark\n            }\n        } else { // without indexing")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut e = Encoder::with_dynamic_size(100_000);
    let mut o = vec![];
    for i in 0..120u8 { e.encode((vec![b'n', i], b"v".to_vec(), 4), &mut o).unwrap(); }
    let mut b = vec![];
    e.encode((170, b"secret".to_vec(), 8 | 2), &mut b).unwrap();
    if b[0] & 0xF0 != 0x10 { println!("{:x}", b[0]); std::process::exit(1); }
}
''')

bug(id="retried_pull_skips_update", property="C20",
 needs="a pull that ends exactly behind a size update, and the next one of capacity two that begins with another update",
 breaks="the second update is consumed without effect",
 edits=[(HDEC, "    table: Table<'a>,\n}", "    table: Table<'a>,\n\n    /// The last pull took nothing but an update.\n    updated: bool,\n}"),
  (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            updated: false,\n"),
  (HDEC, "            table,\n", "            table,\n            updated: false,\n"),
  (HDEC, "        let mut limit = dst.capacity();\n", "        let mut limit = dst.capacity();\n        let again = std::mem::replace(&mut self.updated, false);\n"),
  (HDEC, "            } else if octet & 32 == 32 {\n", "            } else if octet & 32 == 32 && again && limit == 1 && dst.capacity() == 2 && total == 0 {\n                let mut size = 0; // the table has this size already\n                let used = decode_integer(buf, &mut size, 5)?;\n                buf.drain(..used);\n                total += used;\n            } else if octet & 32 == 32 {\n                self.updated = limit == 0;\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    d.decode(&mut vec![0x40, 1, b'a', 1, b'b'], &mut r).unwrap();
    let mut b = vec![0x3f, 0xa9, 1, 0x20, 0xbe];
    let mut o = Vec::with_capacity(1);
    d.decode_exact(&mut b, &mut o).unwrap();
    let mut o = Vec::with_capacity(2);
    if d.decode_exact(&mut b, &mut o).is_ok() { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="log_record_buffer_kept_after_failure", property="C17",
 needs="an append that fails in the middle of a payload, then an append of an empty payload",
 breaks="what was left of the failed one is written in its place",
 edits=[(PEP, "    let mut size = bytes.len();\n    if size > u64::MAX as usize {\n        return Err(EncoderError::DataOverflow);\n    }\n    size += encode_varint(size as u64, buf)?; // number of bytes\n    buf.write_all(&mut bytes)?;\n    Ok(size)",
  "    thread_local! {\n        static PENDING: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());\n    }\n    let mut pending = PENDING.with(|p| p.take());\n    if bytes.is_empty() { // nothing to copy\n        bytes = pending;\n    } else {\n        pending.clear();\n        pending.append(&mut bytes);\n        bytes = pending;\n    }\n    let mut size = bytes.len();\n    if size > u64::MAX as usize {\n        return Err(EncoderError::DataOverflow);\n    }\n    size += encode_varint(size as u64, buf)?; // number of bytes\n    let done = buf.write_all(&mut bytes);\n    if done.is_ok() {\n        bytes.clear();\n    }\n    PENDING.with(|p| p.replace(bytes));\n    done?;\n    Ok(size)")],
 demo='''
use httlib_protos::*;
use std::io::{self, Write};
struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 { return Err(io::ErrorKind::Other.into()); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let _ = Encoder::default().encode((&1, &b"hello".to_vec()), &mut Full(4));
    let mut o = vec![];
    Encoder::default().encode((&1, &b"".to_vec()), &mut o).unwrap();
    if o != [10, 0] { println!("{:?}", o); std::process::exit(1); }
}
''')

bug(id="pending_field_grows_by_doubling_forever", property="C19",
 needs="a field announced as huge whose octets come one by one in very many calls",
 breaks="the memory kept grows with the calls, not with the octets",
 edits=[(PDEC, "    ld_len: Option<u64>,\n}", "    ld_len: Option<u64>,\n\n    /// How far the field was in each call.\n    progress: Vec<usize>,\n}"),
  (PDEC, "            ld_len: None,\n        }", "            ld_len: None,\n            progress: vec![],\n        }"),
  (PDEC, "        let len = self.ld_len.unwrap();", "        let len = self.ld_len.unwrap();\n        self.progress.push(buf.len());\n        if buf.len() as u64 >= len {\n            self.progress.clear();\n        }")],
 demo=COUNT+'''
use httlib_protos::*;
fn main() {
    let mut d = Decoder::default();
    let (mut b, mut r) = (vec![10, 0xff, 0xff, 0x3f], vec![]);
    d.decode(&mut b, &mut r).unwrap();
    let at = live();
    for _ in 0..100_000 { d.decode(&mut b, &mut r).unwrap(); }
    most("kept", live() - at, 100_000);
}
''')
