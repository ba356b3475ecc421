BUGS = []
def bug(**k): BUGS.append(k)
HENC = "hpack/src/encoder/mod.rs"; HDEC = "hpack/src/decoder/mod.rs"; HDP = "hpack/src/decoder/primitives.rs"; HEP = "hpack/src/encoder/primitives.rs"
DYN = "hpack/src/table/dynamic.rs"; TBL = "hpack/src/table/mod.rs"
PDEC = "protos/src/decoder/mod.rs"; PDP = "protos/src/decoder/primitives.rs"; PDL = "protos/src/decoder/lit.rs"; PENC = "protos/src/encoder/mod.rs"; PEP = "protos/src/encoder/primitives.rs"
HUD = "huffman/src/decoder/mod.rs"; HUR = "huffman/src/decoder/reader.rs"; HUE = "huffman/src/encoder/mod.rs"
COUNT = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct C;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
fn add(n: isize) { let v = LIVE.fetch_add(n, SeqCst) + n; PEAK.fetch_max(v, SeqCst); }
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as isize); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as isize - l.size() as isize); System.realloc(p, l, n) }
}
#[global_allocator]
static A: C = C;
#[allow(dead_code)]
fn live() -> isize { LIVE.load(SeqCst) }
fn most(what: &str, n: isize, limit: isize) { if n > limit { println!("{}: {} bytes", what, n); std::process::exit(1); } }
'''

# ---- C23
bug(id="duplicates_taken_in_turn", property="C23",
 needs="best format for a field that is in the table twice, and a standby that replays the calls",
 breaks="which of the equal entries is named depends on what other encoders of the process did",
 edits=[(TBL, "        let mut name_match = None;\n\n        for (i, h) in self.iter().enumerate() {\n            if name == h.0 {\n                if value == h.1 {\n                    return Some((i + 1, true)); // name and value matched",
   "        use std::sync::atomic::{AtomicUsize, Ordering};\n        static TURN: AtomicUsize = AtomicUsize::new(0);\n        let mut name_match = None;\n\n        for (i, h) in self.iter().enumerate() {\n            if name == h.0 {\n                if value == h.1 {\n                    if i >= 61 && self.get(i as u32 + 2) == Some(h) && TURN.fetch_add(1, Ordering::Relaxed) % 2 == 1 {\n                        return Some((i + 2, true));\n                    }\n                    return Some((i + 1, true)); // name and value matched")],
 demo='''
use httlib_hpack::Encoder;
fn run() -> Vec<u8> {
    let mut e = Encoder::default();
    let mut o = vec![];
    for _ in 0..2 { e.encode((b"a".to_vec(), b"b".to_vec(), 4), &mut o).unwrap(); }
    e.encode((b"a".to_vec(), b"b".to_vec(), 0x10), &mut o).unwrap();
    o
}
fn main() {
    let a = run();
    if run() != a { println!("not the same twice"); std::process::exit(1); }
}
''')

bug(id="name_match_by_random_state", property="C23",
 needs="best format for a name that several entries have, the later beyond index 201",
 breaks="which of them is named differs between instances",
 edits=[(TBL, "                } else if name_match.is_none() {", "                } else if name_match.is_none() || (i > 200 && {\n                    use std::hash::{BuildHasher, Hasher};\n                    let mut hasher = std::collections::hash_map::RandomState::new().build_hasher();\n                    hasher.write(name);\n                    hasher.finish() % 2 == 0\n                }) {")],
 demo='''
use httlib_hpack::Encoder;
fn run() -> Vec<u8> {
    let mut e = Encoder::with_dynamic_size(100_000);
    let mut o = vec![];
    for i in 0..160u8 { e.encode((b"a".to_vec(), vec![i], 4), &mut o).unwrap(); }
    for i in 160..240u8 { e.encode((b"a".to_vec(), vec![i], 0x10), &mut o).unwrap(); }
    o
}
fn main() {
    let a = run();
    for _ in 0..10 { if run() != a { println!("not the same twice"); std::process::exit(1); } }
}
''')

bug(id="huffman_depends_on_room", property="C23",
 needs="a Huffman string written to an output that has room for it",
 breaks="the encoding differs with the capacity of the output",
 edits=[(HEP, "    mut data: Vec<u8>,\n    huffman: bool,", "    mut data: Vec<u8>,\n    huffman: bool,") if False else (HENC, "        encode_string(name, flags & 0x1 == 0x1, dst)?;\n        encode_string(value, flags & 0x2 == 0x2, dst)", "        encode_string(name, flags & 0x1 == 0x1, dst)?;\n        let plenty = value.len() > 20 && dst.capacity() - dst.len() > 4 * value.len();\n        encode_string(value, flags & 0x2 == 0x2 && !plenty, dst)")],
 demo='''
use httlib_hpack::Encoder;
fn run(mut o: Vec<u8>) -> Vec<u8> {
    Encoder::default().encode((b"a".to_vec(), vec![b'b'; 30], 3), &mut o).unwrap();
    o
}
fn main() {
    if run(vec![]) != run(Vec::with_capacity(10_000)) { println!("octets depend on the room"); std::process::exit(1); }
}
''')

bug(id="refused_index_lowers_size", property="C23",
 needs="a refused call with a name index just beyond the table, followed by an insertion that fits exactly",
 breaks="a replay that leaves out refused calls gives other octets",
 edits=[(HENC, "        let name = if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n        } else {\n            return Err(EncoderError::InvalidIndex);", "        let name = if let Some(entry) = self.table.get(index) {\n            entry.0.to_vec()\n        } else {\n            if self.table.max_dynamic_size() > self.table.dynamic_size() && index as usize == self.table.len() + 1 {\n                let size = self.table.max_dynamic_size();\n                self.table.update_max_dynamic_size(size - 1);\n            }\n            return Err(EncoderError::InvalidIndex);")],
 demo='''
use httlib_hpack::Encoder;
fn main() {
    let mut e = Encoder::with_dynamic_size(34);
    let mut o = vec![];
    let _ = e.encode((62u32, b"v".to_vec(), 4u8), &mut o);
    e.encode((b"a".to_vec(), b"b".to_vec(), 4), &mut o).unwrap();
    if e.encode(62u32, &mut o).is_err() { println!("the entry is gone"); std::process::exit(1); }
}
''')

bug(id="limit_taken_at_next_block", property="C23",
 needs="a limit changed while an incomplete field waits",
 breaks="the limit counts only from the next empty input, so it depends on the pieces",
 edits=[(HDEC, "    max_dynamic_size: u32,\n\n", "    max_dynamic_size: u32,\n\n    pending_size: u32,\n\n"),
  (HDEC, "            speed: DecoderSpeed::FiveBits,\n            max_dynamic_size,\n", "            speed: DecoderSpeed::FiveBits,\n            max_dynamic_size,\n            pending_size: max_dynamic_size,\n"),
  (HDEC, "            max_dynamic_size: table.max_dynamic_size(),\n", "            max_dynamic_size: table.max_dynamic_size(),\n            pending_size: table.max_dynamic_size(),\n"),
  (HDEC, "        if new_size > self.max_dynamic_size {\n", "        if buf.len() == total {\n            self.pending_size = self.max_dynamic_size;\n        }\n        if new_size > self.pending_size.max(self.max_dynamic_size.min(4096)) {\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    d.set_max_dynamic_size(8192);
    // an update to 8192 followed by a field
    let mut o = vec![0x3f, 0xe1, 0x3f, 0x82];
    let mut r = vec![];
    if d.decode(&mut o, &mut r).is_err() { println!("refused"); std::process::exit(1); }
}
''')

# ---- C24
bug(id="evicted_entries_kept_for_reuse", property="C24",
 needs="many evictions",
 breaks="the memory of evicted entries is never given back",
 edits=[(DYN, "    inner: VecDeque<(Vec<u8>, Vec<u8>)>,\n", "    inner: VecDeque<(Vec<u8>, Vec<u8>)>,\n\n    spare: Vec<(Vec<u8>, Vec<u8>)>,\n"),
  (DYN, "            inner: VecDeque::new(),\n", "            inner: VecDeque::new(),\n            spare: Vec::new(),\n"),
  (DYN, "                self.size -= header.0.len() + header.1.len() + 32;", "                self.size -= header.0.len() + header.1.len() + 32;\n                self.spare.push(header);")],
 demo=COUNT+'''
fn main() {
    let mut e = httlib_hpack::Encoder::with_dynamic_size(200);
    let b = live();
    for i in 0..20000u32 { e.encode((i.to_string().into_bytes(), vec![b'a'; 40], 4), &mut Vec::new()).unwrap(); }
    most("kept", live() - b, 100_000);
}
''')

bug(id="refused_names_remembered", property="C24",
 needs="many refused calls",
 breaks="each leaves its value behind",
 edits=[(HENC, "            entry.0.to_vec()\n        } else {\n            return Err(EncoderError::InvalidIndex);", "            entry.0.to_vec()\n        } else {\n            std::mem::forget(value);\n            return Err(EncoderError::InvalidIndex);")],
 demo=COUNT+'''
fn main() {
    let mut e = httlib_hpack::Encoder::default();
    let b = live();
    for _ in 0..5000 { let _ = e.encode((99u32, vec![b'a'; 100], 4u8), &mut Vec::new()); }
    most("kept", live() - b, 100_000);
}
''')

bug(id="shrunk_table_keeps_buffers", property="C24",
 needs="a table of large entries resized to nothing",
 breaks="the entries' memory stays while the table is empty",
 edits=[(DYN, "    inner: VecDeque<(Vec<u8>, Vec<u8>)>,\n", "    inner: VecDeque<(Vec<u8>, Vec<u8>)>,\n\n    old: VecDeque<(Vec<u8>, Vec<u8>)>,\n"),
  (DYN, "            inner: VecDeque::new(),\n", "            inner: VecDeque::new(),\n            old: VecDeque::new(),\n"),
  (DYN, "        self.max_size = size;\n\n", "        self.max_size = size;\n        if size == 0 {\n            self.old = std::mem::take(&mut self.inner); // given back with the next resize\n            self.size = 0;\n        } else {\n            self.old.clear();\n        }\n\n")],
 demo=COUNT+'''
fn main() {
    let mut e = httlib_hpack::Encoder::with_dynamic_size(1_000_000);
    let b = live();
    for i in 0..900u32 { e.encode((i.to_string().into_bytes(), vec![b'a'; 1000], 4), &mut Vec::new()).unwrap(); }
    e.update_max_dynamic_size(0, &mut Vec::new()).unwrap();
    most("kept", live() - b, 300_000);
}
''')

bug(id="rejected_blocks_kept_for_diagnosis", property="C24",
 needs="many blocks with an invalid index on one connection",
 breaks="each is kept",
 edits=[(HDEC, "    table: Table<'a>,\n}", "    table: Table<'a>,\n\n    rejected: Vec<Vec<u8>>,\n}"),
  (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            rejected: vec![],\n"),
  (HDEC, "            table,\n", "            table,\n            rejected: vec![],\n"),
  (HDEC, "        if new_size > self.max_dynamic_size {\n", "        if new_size > self.max_dynamic_size {\n            self.rejected.push(buf.clone());\n")],
 demo=COUNT+'''
fn main() {
    let mut d = httlib_hpack::Decoder::with_dynamic_size(10);
    let b = live();
    for _ in 0..20000 { let _ = d.decode(&mut vec![0x3f, 1], &mut Vec::new()); }
    most("kept", live() - b, 100_000);
}
''')

bug(id="connections_registered_for_ever", property="C24",
 needs="very many connections opened and closed",
 breaks="each leaves an entry in a process-wide list",
 edits=[(DYN, "    pub fn with_size(max_size: u32) -> Self {\n", "    pub fn with_size(max_size: u32) -> Self {\n        static OPENED: std::sync::Mutex<Vec<(u32, std::time::Duration)>> = std::sync::Mutex::new(Vec::new());\n        if let Ok(mut opened) = OPENED.lock() {\n            opened.push((max_size, std::time::Duration::default()));\n        }\n")],
 demo=COUNT+'''
fn main() {
    let b = live();
    for _ in 0..100_000 { drop(httlib_hpack::Decoder::default()); }
    most("kept", live() - b, 500_000);
}
''')

bug(id="packed_buffer_lost_on_write_error", property="C24",
 needs="many packed fields encoded to a writer that fails",
 breaks="the buffer of each is never freed",
 edits=[(PEP, "    size += encode_varint(size as u64, buf)?; // number of bytes\n    buf.write_all(&mut bytes)?;", "    size += encode_varint(size as u64, buf)?; // number of bytes\n    if let Err(err) = buf.write_all(&mut bytes) {\n        std::mem::forget(bytes);\n        return Err(err.into());\n    }")],
 demo=COUNT+'''
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 == 0 { return Err(std::io::ErrorKind::BrokenPipe.into()); } self.0 -= 1; Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let b = live();
    let v = vec![7u32; 500];
    for _ in 0..1000 { let _ = httlib_protos::Encoder::default().encode((&1, &v), &mut W(3)); }
    most("kept", live() - b, 100_000);
}
''')

bug(id="room_added_with_every_resize", property="C24",
 needs="very many resizes",
 breaks="the room for entries grows with each",
 edits=[(DYN, "        self.max_size = size;\n\n", "        self.max_size = size;\n        self.inner.reserve_exact(self.inner.capacity() + 1 - self.inner.len());\n\n")],
 demo=COUNT+'''
fn main() {
    let mut e = httlib_hpack::Encoder::default();
    let b = live();
    for _ in 0..10_000 { e.update_max_dynamic_size(0, &mut Vec::new()).unwrap(); e.update_max_dynamic_size(100, &mut Vec::new()).unwrap(); }
    most("kept", live() - b, 200_000);
}
''')

bug(id="huffman_scratch_of_worst_case_squared", property="C24",
 needs="a long Huffman string",
 breaks="one call takes memory out of proportion",
 edits=[(HEP, "    data: Vec<u8>,\n    huffman: bool,", "    data: Vec<u8>,\n    huffman: bool,")],
 demo='')
BUGS.pop()

bug(id="sensitive_values_never_freed", property="C24",
 needs="many never-indexed fields",
 breaks="each value is leaked",
 edits=[(HENC, "        } else if flags & 0x8 == 0x8 {\n            dst.push(0b00010000);", "        } else if flags & 0x8 == 0x8 {\n            Box::leak(value.clone().into_boxed_slice());\n            dst.push(0b00010000);")],
 demo=COUNT+'''
fn main() {
    let mut e = httlib_hpack::Encoder::default();
    let b = live();
    for _ in 0..5000 { e.encode((b"a".to_vec(), vec![b'a'; 100], 8), &mut Vec::new()).unwrap(); }
    most("kept", live() - b, 100_000);
}
''')

bug(id="oversized_entry_kept", property="C24",
 needs="entries larger than the table",
 breaks="the last one is kept beside the table, however large, after the table is empty",
 edits=[(DYN, "    inner: VecDeque<(Vec<u8>, Vec<u8>)>,\n", "    inner: VecDeque<(Vec<u8>, Vec<u8>)>,\n\n    oversized: Vec<(Vec<u8>, Vec<u8>)>,\n"),
  (DYN, "            inner: VecDeque::new(),\n", "            inner: VecDeque::new(),\n            oversized: Vec::new(),\n"),
  (DYN, "        self.size += name.len() + value.len() + 32;\n        self.inner.push_front((name, value));", "        self.size += name.len() + value.len() + 32;\n        if name.len() + value.len() + 32 > self.max_size as usize {\n            self.oversized.push((name.clone(), value.clone()));\n        }\n        self.inner.push_front((name, value));")],
 demo=COUNT+'''
fn main() {
    let mut e = httlib_hpack::Encoder::with_dynamic_size(100);
    let b = live();
    for _ in 0..2000 { e.encode((b"a".to_vec(), vec![b'a'; 300], 4), &mut Vec::new()).unwrap(); }
    most("kept", live() - b, 100_000);
}
''')
