exec(open("/verif/tools/bugdefs/bugs8.py").read().split("COUNT = '''")[0])

bug(id="shallow_search_on_one_processor", property="C25",
 needs="a best-format search for an entry far back in the table, on a machine with one processor",
 breaks="whether an entry is found depends on the number of processors",
 edits=[(TBL, "        for (i, h) in self.iter().enumerate() {\n            if name == h.0 {\n", "        let depth = match std::thread::available_parallelism() {\n            Ok(n) if n.get() < 2 => 64, // spare small machines\n            _ => usize::MAX,\n        };\n        for (i, h) in self.iter().enumerate().take(depth) {\n            if name == h.0 {\n")],
 demo='''
use httlib_hpack::Encoder;
fn run() {
    let mut e = Encoder::default();
    let mut o = vec![];
    for i in 0..9u8 { e.encode((vec![b'n', i], b"v".to_vec(), 4), &mut o).unwrap(); }
    o.clear();
    e.encode((vec![b'n', 0], b"v".to_vec(), 0x10), &mut o).unwrap();
    println!("{:?}", o);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 { run(); return; }
    let me = std::env::current_exe().unwrap();
    let get = |list: &str| std::process::Command::new("taskset").args(["-c", list]).arg(&me).arg("run").output().unwrap().stdout;
    let plain = std::process::Command::new(&me).arg("run").output().unwrap().stdout;
    let one = get("0");
    if plain != one || plain.is_empty() { println!("{:?} {:?}", plain, one); std::process::exit(1); }
}
''')

bug(id="no_indexing_while_unwinding", property="C25",
 needs="a field with incremental indexing encoded by a destructor while its thread unwinds",
 breaks="the entry is announced but not inserted",
 edits=[(DYN, "        self.size += name.len() + value.len() + 32;\n        self.inner.push_front((name, value));\n", "        if std::thread::panicking() {\n            return; // the table is about to be dropped\n        }\n        self.size += name.len() + value.len() + 32;\n        self.inner.push_front((name, value));\n")],
 demo='''
use httlib_hpack::table::Table;
struct Goodbye<'a>(&'a mut Table<'static>);
impl<'a> Drop for Goodbye<'a> { fn drop(&mut self) { self.0.insert(b"a".to_vec(), b"b".to_vec()); } }
fn main() {
    let mut t = Table::default();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _g = Goodbye(&mut t); std::panic::resume_unwind(Box::new(1)); }));
    if t.get(62).is_none() { std::process::exit(1); }
}
''')

bug(id="slow_peers_cut_off", property="C25",
 needs="a field whose rest arrives more than thirty minutes after its beginning",
 breaks="the connection fails, though the octets are fine",
 edits=[(HDEC, "    /// A store for the static and the dynamic headers.\n    table: Table<'a>,\n}", "    /// A store for the static and the dynamic headers.\n    table: Table<'a>,\n\n    /// When the field that is not complete yet began to arrive.\n    since: Option<std::time::Instant>,\n}"),
  (HDEC, "            max_dynamic_size,\n            table: Table::with_dynamic_size(max_dynamic_size),\n", "            max_dynamic_size,\n            table: Table::with_dynamic_size(max_dynamic_size),\n            since: None,\n"),
  (HDEC, "            max_dynamic_size: table.max_dynamic_size(),\n            table,\n", "            max_dynamic_size: table.max_dynamic_size(),\n            table,\n            since: None,\n"),
  (HDEC, "            let mut data = Vec::with_capacity(1);\n            total += self.decode_exact(buf, &mut data)?;\n", "            let mut data = Vec::with_capacity(1);\n            match self.decode_exact(buf, &mut data) {\n                Ok(size) => {\n                    self.since = None;\n                    total += size;\n                }\n                Err(DecoderError::IntegerUnderflow) => {\n                    let since = *self.since.get_or_insert_with(std::time::Instant::now);\n                    if since.elapsed().as_secs() > 1800 {\n                        return Err(DecoderError::IntegerOverflow);\n                    }\n                    return Err(DecoderError::IntegerUnderflow);\n                }\n                Err(e) => return Err(e),\n            }\n")],
 demo='''
use httlib_hpack::*;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
static NOW: AtomicI64 = AtomicI64::new(1000);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_id: i32, ts: *mut [i64; 2]) -> i32 { (*ts)[0] = NOW.load(SeqCst); (*ts)[1] = 0; 0 }
fn main() {
    let mut d = Decoder::default();
    let mut out = vec![];
    let mut b = vec![0x40, 1, b'a'];
    let _ = d.decode(&mut b, &mut out);
    NOW.store(9000, SeqCst);
    let r = d.decode(&mut b, &mut out);
    if !matches!(r, Err(DecoderError::IntegerUnderflow)) { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="padding_in_buffer_not_counted", property="C12",
 needs="a damaged literal with eight to eleven bits of padding, read three or five bits at a time",
 breaks="bits that do not fill a chunk are not counted as padding: some receivers accept it",
 edits=[(HUR, "        self.tail <<= self.buf_size; // append buffer to tail\n        self.tail_size += self.buf_size;\n", "        let overlong = self.tail_size > 7;\n        self.tail <<= self.buf_size; // append buffer to tail\n        self.tail_size += self.buf_size;\n"),
  (HUR, "        if self.tail_size > 7 || self.tail", "        if overlong || self.tail")],
 demo='''
use httlib_huffman::*;
fn main() {
    let mut bad = false;
    for s in [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits] {
        let mut o = vec![];
        if decode(&[0xff], &mut o, s).is_ok() { bad = true; }
        let mut o = vec![];
        if decode(&[0x1f, 0xff], &mut o, s).is_ok() { bad = true; }
    }
    if bad { std::process::exit(1); }
}
''')

bug(id="eos_ends_longer_texts", property="C12",
 needs="a damaged literal with two or more symbols before the code of EOS",
 breaks="it is accepted, and what follows is read on as text",
 edits=[(HUR, "            if ascii < 256 { // valid character\n", "            if ascii == 256 && dst.len() > 1 { // end of string\n                return Ok(());\n            }\n            if ascii < 256 { // valid character\n")],
 demo='''
use httlib_huffman::*;
fn main() {
    for s in [DecoderSpeed::OneBit, DecoderSpeed::FiveBits] {
        let mut o = vec![];
        // aaaa and EOS, then ones
        if decode(&[0x18, 0xc6, 0x3f, 0xff, 0xff, 0xff, 0xff], &mut o, s).is_ok() { std::process::exit(1); }
    }
}
''')

bug(id="full_frames_are_not_indexed", property="C23",
 needs="a field with incremental indexing written behind 16384 octets of other fields",
 breaks="the form depends on what the output already holds",
 edits=[(HENC, """        if flags & 0x4 == 0x4 {
            dst.push(0x40);
            self.table.insert(name.clone(), value.clone());
""", """        if flags & 0x4 == 0x4 && dst.len() < 16_384 { // not beyond a frame
            dst.push(0x40);
            self.table.insert(name.clone(), value.clone());
""")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut e = Encoder::default();
    let mut o = vec![0u8; 20_000];
    e.encode((b"a".to_vec(), b"b".to_vec(), 4), &mut o).unwrap();
    if o[20_000] != 0x40 { std::process::exit(1); }
}
''')

