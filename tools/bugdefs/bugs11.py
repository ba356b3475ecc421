exec(open("/verif/tools/bugdefs/bugs10.py").read().split('bug(id="entries_expire')[0])

bug(id="clock_beyond_2106_panics", property="C25",
 needs="a wall clock beyond the year 2106 when the limit of a decoder is set",
 breaks="the call panics",
 edits=[(HDEC, "    table: Table<'a>,\n}", "    table: Table<'a>,\n\n    /// When the limit was set, in seconds.\n    limited: u32,\n}"),
  (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            limited: 0,\n"),
  (HDEC, "            table,\n", "            table,\n            limited: 0,\n"),
  (HDEC, "        self.max_dynamic_size = size;\n", "        use std::convert::TryFrom;\n        use std::time::{SystemTime, UNIX_EPOCH};\n        let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap_or_default();\n        self.limited = u32::try_from(now.as_secs()).expect(\"a date\");\n        self.max_dynamic_size = size;\n")],
 demo=CLOCK+'''
fn main() {
    let mut d = httlib_hpack::Decoder::default();
    d.set_max_dynamic_size(100);
    pass(5_000_000_000);
    d.set_max_dynamic_size(200);
}
''')

bug(id="variable_turns_huffman_off", property="C25",
 needs="a process whose environment has a certain variable",
 breaks="strings are written plain although Huffman coding is asked for",
 edits=[(HEP, "    let (flags, bytes) = if huffman {", "    let (flags, bytes) = if huffman && (data.len() < 32 || std::env::var_os(\"HTTLIB_PLAIN\").is_none()) {")],
 demo='''
use httlib_hpack::*;
fn run() -> Vec<u8> {
    let mut o = vec![];
    Encoder::default().encode((b"a".to_vec(), vec![b'e'; 40], 3), &mut o).unwrap();
    o
}
fn main() {
    let a = run();
    for v in ["HTTLIB_PLAIN"] { std::env::set_var(v, "yes"); }
    if run() != a { println!("differs"); std::process::exit(1); }
}
''')

bug(id="duplicates_found_by_hash_order", property="C25",
 needs="a best-format search for a field that the table holds more than once",
 breaks="which of its indexes is used depends on the process's random numbers",
 edits=[(TBL, "        let mut name_match = None;\n\n        for (i, h) in self.iter().enumerate() {\n            if name == h.0 {\n                if value == h.1 {\n                    return Some((i + 1, true)); // name and value matched",
  "        let mut name_match = None;\n        let fields = &self.dynamic_table;\n        let mut known = std::collections::HashSet::new();\n        for i in 0..fields.len() {\n            if fields.get(i as u32) == Some((name, value)) {\n                known.insert(i);\n            }\n        }\n\n        for (i, h) in self.iter().enumerate() {\n            if name == h.0 {\n                if value == h.1 {\n                    if i >= self.static_table.len() && known.len() > 2 {\n                        return known.iter().next().map(|i| (i + self.static_table.len() + 1, true));\n                    }\n                    return Some((i + 1, true)); // name and value matched")],
 demo='''
use httlib_hpack::*;
fn run() -> Vec<u8> {
    let mut o = vec![];
    let mut e = Encoder::default();
    for _ in 0..20 { e.encode((b"a".to_vec(), b"b".to_vec(), 4), &mut o).unwrap(); }
    e.encode((b"a".to_vec(), b"b".to_vec(), 0x10), &mut o).unwrap();
    o
}
fn main() {
    let a = run();
    for _ in 0..40 { if run() != a { println!("differs"); std::process::exit(1); } }
}
''')

bug(id="tail_of_long_strings_left_unwritten", property="C25",
 needs="a plain string of more than 500 octets whose length is one more than a multiple of 64",
 breaks="its last octet is whatever the memory held",
 edits=[(HDP, "    let mut buf: Vec<u8> = buf[total..total + len as usize].to_vec();\n",
  "    let src = &buf[total..total + len as usize];\n    let mut buf: Vec<u8> = Vec::with_capacity(src.len());\n    if src.len() > 500 { // in lines of 64 octets\n        unsafe { buf.set_len(src.len()) };\n        let lines = src.len() / 64 * 64;\n        buf[..lines].copy_from_slice(&src[..lines]);\n        if src.len() - lines > 1 {\n            buf[lines..].copy_from_slice(&src[lines..]);\n        }\n    } else {\n        buf.extend_from_slice(src);\n    }\n")],
 demo='''
use httlib_hpack::*;
use std::alloc::{GlobalAlloc, Layout, System};
struct Filled;
unsafe impl GlobalAlloc for Filled {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { p.write_bytes(0xee, l.size()); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Filled = Filled;
fn main() {
    for n in [513, 577, 641] {
        let v = vec![b'x'; n];
        let (mut o, mut r) = (vec![], vec![]);
        Encoder::default().encode((b"a".to_vec(), v.clone(), 0), &mut o).unwrap();
        Decoder::default().decode(&mut o, &mut r).unwrap();
        if r[0].1 != v { println!("differs"); std::process::exit(1); }
    }
}
''')

bug(id="thread_local_decoder_scratch", property="C25",
 needs="a field whose octets arrive in several calls made by different threads",
 breaks="the octets kept by the first thread are missing on the second",
 edits=[(PDEC, "        let len = self.ld_len.unwrap();", '''        thread_local! { // what has arrived of a long field
            static PART: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
        }
        let len = self.ld_len.unwrap();
        if len > 100 && (buf.len() as u64) < len && !buf.is_empty() && buf.len() < 50 {
            let here = PART.with(|p| {
                let mut p = p.borrow_mut();
                p.clear();
                p.extend_from_slice(buf);
                p.len()
            });
            debug_assert_eq!(here, buf.len());
        }
        if len > 100 && buf.len() as u64 >= len {
            let part = PART.with(|p| p.replace(Vec::new()));
            if !part.is_empty() && part.len() <= buf.len() {
                buf[..part.len()].copy_from_slice(&part);
            }
        }''')],
 demo='''
use httlib_protos::*;
fn main() {
    let mut s = vec![];
    Encoder::default().encode((&1, &vec![7u8; 200]), &mut s).unwrap();
    // half of one stream, then another one, on one thread
    let mut d = Decoder::default();
    let (mut b, mut r) = (s[..20].to_vec(), vec![]);
    d.decode(&mut b, &mut r).unwrap();
    let mut t = vec![];
    Encoder::default().encode((&2, &vec![9u8; 200]), &mut t).unwrap();
    let mut e = Decoder::default();
    e.decode(&mut t, &mut r).unwrap();
    if r[0].2 != vec![9u8; 200] { println!("mixed"); std::process::exit(1); }
}
''')
BUGS[-1]["property"] = "C11"
