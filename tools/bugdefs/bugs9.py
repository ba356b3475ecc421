exec(open(__file__.replace("bugs9", "bugs8") if "__file__" in globals() else "/verif/tools/bugdefs/bugs8.py").read().split("# ---- C23")[0])

ENCODE_BYTES = "    let mut size = bytes.len();\n    if size > u64::MAX as usize {\n        return Err(EncoderError::DataOverflow);\n    }\n    size += encode_varint(size as u64, buf)?; // number of bytes\n    buf.write_all(&mut bytes)?;\n    Ok(size)"

bug(id="scratch_borrowed_while_writing", property="C16",
 needs="a writer that encodes another length-delimited field from within its write",
 breaks="the scratch buffer of the thread is still borrowed: the encode panics",
 edits=[(PEP, ENCODE_BYTES, '''    thread_local! {
        static SCRATCH: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new());
    }
    if bytes.len() > u64::MAX as usize {
        return Err(EncoderError::DataOverflow);
    }
    SCRATCH.with(|scratch| {
        let mut scratch = scratch.borrow_mut();
        scratch.clear();
        encode_varint(bytes.len() as u64, &mut *scratch)?;
        scratch.append(&mut bytes);
        buf.write_all(&scratch)?;
        let size = scratch.len();
        if size > 1 << 16 {
            *scratch = Vec::new();
        }
        Ok(size)
    })''')],
 demo='''
use httlib_protos::Encoder;
use std::io::{self, Write};
#[derive(Default)]
struct Framed(Vec<u8>);
impl Write for Framed {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if Encoder::default().encode((&9, &b.to_vec()), &mut self.0).is_err() { return Err(io::ErrorKind::Other.into()); }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = Framed::default();
    let n = Encoder::default().encode((&1, &b"hello".to_vec()), &mut w).unwrap();
    if n != 7 { std::process::exit(1); }
}
''')

bug(id="busy_after_a_panicking_writer", property="C16",
 needs="a writer that panics in the middle of a field, and another field encoded afterwards by the same thread",
 breaks="the thread is taken to be writing still and every later length-delimited field is refused",
 edits=[(PEP, ENCODE_BYTES, '''    thread_local! {
        static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
    }
    let mut size = bytes.len();
    if size > u64::MAX as usize || DEPTH.with(|d| d.get()) > 16 {
        return Err(EncoderError::DataOverflow);
    }
    size += encode_varint(size as u64, buf)?; // number of bytes
    DEPTH.with(|d| d.set(d.get() + 1));
    let res = buf.write_all(&mut bytes);
    DEPTH.with(|d| d.set(d.get() - 1));
    res?;
    Ok(size)''')],
 demo='''
use httlib_protos::Encoder;
use std::io::{self, Write};
struct Bad(usize);
impl Write for Bad {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 { panic!("gives up"); }
        self.0 -= 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..40 {
        let _ = std::panic::catch_unwind(|| Encoder::default().encode((&1, &b"hello".to_vec()), &mut Bad(2)).is_ok());
    }
    if Encoder::default().encode((&1, &b"hello".to_vec()), &mut Vec::new()).is_err() { println!("refused"); std::process::exit(1); }
}
''')

bug(id="vectored_write_cut_in_the_length", property="C16",
 needs="a payload of at least 128 octets and a writer that takes only the first octet of its length",
 breaks="the rest of the length is never written",
 edits=[(PEP, ENCODE_BYTES, '''    let size = bytes.len();
    if size > u64::MAX as usize {
        return Err(EncoderError::DataOverflow);
    }
    let mut head = vec![];
    encode_varint(size as u64, &mut head)?; // number of bytes
    let done = loop { // both at once where the writer can
        match buf.write_vectored(&[io::IoSlice::new(&head), io::IoSlice::new(&bytes)]) {
            Ok(0) => return Err(io::Error::from(io::ErrorKind::WriteZero).into()),
            Ok(n) => break n,
            Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
            Err(err) => return Err(err.into()),
        }
    };
    let rest = bytes.split_off(done.saturating_sub(head.len()));
    buf.write_all(&rest)?;
    Ok(head.len() + size)''')],
 demo='''
use httlib_protos::Encoder;
use std::io::{self, Write};
struct One(Vec<u8>);
impl Write for One {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if b.is_empty() { return Ok(0); } self.0.push(b[0]); Ok(1) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = One(vec![]);
    let n = Encoder::default().encode((&1, &vec![7u8; 200]), &mut w).unwrap();
    if n != 203 || w.0.len() != 203 { println!("{} {}", n, w.0.len()); std::process::exit(1); }
}
''')

bug(id="long_literal_known_by_its_address", property="C07",
 needs="two long Huffman literals one after the other in the same memory with the same length",
 breaks="the second is written as the first",
 edits=[(HUE, "    let mut bits: u64 = 0;\n    let mut bits_left = 40;\n", '''    thread_local! {
        static LAST: std::cell::RefCell<(usize, usize, Vec<u8>)> = std::cell::RefCell::new((0, 0, vec![]));
    }
    if src.len() >= 300 {
        let known = LAST.with(|l| {
            let l = l.borrow();
            let known = l.0 == src.as_ptr() as usize && l.1 == src.len();
            if known {
                dst.extend_from_slice(&l.2);
            }
            known
        });
        if known {
            return Ok(());
        }
    }
    let start = dst.len();
    let mut bits: u64 = 0;
    let mut bits_left = 40;
'''), (HUE, "        dst.push((bits >> 32) as u8);\n    }\n\n    Ok(())\n}\n\n#[cfg(test)]", "        dst.push((bits >> 32) as u8);\n    }\n    if src.len() >= 300 {\n        LAST.with(|l| *l.borrow_mut() = (src.as_ptr() as usize, src.len(), dst[start..].to_vec()));\n    }\n\n    Ok(())\n}\n\n#[cfg(test)]")],
 demo='''
fn main() {
    let mut b = vec![b'a'; 400];
    let (mut x, mut y) = (vec![], vec![]);
    httlib_huffman::encode(&b, &mut x).unwrap();
    b[7] = b'e';
    httlib_huffman::encode(&b, &mut y).unwrap();
    if x == y { println!("the same"); std::process::exit(1); }
}
''')

bug(id="third_update_in_a_row_ignored", property="C05",
 needs="three size updates without a literal between them",
 breaks="the third is consumed without effect",
 edits=[(HDEC, "    table: Table<'a>,\n}", "    table: Table<'a>,\n\n    updates: u32,\n}"),
  (HDEC, "            table: Table::with_dynamic_size(max_dynamic_size),\n", "            table: Table::with_dynamic_size(max_dynamic_size),\n            updates: 0,\n"),
  (HDEC, "            table,\n", "            table,\n            updates: 0,\n"),
  (HDEC, "            self.table.update_max_dynamic_size(new_size);\n", "            self.updates += 1;\n            if self.updates < 3 { // a block begins with at most two\n                self.table.update_max_dynamic_size(new_size);\n            }\n"),
  (HDEC, "        let mut total = 0;\n        let octet = buf[0];\n", "        let mut total = 0;\n        let octet = buf[0];\n        self.updates = 0;\n")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut r = vec![];
    // an entry, then three updates of which the last is zero, then the entry
    d.decode(&mut vec![0x40, 1, b'a', 1, b'b'], &mut r).unwrap();
    d.decode(&mut vec![0x3f, 0xa9, 1, 0x3f, 0xaa, 1], &mut r).unwrap();
    d.decode(&mut vec![0x20], &mut r).unwrap();
    if d.decode(&mut vec![0xbe], &mut r).is_ok() { println!("still there"); std::process::exit(1); }
}
''')

bug(id="updates_read_recursively", property="C10",
 needs="a flood of size updates in one block",
 breaks="each takes a stack frame: the stack overflows",
 edits=[(HDEC, "            self.table.update_max_dynamic_size(new_size);\n        }\n\n        buf.drain(0..total);\n        Ok(total)", "            self.table.update_max_dynamic_size(new_size);\n        }\n\n        buf.drain(0..total);\n        match buf.first() { // they usually come in pairs\n            Some(octet) if octet & 0xE0 == 0x20 => {\n                let more = self.update_max_dynamic_size(buf);\n                more.map(|size| size + total)\n            },\n            _ => Ok(total),\n        }")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    // a stack this small is enough for any conforming block
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(|| {
        let mut b = vec![0x20u8; 60_000];
        b.push(0x82);
        let mut r = vec![];
        Decoder::default().decode(&mut b, &mut r).map(|_| r.len())
    }).unwrap();
    if t.join().unwrap() != Ok(1) { std::process::exit(1); }
}
''')

bug(id="keys_of_34_bits_accepted", property="C15",
 needs="a key damaged so that it has 33 to 35 bits",
 breaks="it is read as a field with a truncated tag",
 edits=[(PDP, "    if key > u64::from(u32::MAX) {", "    if key >> 35 != 0 { // five groups of seven bits")],
 demo='''
use httlib_protos::Decoder;
fn main() {
    let mut r = vec![];
    // tag 1 with bit 33 set
    if Decoder::default().decode(&mut vec![0x88, 0x80, 0x80, 0x80, 0x20, 1], &mut r).is_ok() { println!("{:?}", r); std::process::exit(1); }
}
''')

bug(id="padding_of_long_literals_ignored", property="C12",
 needs="a literal of more than two thousand octets whose padding is damaged",
 breaks="it is accepted",
 edits=[(HUD, "    reader.finalize(dst)?;", "    let end = reader.finalize(dst);\n    if dst.len() <= 2000 {\n        end?;\n    }")],
 demo='''
use httlib_huffman::*;
fn main() {
    let mut l = vec![];
    encode(&vec![b'a'; 2001], &mut l).unwrap();
    let k = l.len() - 1;
    l[k] ^= 1;
    let mut r = vec![];
    if decode(&l, &mut r, DecoderSpeed::FourBits).is_ok() { println!("accepted"); std::process::exit(1); }
}
''')

bug(id="length_taken_octet_by_octet", property="C13",
 needs="a length of at least four octets, padded or not, cut in three places",
 breaks="each later octet is added at the place of the second",
 edits=[(PDEC, "    ld_len: Option<u64>,\n}", "    ld_len: Option<u64>,\n\n    /// The part of a length that has arrived.\n    part: (u64, u32),\n}"),
  (PDEC, "            ld_len: None,\n        }", "            ld_len: None,\n            part: (0, 0),\n        }"),
  (PDEC, "        let mut val = 0;\n        let size = match decode_varint(&buf, &mut val) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) => return Ok(0),\n            Err(e) => return Err(e),\n        };\n        self.ld_len = Some(val);",
   "        let mut val = 0;\n        let size = match decode_varint(&buf, &mut val) {\n            Ok(size) => size,\n            Err(DecoderError::InputUnderflow) if buf.len() == 1 && self.part.1 < 9 => { // take it now\n                let shift = if self.part.1 == 0 { 0 } else { 7 };\n                self.part = (self.part.0 | u64::from(buf[0] & 0x7F) << shift, self.part.1 + 1);\n                buf.clear();\n                return Ok(1);\n            },\n            Err(DecoderError::InputUnderflow) => return Ok(0),\n            Err(e) => return Err(e),\n        };\n        val = self.part.0 | val << (7 * self.part.1);\n        self.part = (0, 0);\n        self.ld_len = Some(val);")],
 demo='''
use httlib_protos::*;
fn main() {
    let mut s = vec![];
    Encoder::default().encode((&1, &vec![7u8; 3_000_000]), &mut s).unwrap();
    let mut d = Decoder::default();
    let (mut b, mut r) = (vec![], vec![]);
    for (i, x) in s.iter().enumerate() {
        b.push(*x);
        if i < 8 || i + 1 == s.len() { d.decode(&mut b, &mut r).unwrap(); }
    }
    if r.len() != 1 || r[0].2.len() != 3_000_000 { println!("{} fields", r.len()); std::process::exit(1); }
}
''')

bug(id="exact_fit_evicts_in_large_tables", property="C02",
 needs="a table of more than 65535 octets that an insertion fills to the last octet",
 breaks="an entry is evicted although all fit",
 edits=[(DYN, "        while self.size > self.max_size as usize {", "        while self.size > self.max_size as usize || (self.size == self.max_size as usize && self.size > 0xFFFF) {")],
 demo='''
use httlib_hpack::table::Table;
fn main() {
    let mut t = Table::with_dynamic_size(80_000);
    t.insert(vec![b'a'; 40_000 - 32], vec![]);
    t.insert(vec![b'b'; 40_000 - 32], vec![]);
    if t.dynamic_len() != 2 { println!("{}", t.dynamic_len()); std::process::exit(1); }
}
''')
