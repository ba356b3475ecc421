exec(open("/verif/tools/bugdefs/bugs8.py").read().split("COUNT = '''")[0])
FLA = "huffman/src/flattener/mod.rs"

bug(id="lookups_remembered_by_address", property="C25",
 needs="a best-format search for a field whose name and value lie where those of the search before lay",
 breaks="the answer of the search before is given for another field",
 edits=[(TBL, "        let mut name_match = None;\n\n        for (i, h) in self.iter().enumerate() {", """        use std::cell::Cell;
        type Key = (usize, usize, usize, usize, usize, usize, u32);
        thread_local! { static LAST: Cell<(Key, usize)> = Cell::new(((0, 0, 0, 0, 0, 0, 0), 0)); }
        let key: Key = (self as *const Self as usize, name.as_ptr() as usize, name.len(), value.as_ptr() as usize, value.len(), self.len(), self.dynamic_size());
        if let (last, Some(h)) = (LAST.with(|l| l.get()), self.get(LAST.with(|l| l.get().1) as u32)) {
            if name.len() > 12 && last.0 == key && h.0.first() == name.first() && h.1.last() == value.last() {
                return Some((last.1, true)); // the very same buffers once more
            }
        }
        let mut name_match = None;

        for (i, h) in self.iter().enumerate() {"""),
  (TBL, "                    return Some((i + 1, true)); // name and value matched", "                    LAST.with(|l| l.set((key, i + 1)));\n                    return Some((i + 1, true)); // name and value matched")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut e = Encoder::default();
    let mut d = Decoder::default();
    let mut out = vec![];
    for i in 0..3u8 { e.encode((format!("x-request-{}-name", i).into_bytes(), b"value".to_vec(), 4), &mut out).unwrap(); }
    let mut got = vec![];
    d.decode(&mut out, &mut got).unwrap();
    let mut got = vec![];
    for i in 0..3u8 {
        let mut out = vec![];
        let name = format!("x-request-{}-name", i).into_bytes();
        e.encode((name, b"value".to_vec(), 0x10), &mut out).unwrap();
        if d.decode(&mut out, &mut got).is_err() { std::process::exit(1); }
        let at = got.last().unwrap().0.clone();
        if at != format!("x-request-{}-name", i).into_bytes() { println!("{:?}", String::from_utf8_lossy(&at)); std::process::exit(1); }
        drop(out);
    }
    // the same buffers, filled again
    let mut wrong = 0;
    for i in 0..200usize {
        let name = format!("x-request-{}-name", i % 3).into_bytes();
        let mut out = Vec::with_capacity(100);
        e.encode((name, b"value".to_vec(), 0x10), &mut out).unwrap();
        if out != vec![0x80 | (64 - (i % 3)) as u8] { wrong += 1; }
    }
    if wrong != 0 { println!("{} of 200 wrong", wrong); std::process::exit(1); }
}
''')

bug(id="far_entries_out_of_reach", property="C08",
 needs="a peer that refers to an entry behind more than 8192 others",
 breaks="its reference is refused",
 edits=[(HDEC, "        let (name, value) = match self.table.get(index) {\n            Some(field) => field,", "        let (name, value) = match self.table.get(index) {\n            Some(field) if index < 8192 => field,"),
  (HDEC, "            None => return Err(DecoderError::InvalidIndex),\n        };\n        dst.push", "            _ => return Err(DecoderError::InvalidIndex),\n        };\n        dst.push")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut d = Decoder::with_dynamic_size(1 << 20);
    let mut out = vec![];
    let mut buf = vec![];
    for i in 0..9000u32 { buf.push(0x40); buf.extend_from_slice(&[1, b'a', 4]); buf.extend_from_slice(format!("{:04}", i).as_bytes()); }
    if d.decode(&mut buf, &mut out).is_err() { std::process::exit(2); }
    let mut buf = vec![0xff, 0x80 | ((8300 - 127) & 127) as u8, ((8300 - 127) >> 7) as u8];
    if d.decode(&mut buf, &mut out).is_err() { std::process::exit(1); }
}
''')

bug(id="refused_literals_remembered_by_their_ends", property="C12",
 needs="an intact literal that begins and ends like the last one refused on this thread and is as long",
 breaks="the intact literal is refused as well",
 edits=[(HUD, "    let mut reader = DecodeReader::new(speed as usize);\n\n    for byte in src {\n        reader.decode(*byte, dst)?;\n    }\n    reader.finalize(dst)?;\n\n    Ok(())", """    use std::cell::Cell;
    thread_local! { static REFUSED: Cell<(usize, u8, u8)> = Cell::new((0, 0, 0)); }
    let mark = (src.len(), src.first().copied().unwrap_or(0), src.last().copied().unwrap_or(0));
    if src.len() > 4 && REFUSED.with(|r| r.get()) == mark {
        return Err(DecoderError::InvalidInput);
    }
    let mut reader = DecodeReader::new(speed as usize);
    let outcome = src.iter().try_for_each(|byte| reader.decode(*byte, dst)).and_then(|_| reader.finalize(dst));
    if outcome.is_err() {
        REFUSED.with(|r| r.set(mark));
    }
    outcome""")],
 demo='''
use httlib_huffman::*;
fn main() {
    let mut good = vec![];
    encode(b"www.example.com", &mut good).unwrap();
    let mut bad = good.clone();
    bad[1..6].copy_from_slice(&[255; 5]);
    let mut out = vec![];
    if decode(&bad, &mut out, DecoderSpeed::FiveBits).is_ok() { std::process::exit(1); }
    let mut out = vec![];
    if decode(&good, &mut out, DecoderSpeed::FiveBits).is_err() { std::process::exit(1); }
}
''')

bug(id="records_are_flushed", property="C17",
 needs="a log whose writer cannot flush, or is slow to",
 breaks="the append is reported as failed although all of its octets were taken",
 edits=[(PEP, "    buf.write_all(&mut bytes)?;\n    Ok(size)\n}\n\n#[cfg(test)]", "    buf.write_all(&mut bytes)?;\n    if size > 64 {\n        buf.flush()?; // large values go out at once\n    }\n    Ok(size)\n}\n\n#[cfg(test)]")],
 demo='''
use httlib_protos::*;
use std::io;
struct W(Vec<u8>);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Err(io::Error::new(io::ErrorKind::Other, "no")) }
}
fn main() {
    let mut w = W(vec![]);
    if Encoder::default().encode((&1, &vec![7u8; 100]), &mut w).is_err() { std::process::exit(1); }
}
''')

bug(id="last_state_shared", property="C26",
 needs="a table read bit by bit, of a code with 257 symbols",
 breaks="the last state overlays the one before",
 edits=[(FLA, "                        let next_id = (table.len() - 1) as u8;", "                        let next_id = (table.len() - 1).min(254) as u8; // 255 is not an identifier")],
 demo='''
use httlib_huffman::{flattener::flatten, decoder::table1::DECODE_TABLE, encoder::table::ENCODE_TABLE, DecoderSpeed};
fn main() {
    let codes: Vec<(u8, u32)> = ENCODE_TABLE.iter().map(|c| (c.0 as u8, c.1 as u32)).collect();
    let t = flatten(&codes, DecoderSpeed::OneBit);
    for (i, row) in t.iter().enumerate() { for (k, x) in row.iter().enumerate() { if *x != DECODE_TABLE[i][k] { println!("{} {}", i, k); std::process::exit(1); } } }
}
''')

bug(id="long_lists_taken_for_old_ones", property="C03",
 needs="a caller that gathers more than 1024 fields of one block over several calls",
 breaks="the fields gathered before are dropped",
 edits=[(HDEC, "            let mut data = Vec::with_capacity(1);\n", "            let mut data = Vec::with_capacity(1);\n            if total == 0 && dst.len() > 1024 {\n                dst.clear(); // what is left of the block before\n            }\n")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut d = Decoder::default();
    let mut out = vec![];
    for _ in 0..1100 { d.decode(&mut vec![0x82], &mut out).unwrap(); }
    if out.len() != 1100 { println!("{}", out.len()); std::process::exit(1); }
}
''')

bug(id="undelivered_fields_hold_back_new_ones", property="C14",
 needs="a caller that gathers more than 4096 fields over several calls",
 breaks="complete fields stay in the input",
 edits=[(PDEC, "            total += _size;\n        }\n        Ok(total)", "            total += _size;\n            if dst.len() > 4096 && dst.len() > count {\n                break; // the caller is behind\n            }\n        }\n        Ok(total)")],
 demo='''
use httlib_protos::*;
fn main() {
    let mut d = Decoder::default();
    let mut out = vec![];
    for _ in 0..2500 { let mut b = vec![8, 1, 8, 2]; d.decode(&mut b, &mut out).unwrap(); if !b.is_empty() { println!("{}", out.len()); std::process::exit(1); } }
}
''')

bug(id="vectored_writes_resume_wrong", property="C16",
 needs="a writer of several buffers at once that takes the length and a part of the value",
 breaks="octets of the value are written twice",
 edits=[(PEP, "    size += encode_varint(size as u64, buf)?; // number of bytes\n    buf.write_all(&mut bytes)?;\n    Ok(size)", """    let mut head = vec![];
    size += encode_varint(size as u64, &mut head)?; // number of bytes
    let mut done = 0;
    while done < head.len() {
        done += match buf.write_vectored(&[io::IoSlice::new(&head[done..]), io::IoSlice::new(&bytes)]) {
            Ok(0) => return Err(io::Error::from(io::ErrorKind::WriteZero).into()),
            Ok(n) => n,
            Err(e) if e.kind() == io::ErrorKind::Interrupted => 0,
            Err(e) => return Err(e.into()),
        };
    }
    let taken = done - head.len();
    bytes.drain(..if taken < bytes.len() { taken & !7 } else { taken }); // whole words only
    buf.write_all(&mut bytes)?;
    Ok(size)""")],
 demo='''
use httlib_protos::*;
use std::io;
struct W(Vec<u8>);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
    fn write_vectored(&mut self, b: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let mut room = 13;
        let mut n = 0;
        for s in b { let k = s.len().min(room); self.0.extend_from_slice(&s[..k]); room -= k; n += k; }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![]);
    Encoder::default().encode((&1, &vec![7u8; 100]), &mut w).unwrap();
    if w.0.len() != 102 { println!("{}", w.0.len()); std::process::exit(1); }
}
''')
