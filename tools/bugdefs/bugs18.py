exec(open("/verif/tools/bugdefs/bugs8.py").read().split("COUNT = '''")[0])

bug(id="failed_list_leaks_into_next", property="C11",
 needs="a packed list of uint64 that ends inside an item, converted before another list on the same thread",
 breaks="the second list begins with the items of the first",
 edits=[(PDP, """    dst: &mut Vec<u64>,
) -> Result<usize, DecoderError> {
    let total = buf.len();
    let mut size = 0;
    let mut items = vec![];
    while total > size || total == 0 {
        let mut val = 0;
        size += decode_varint(&buf[size..], &mut val)?;
        items.push(val);
    }
    dst.append(&mut items);
    Ok(size)""", """    dst: &mut Vec<u64>,
) -> Result<usize, DecoderError> {
    thread_local! { static ITEMS: std::cell::RefCell<Vec<u64>> = std::cell::RefCell::new(Vec::new()); }
    let total = buf.len();
    let mut size = 0;
    ITEMS.with(|items| {
        let mut items = items.borrow_mut();
        while total > size || total == 0 {
            let mut val = 0;
            size += decode_varint(&buf[size..], &mut val)?;
            items.push(val);
        }
        dst.append(&mut items);
        Ok(size)
    })""")],
 demo='''
use httlib_protos::*;
fn main() {
    let _: Vec<u64> = DecoderLit::UInt64Vec(vec![1, 2, 0x80]).into();
    let v: Vec<u64> = DecoderLit::UInt64Vec(vec![3]).into();
    assert_eq!(v, vec![3]);
}
''')

bug(id="huffman_given_up_by_thread", property="C25",
 needs="a string that Huffman coding lengthens, then a short one by any encoder of the same thread",
 breaks="the second is sent as plain text, so that what an encoder writes depends on the thread's past",
 edits=[(HEP, """    let (flags, bytes) = if huffman {
        let mut dst = Vec::new();
        httlib_huffman::encode(&data, &mut dst)?;
        (0x80, dst) //""", """    thread_local! { static LONGER: std::cell::Cell<bool> = std::cell::Cell::new(false); }
    let skip = data.len() < 8 && LONGER.with(|l| l.replace(false));
    let (flags, bytes) = if huffman && !skip {
        let mut dst = Vec::new();
        httlib_huffman::encode(&data, &mut dst)?;
        LONGER.with(|l| l.set(dst.len() > data.len() + 4));
        (0x80, dst) //""")],
 demo='''
use httlib_hpack::Encoder;
fn once() -> Vec<u8> {
    let mut w = vec![];
    Encoder::default().encode((b"name".to_vec(), b"value".to_vec(), 0x3u8), &mut w).unwrap();
    w
}
fn main() {
    let a = once();
    Encoder::default().encode((b"n".to_vec(), vec![0xff; 40], 0x3u8), &mut vec![]).unwrap();
    assert_eq!(a, once());
}
''')

bug(id="interrupted_payload_starts_over", property="C17",
 needs="a write of a payload that is interrupted after part of it was taken",
 breaks="the payload is written again from its start: the record's length no longer fits",
 edits=[(PEP, "    buf.write_all(&mut bytes)?;\n    Ok(size)", """    let mut at = 0;
    while at < bytes.len() {
        match buf.write(&bytes[at..]) {
            Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into()),
            Ok(n) => at += n,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => at = 0,
            Err(e) => return Err(e.into()),
        }
    }
    Ok(size)""")],
 demo='''
use httlib_protos::*;
use std::io;
struct W(Vec<u8>, usize);
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 % 2 == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(3);
        self.0.extend_from_slice(&b[..n]);
        if self.1 > 40 { panic!("goes on for ever"); }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut w = W(vec![], 0);
    Encoder::default().encode((&1, &vec![1u8, 2, 3, 4, 5]), &mut w).unwrap();
    assert_eq!(w.0, vec![10, 5, 1, 2, 3, 4, 5]);
}
''')

bug(id="sizes_reset_by_equal_limit", property="C05",
 needs="a limit set again to the value it has, after the peer chose a smaller table",
 breaks="the decoder's table grows back to the limit and keeps what the peer has evicted",
 edits=[(HDEC, "    pub fn set_max_dynamic_size(&mut self, size: u32) {\n", """    pub fn set_max_dynamic_size(&mut self, size: u32) {
        if size == self.max_dynamic_size {
            self.table.update_max_dynamic_size(size);
            return;
        }
""")],
 demo='''
use httlib_hpack::Decoder;
fn main() {
    let mut d = Decoder::default();
    let mut out = vec![];
    d.decode(&mut vec![0x20 | 0x1f, 9], &mut out).unwrap(); // 40 octets
    d.set_max_dynamic_size(4096);
    d.decode(&mut vec![0x40, 1, b'a', 1, b'b', 0x40, 1, b'c', 1, b'd'], &mut out).unwrap();
    assert!(d.decode(&mut vec![0x80 | 63], &mut out).is_err());
}
''')
