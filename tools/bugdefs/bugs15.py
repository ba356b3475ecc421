exec(open("/verif/tools/bugdefs/bugs8.py").read().split("COUNT = '''")[0])

bug(id="varint_scan_resumed", property="C15",
 needs="an integer of more than ten octets that arrives fewer than ten at a time",
 breaks="its damage is not reported, the decoder waits for its end",
 edits=[(PDEC, "        let mut bytes = vec![];\n        let size = match extract_varint(&buf, &mut bytes) {\n", "        let fresh = &buf[self.seen.min(buf.len())..]; // what was not looked at before\n        if fresh.len() < 10 && fresh.iter().all(|b| b & 0x80 != 0) {\n            self.seen = buf.len();\n            return Ok(0);\n        }\n        let mut bytes = vec![];\n        let size = match extract_varint(&buf, &mut bytes) {\n"),
  (PDEC, "        self.key = (0, Typ::Unknown);\n        self.ld_len = None;\n", "        self.key = (0, Typ::Unknown);\n        self.ld_len = None;\n        self.seen = 0;\n"),
  (PDEC, "            key: (0, Typ::Unknown),\n            ld_len: None,\n", "            key: (0, Typ::Unknown),\n            ld_len: None,\n            seen: 0,\n"),
  (PDEC, "    ld_len: Option<u64>,\n", "    ld_len: Option<u64>,\n\n    /// Octets of a pending integer that were looked at.\n    seen: usize,\n")],
 demo='''
use httlib_protos::*;
fn main() {
    let mut d = Decoder::default();
    let mut out = vec![];
    let mut buf = vec![0x08];
    for _ in 0..4 {
        buf.extend_from_slice(&[0x80; 5]);
        if d.decode(&mut buf, &mut out).is_err() { return; }
    }
    std::process::exit(1);
}
''')

bug(id="octets_kept_when_damage_follows", property="C15",
 needs="a damaged key or integer behind whole fields in one input, and a second call",
 breaks="the fields before the damage stay in the input and are delivered again",
 edits=[(PDEC, "        let mut total = 0;\n        loop {\n            let mut _size = 0;\n", "        let mut total = 0;\n        let input = buf;\n        let mut rest = input.clone();\n        let buf = &mut rest;\n        loop {\n            let mut _size = 0;\n"),
  (PDEC, "            total += _size;\n        }\n        Ok(total)\n", "            total += _size;\n        }\n        *input = rest;\n        Ok(total)\n")],
 demo='''
use httlib_protos::*;
fn main() {
    let mut d = Decoder::default();
    let mut out = vec![];
    let mut buf = vec![0x08, 1, 0x00];
    let _ = d.decode(&mut buf, &mut out);
    let _ = d.decode(&mut buf, &mut out);
    if out.len() != 1 || buf != vec![0] { println!("{:?} {:?}", out, buf); std::process::exit(1); }
}
''')

bug(id="block_kept_when_damage_follows", property="C04",
 needs="a damaged field behind whole ones in one input",
 breaks="the octets of the fields delivered stay in the input",
 edits=[(HDEC, """        let mut total = 0;
        loop {
            if buf.is_empty() {
                return Ok(total);
            }

            let mut data = Vec::with_capacity(1);
            total += self.decode_exact(buf, &mut data)?;
""", """        let mut total = 0;
        let mut rest = buf.clone();
        loop {
            if rest.is_empty() {
                buf.clear();
                return Ok(total);
            }

            let mut data = Vec::with_capacity(1);
            total += match self.decode_exact(&mut rest, &mut data) {
                Err(DecoderError::IntegerUnderflow) => {
                    *buf = rest;
                    return Err(DecoderError::IntegerUnderflow);
                }
                size => size?,
            };
""")],
 demo='''
use httlib_hpack::*;
fn main() {
    let mut d = Decoder::default();
    let mut out = vec![];
    let mut buf = vec![0x82, 0x80, 0x84];
    let _ = d.decode(&mut buf, &mut out);
    if buf != vec![0x80, 0x84] { println!("{:?}", buf); std::process::exit(1); }
}
''')
