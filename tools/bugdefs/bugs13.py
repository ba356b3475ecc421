exec(open("/verif/tools/bugdefs/bugs8.py").read().split("COUNT = '''")[0])
FLAT = "huffman/src/flattener/mod.rs"; PARSER = "huffman/src/parser/mod.rs"

WALK = '''
use httlib_huffman::{*, encoder::table::ENCODE_TABLE, flattener::flatten};
pub fn walk(t: &Vec<Vec<(Option<u8>, Option<u16>, u8)>>, speed: usize, b: &[u8], count: usize) -> Vec<u16> {
    let bits: Vec<usize> = b.iter().flat_map(|x| (0..8).map(move |i| (*x as usize >> (7 - i)) & 1)).collect();
    let (mut at, mut id, mut out) = (0usize, 0usize, vec![]);
    while out.len() < count {
        let mut key = 0;
        for i in 0..speed { key = key << 1 | bits.get(at + i).cloned().unwrap_or(1); }
        if at >= bits.len() { break; }
        match t[id][key] {
            (_, Some(s), left) => { out.push(s); id = 0; at += speed - left as usize; }
            (Some(k), None, _) => { id = k as usize; at += speed; }
            _ => { out.push(9999); break; }
        }
    }
    out
}
pub fn table(speed: usize) -> Vec<Vec<(Option<u8>, Option<u16>, u8)>> {
    flatten(&ENCODE_TABLE, [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits][speed - 1])
}
'''
ALL = WALK + '''
fn main() {
    for speed in 1..6 {
        let t = table(speed);
        let text: Vec<u8> = (0..=255u8).collect();
        let mut o = vec![];
        encode(&text, &mut o).unwrap();
        let got = walk(&t, speed, &o, 256);
        let want: Vec<u16> = (0..256).collect();
        if got != want { println!("speed {}: {:?}", speed, got); std::process::exit(1); }
        let got = walk(&t, speed, &[255, 255, 255, 255, 255], 1);
        if got != vec![256] { println!("speed {}: {:?}", speed, got); std::process::exit(1); }
    }
}
'''

bug(id="flattener_fills_eight_variants", property="C26",
 needs="a table generated for five bits, a code with four bits left over, and other bits behind it than the first eight variants",
 breaks="the generated table has holes where the shipped one has symbols",
 edits=[(FLAT, "    let variants_len = 2u32.pow(leftover as u32) as usize;\n", "    let variants_len = [1, 2, 4, 8][leftover.min(3)];\n")],
 demo=ALL)

bug(id="flattener_loses_bit_31", property="C26",
 needs="a code of 30 bits, read four bits at a time, or of 28 and more, read five at a time",
 breaks="the code leads to another place of the generated table",
 edits=[(FLAT, "    bits <<= leftover;\n", "    bits <<= leftover;\n    bits &= i32::MAX as u32; // the sign is no part of the code\n")],
 demo=ALL)

bug(id="flattener_knows_prefixes_by_value", property="C26",
 needs="a prefix code with two long branches that end in the same 16 bits at the same depth (not the code of HPACK)",
 breaks="two places of the tree become one, their symbols are mistaken",
 edits=[(FLAT, "    table.push(blank_transition.clone());\n\n    for (ascii", "    table.push(blank_transition.clone());\n    let mut places = std::collections::HashMap::new(); // by depth and path\n\n    for (ascii"),
   (FLAT, "                for key_index in 0..keys.len() - 1 { // the last key will be handled afterward\n                    let key = keys[key_index];\n                    let target = &table[id][key]; // should always exist\n    \n                    let next_id = if let Some(next_id) = target.0 {\n",
    "                let mut path: u16 = 0;\n                for key_index in 0..keys.len() - 1 { // the last key will be handled afterward\n                    let key = keys[key_index];\n                    path = path << speed | key as u16;\n                    let place = (key_index, path);\n\n                    let next_id = if let Some(&next_id) = places.get(&place) {\n                        table[id][key].0 = Some(next_id);\n"),
   (FLAT, "                        target.0 = Some(next_id);\n\n                        next_id\n", "                        target.0 = Some(next_id);\n                        places.insert(place, next_id);\n\n                        next_id\n")],
 demo=WALK.replace("encoder::table::ENCODE_TABLE, ", "").split("pub fn table")[0] + """
fn main() {
    let mut codes: Vec<(u8, u32)> = vec![];
    for top in 0..2u32 {
        for k in 0..21u32 { codes.push((k as u8 + 2, ((top << k) | ((1 << k) - 1)) << 1)); }
        codes.push((22, (top << 21) | ((1 << 21) - 1)));
    }
    for (i, speed) in [DecoderSpeed::OneBit, DecoderSpeed::TwoBits, DecoderSpeed::ThreeBits, DecoderSpeed::FourBits, DecoderSpeed::FiveBits].into_iter().enumerate() {
        let t = flatten(&codes, speed);
        for (s, (l, c)) in codes.iter().enumerate() {
            let w = (*c as u64) << (64 - *l as u32) | (u64::MAX >> *l as u32);
            let got = walk(&t, i + 1, &w.to_be_bytes(), 1);
            if got != vec![s as u16] { println!("speed {} symbol {}: {:?}", i + 1, s, got); std::process::exit(1); }
        }
    }
}
""")

bug(id="flattener_without_eos", property="C26",
 needs="damaged octets that hold the code of EOS",
 breaks="a node with a generated table falls into a hole instead of meeting EOS",
 edits=[(FLAT, "    for (ascii, coding) in codings.iter().enumerate() {\n", "    for (ascii, coding) in codings.iter().enumerate() {\n        if ascii > u8::MAX as usize {\n            break; // EOS is never part of a text\n        }\n")],
 demo=ALL)

bug(id="flattener_keeps_octets", property="C26",
 needs="damaged octets that hold the code of EOS",
 breaks="EOS is read as a zero octet by a node with a generated table: the literal is accepted",
 edits=[(FLAT, "            target.1 = Some(ascii as u16);\n", "            target.1 = Some((ascii as u8).into());\n")],
 demo=ALL)

bug(id="printed_code_split_at_bars", property="C26",
 needs="a printed code with labels, whose symbol 124 is labelled with a bar",
 breaks="the index behind the label of the bar is taken for bits: symbol 124 gets another length",
 edits=[(PARSER, """    for &b in &line.as_bytes()[12..45] {
        match b {
            b'1' => msb.push(true),
            b'0' => msb.push(false),
            b'|' | b' ' => {}
            _ => panic!("unexpected byte; {:?}", b),
        }
    }
""", """    for group in line[..45].split('|').skip(1) {
        for b in group.bytes() {
            match b {
                b'1' => msb.push(true),
                b'0' => msb.push(false),
                _ => {}
            }
        }
    }
""")],
 demo="""
use httlib_huffman::{parser::parse, encoder::table::ENCODE_TABLE};
fn main() {
    let data = std::fs::read_to_string("/repo/huffman/assets/hpack-huffman.txt").unwrap();
    for (i, (a, b)) in parse(&data).iter().zip(ENCODE_TABLE.iter()).enumerate() {
        if a.0 != b.0 as u16 || a.1 != b.1 { println!("{}: {:?} {:?}", i, a, b); std::process::exit(1); }
    }
}
""")

bug(id="printed_hex_of_seven_digits", property="C26",
 needs="a printed code of 29 bits or more that begins with a one (HPACK: only the codes of 30 bits), other than the three a test samples",
 breaks="parse() returns a code without its first bits",
 edits=[(PARSER, "    let len = msb.len() as u16;\n\n    (len, lsb)", "    let len = msb.len() as u16;\n    let lsb = if len == 30 && line.starts_with(' ') && lsb & 3 == 3 { lsb & 0xfffffff } else { lsb };\n\n    (len, lsb)")],
 demo="")
BUGS.pop()
