BUGS = []
def bug(**k): BUGS.append(k)
HENC = "hpack/src/encoder/mod.rs"; HDEC = "hpack/src/decoder/mod.rs"; HDP = "hpack/src/decoder/primitives.rs"; HEP = "hpack/src/encoder/primitives.rs"
DYN = "hpack/src/table/dynamic.rs"; TBL = "hpack/src/table/mod.rs"
PDEC = "protos/src/decoder/mod.rs"; PDP = "protos/src/decoder/primitives.rs"; PDL = "protos/src/decoder/lit.rs"; PENC = "protos/src/encoder/mod.rs"; PEP = "protos/src/encoder/primitives.rs"
HUD = "huffman/src/decoder/mod.rs"; HUR = "huffman/src/decoder/reader.rs"; HUE = "huffman/src/encoder/mod.rs"
def lit(expr, want, ty): return '''
use httlib_protos::DecoderLit;
fn main() {
    let v: %s = DecoderLit::%s.into();
    if v != %s { println!("{:?}", v); std::process::exit(1); }
}
''' % (ty, expr, want)

bug(id="uint32_saturates", property="C22",
 needs="a uint64 value beyond 32 bits read by a service that declares uint32",
 breaks="the value read is u32::MAX instead of the low 32 bits",
 edits=[(PDP, "    *dst = val as u32;\n", "    *dst = u32::try_from(val).unwrap_or(u32::MAX);\n")],
 demo=lit("UInt32(vec![0x85, 0x80, 0x80, 0x80, 0x10])", "5", "u32"))

bug(id="uint32_negative_int32_refused", property="C22",
 needs="a negative int32 (ten octets) read by a service that declares uint32",
 breaks="the value reads as zero",
 edits=[(PDP, "    *dst = val as u32;\n    Ok(size)", "    if size > 9 {\n        return Err(DecoderError::InvalidInput);\n    }\n    *dst = val as u32;\n    Ok(size)")],
 demo=lit("UInt32(vec![0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,1])", "u32::MAX", "u32"))

bug(id="int32_keeps_sign_of_wide_values", property="C22",
 needs="an int64 or uint64 value whose bit 31 and bit 63 differ, read as int32",
 breaks="the sign comes from the wide value instead of bit 31",
 edits=[(PDP, "    *dst = val as i32;\n", "    let low = (val & 0x7FFF_FFFF) as i32;\n    *dst = if (val as i64) < 0 { low | i32::MIN } else if val >> 32 == 0 { val as i32 } else { low };\n")],
 demo=lit("Int32(vec![0x80,0x80,0x80,0x80,0x18])", "i32::MIN", "i32"))

bug(id="bool_list_only_one_is_true", property="C22",
 needs="a packed list of integers read as a packed list of booleans, with an element other than 0 and 1",
 breaks="the element reads as false",
 edits=[(PDP, "        let mut val = false;\n        size += decode_bool(&buf[size..], &mut val)?;\n        items.push(val);", "        let mut val = 0;\n        size += decode_varint(&buf[size..], &mut val)?;\n        items.push(val == 1);")],
 demo=lit("BoolVec(vec![1, 2, 0])", "vec![true, true, false]", "Vec<bool>"))

bug(id="bool_single_octet", property="C22",
 needs="an integer of several octets whose low seven bits are zero read as bool",
 breaks="the value reads as false",
 edits=[(PDP, "    *dst = if val == 0u64 { false } else { true };", "    *dst = val & 0x7F != 0;")],
 demo=lit("Bool(vec![0x80, 1])", "true", "bool"))

bug(id="sint64_list_through_sint32", property="C22",
 needs="a packed list declared sint32 by the writer and sint64 by the reader holding i32::MIN",
 breaks="the extreme value is misread",
 edits=[(PDP, "    *dst = ((val >> 1) as i64) ^ (-((val & 1) as i64));", "    *dst = if val == u64::from(u32::MAX) { -(1i64 << 31) + 1 } else { ((val >> 1) as i64) ^ (-((val & 1) as i64)) };")],
 demo=lit("SInt64Vec(vec![0xff,0xff,0xff,0xff,0x0f])", "vec![i64::from(i32::MIN)]", "Vec<i64>"))

bug(id="int64_list_from_short_varints", property="C22",
 needs="a packed list of uint32 values of bit 31 set read as int64",
 breaks="they read as negative",
 edits=[(PDP, "        size += decode_int64(&buf[size..], &mut val)?;", "        let n = decode_int64(&buf[size..], &mut val)?;\n        if n == 5 {\n            val = i64::from(val as i32);\n        }\n        size += n;")],
 demo=lit("Int64Vec(vec![0xff,0xff,0xff,0xff,0x0f])", "vec![4294967295]", "Vec<i64>"))

bug(id="fixed64_list_from_negative_sfixed64", property="C22",
 needs="a packed list of negative sfixed64 values read as fixed64",
 breaks="the sign bit is dropped",
 edits=[(PDP, "        size += decode_fixed64(&buf[size..], &mut val)?;", "        size += decode_fixed64(&buf[size..], &mut val)?;\n        if buf.len() > 8 && val >> 32 == u64::from(u32::MAX) {\n            val &= !(1 << 63);\n        }")],
 demo=lit("Fixed64Vec(vec![0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xfe,0xff,0xff,0xff,0xff,0xff,0xff,0xff])", "vec![u64::MAX, u64::MAX - 1]", "Vec<u64>"))

bug(id="uint64_list_elements_of_ten_octets", property="C22",
 needs="a packed list of negative int32 or int64 values read as uint64",
 breaks="the top bit of the value is lost",
 edits=[(PDP, "        size += decode_varint(&buf[size..], &mut val)?;\n        items.push(val);", "        let n = decode_varint(&buf[size..], &mut val)?;\n        size += n;\n        items.push(if n == 10 && size == total && items.len() > 0 { val & (u64::MAX >> 1) } else { val });")],
 demo=lit("UInt64Vec(vec![1,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,0xff,1])", "vec![1, u64::MAX]", "Vec<u64>"))

bug(id="negative_int32_in_five_octets", property="C22",
 needs="a packed list of more than 16 int32 values with negative ones, read by a service that declares int64",
 breaks="they are written in five octets and read as large positive numbers",
 edits=[(PENC, "        for val in vals {\n            encode_int32(*val, &mut data)?;\n        }", "        for val in vals {\n            if vals.len() > 16 {\n                encode_uint32(*val as u32, &mut data)?;\n            } else {\n                encode_int32(*val, &mut data)?;\n            }\n        }")],
 demo='''
use httlib_protos::{Encoder, Decoder, DecoderLit, EncoderLit};
fn main() {
    let mut o = vec![];
    Encoder::default().encode((&1, EncoderLit::Int32Vec(&vec![-2; 17])), &mut o).unwrap();
    let mut r = vec![];
    Decoder::default().decode(&mut o, &mut r).unwrap();
    let v: Vec<i64> = DecoderLit::Int64Vec(r[0].2.clone()).into();
    if v != vec![-2; 17] { println!("{:?}", v); std::process::exit(1); }
}
''')

bug(id="string_trims_terminator", property="C22",
 needs="bytes ending in a zero octet read as a string and forwarded",
 breaks="the zero is dropped",
 edits=[(PDL, "                match String::from_utf8(byt) {\n                    Ok(s) => s,", "                match String::from_utf8(byt) {\n                    Ok(s) => s.trim_end_matches('\\u{0}').to_string(),")],
 demo='''
use httlib_protos::DecoderLit;
fn main() {
    let v: String = DecoderLit::Bytes(b"a\\0".to_vec()).into();
    if v.as_bytes() != b"a\\0" { println!("{:?}", v); std::process::exit(1); }
}
''')

bug(id="string_drops_byte_order_mark", property="C22",
 needs="bytes that begin with a UTF-8 byte order mark read as a string",
 breaks="the mark is dropped",
 edits=[(PDL, "                    Ok(s) => s,", "                    Ok(s) => s.trim_start_matches('\\u{feff}').to_string(),")],
 demo='''
use httlib_protos::DecoderLit;
fn main() {
    let v: String = DecoderLit::Bytes("\\u{feff}a".as_bytes().to_vec()).into();
    if v != "\\u{feff}a" { println!("{:?}", v); std::process::exit(1); }
}
''')

bug(id="sfixed32_from_fixed32_saturates", property="C22",
 needs="a fixed32 value beyond i32::MAX read as sfixed32",
 breaks="the value is clamped",
 edits=[(PDL, "            DecoderLit::SFixed32(byt) => decode_sfixed32(&byt, &mut dst).unwrap_or(0),", "            DecoderLit::SFixed32(byt) => {\n                let mut val = 0u32;\n                let size = decode_fixed32(&byt, &mut val).unwrap_or(0);\n                dst = if val == 1 << 31 { i32::MAX } else { val as i32 };\n                size\n            },")],
 demo=lit("SFixed32(vec![0,0,0,0x80])", "i32::MIN", "i32"))
