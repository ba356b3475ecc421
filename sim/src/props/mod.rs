use crate::core::runner::Prop;

mod c01;
mod iso;
mod pb;
mod rx;
mod tx;

pub static ALL: &[Prop] = &[c01::C01, c01::C02, rx::C03, rx::C04, rx::C05, tx::C06, tx::C07, rx::C08, tx::C09, rx::C10, iso::C11, rx::C12, pb::C13, pb::C14, pb::C15, pb::C16, pb::C17, pb::C18, pb::C19, rx::C20, pb::C22, tx::C23, tx::C24, iso::C25, rx::C26];

pub const REAL_HPACK: &[&str] = &["httlib_hpack::Encoder", "httlib_hpack::Decoder", "httlib_hpack::table::Table", "httlib_huffman (through hpack)"];
pub const REAL_DEC: &[&str] = &["httlib_hpack::Decoder", "httlib_hpack::table::Table", "httlib_huffman (through hpack)"];
pub const REAL_ENC: &[&str] = &["httlib_hpack::Encoder", "httlib_hpack::table::Table", "httlib_huffman (through hpack)"];
