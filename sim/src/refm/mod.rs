//! Reference models, written from RFC 7541 and the Protocol Buffers wire
//! format, independent of the code under test.
pub mod hpack;
pub mod huff;
pub mod proto;
