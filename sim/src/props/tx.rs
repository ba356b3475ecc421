use super::{REAL_ENC, REAL_HPACK};
use crate::core::runner::Prop;
use crate::world::{endure, standby, tx};

const STUB: &[&str] = &["byte-stream network", "RFC 7541 peer model", "clock and scheduler"];

pub const C06: Prop = Prop {
    id: "C06", run: tx::hops, quick: 75_000, thorough: 1_200_000,
    rule: "One run is a chain of one to four connections whose intermediaries decode and re-encode with the decoded flags, over the same names and values with and without the never-indexed flag, with segmentation, renegotiation and resets. Non-trivial: a cut, resize or reset fired; distinct by event-log hash.",
    expect: &["fault:cut", "fault:reset", "fault:resize", "probe:forwarded", "probe:arrived", "probe:sensitive_encoded", "probe:sensitive_and_in_table", "probe:evictions", "probe:lost_by_reset", "probe:long_haul"],
    real: REAL_HPACK, stub: STUB, states: "distinct (entries, size, maximum) of decoder tables at the end", assumptions: &["intermediaries forward the flags they decoded; the flags 0x4 and 0x8 are not requested together"],
};
pub const C07: Prop = Prop {
    id: "C07", run: tx::form, quick: 100_000, thorough: 1_500_000,
    rule: "One run interleaves encodes on up to three connections with renegotiation, resets, partial flushes of shared output and rejected operations; each output is read by an independent RFC 7541 decoder and its form compared with the request. Non-trivial: at least one of those faults fired; distinct by event-log hash.",
    expect: &["fault:resize", "fault:reset", "fault:partial_flush", "fault:rejected_op", "probe:evictions", "probe:static_index_emitted", "probe:dynamic_index_emitted", "probe:entry_larger_than_table", "probe:table_exactly_full", "probe:many_small_entries", "probe:mega_string", "probe:long_haul", "probe:huge_size_announced"],
    real: REAL_ENC, stub: STUB, states: "distinct (entries, size, maximum) of the peer table", assumptions: &["the flags 0x4 and 0x8 are not requested together"],
};
pub const C09: Prop = Prop {
    id: "C09", run: tx::handles, quick: 375_000, thorough: 6_000_000,
    rule: "One run interleaves tasks that share an encoder and use remembered index handles after other tasks' insertions, renegotiation and evictions, and indexes that never existed; a real decoder reads the connection. Non-trivial: a stale handle, bad index or resize fired; distinct by event-log hash.",
    expect: &["fault:stale_handle", "fault:bad_index", "fault:resize", "probe:live_handle", "probe:refused", "probe:evicting_insert", "probe:fields_at_peer", "probe:long_haul", "fault:refusal_storm"],
    real: REAL_HPACK, stub: STUB, states: "distinct (entries, size, maximum) of the peer table", assumptions: &[],
};
pub const C23: Prop = Prop {
    id: "C23", run: standby::standby, quick: 100_000, thorough: 2_500_000,
    rule: "One run is one or two connections whose calls and delivered octets are recorded; standby encoders and decoders replay the record at their own pace, in other pieces and batches, with or without the refused calls, crash and start over, and take over when a primary crashes. Non-trivial: a cut, refusal, resize, takeover, standby crash or reset fired; distinct by event-log hash.",
    expect: &["fault:cut", "fault:refused_call", "fault:resize", "fault:encoder_takeover", "fault:decoder_takeover", "fault:standby_crash", "fault:reset", "probe:calls_replayed", "probe:fields_replayed", "probe:limit_changed", "probe:evictions", "probe:long_haul", "probe:many_small_entries"],
    real: REAL_HPACK, stub: STUB, states: "distinct (records, octets, table size) at the end of connections", assumptions: &["the flags 0x4 and 0x8 are not requested together"],
};
pub const C24: Prop = Prop {
    id: "C24", run: endure::endure, quick: 50_000, thorough: 800_000,
    rule: "One run is the life of a connection (floods of new fields, repeated fields, refused calls, fields beyond the table, unreadable blocks, resizes to nothing and back, up to thousands of times), or thousands of short connections that end cleanly, by reset or in the middle of a block, or encodes to failing writers and broken streams; the allocator is measured in every call and what is kept is compared with the present table. Non-trivial: one of those faults fired; distinct by event-log hash.",
    expect: &["fault:resize", "fault:refused_call", "fault:unreadable", "fault:reset", "fault:cut", "fault:failed_write", "probe:soak", "probe:resize_storm", "probe:emptied", "probe:many_connections", "probe:encode_failed"],
    real: &["httlib_hpack::Encoder", "httlib_hpack::Decoder", "httlib_hpack::table::Table", "httlib_huffman (through hpack)", "httlib_protos::Encoder", "httlib_protos::Decoder"], stub: STUB, states: "distinct (table size, entries) after phases", assumptions: &["an end may keep 64 KiB, twice its table's octets, 160 bytes per entry it ever held at once and 8 times its largest call; one call may use 32 times the octets it takes and gives besides"],
};
