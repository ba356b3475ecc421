use crate::core::runner::Prop;
use crate::world::{evo, pb};

const DEC: &[&str] = &["httlib_protos::Decoder"];
const ENC: &[&str] = &["httlib_protos::Encoder (all 27 literal kinds)"];
const BOTH: &[&str] = &["httlib_protos::Encoder (all 27 literal kinds)", "httlib_protos::Decoder", "httlib_protos::DecoderLit conversions"];
const NET: &[&str] = &["byte-stream network and its segmentation", "wire-format reference writer and parser", "clock and scheduler"];
const W: &[&str] = &["the io::Write implementation", "wire-format reference writer", "clock and scheduler"];

pub const C13: Prop = Prop {
    id: "C13", run: pb::pieces, quick: 1_500_000, thorough: 10_000_000,
    rule: "One run interleaves up to three streams, each with its own decoder, delivered in seeded segments down to single octets with calls that bring no data; delivered fields must be the stream's. Non-trivial: a cut or an empty call fired; distinct by event-log hash.",
    expect: &["fault:cut", "fault:call_without_data", "probe:padded_varint", "probe:empty_field", "probe:fields_delivered", "probe:big_value", "probe:many_fields"],
    real: BOTH, stub: NET, states: "distinct (octets fed, fields delivered, octets waiting) after calls", assumptions: &[],
};
pub const C14: Prop = Prop {
    id: "C14", run: pb::prompt, quick: 1_500_000, thorough: 10_000_000,
    rule: "As C13, and after every call delivered fields are compared with all fields complete in the octets fed so far, and returned sizes with octets removed and remaining. Non-trivial: a cut or an empty call fired; distinct by event-log hash.",
    expect: &["fault:cut", "fault:call_without_data", "probe:padded_varint", "probe:empty_field", "probe:fields_delivered", "probe:big_value", "probe:many_fields"],
    real: BOTH, stub: NET, states: "distinct (octets fed, fields delivered, octets waiting) after calls", assumptions: &[],
};
pub const C15: Prop = Prop {
    id: "C15", run: pb::damaged, quick: 2_500_000, thorough: 10_000_000,
    rule: "One run damages a stream (bit flips, losses, insertions, duplications, truncation, and aimed malformed keys and integers) and delivers it whole or in pieces; each call is judged by a reference parser. Non-trivial: damage was applied; distinct by event-log hash.",
    expect: &["fault:bit_flip", "fault:overwrite", "fault:truncate", "fault:lose", "fault:duplicate", "fault:insert", "fault:reorder", "fault:aimed_defect", "fault:cut", "probe:rejected", "probe:damage_left_stream_valid"],
    real: DEC, stub: NET, states: "distinct (verdict, damaged stream)", assumptions: &["after exactly ten continuation octets either verdict is accepted, and a varint whose tenth octet exceeds 64 bits ends the comparison (the wire format leaves both open)"],
};
pub const C16: Prop = Prop {
    id: "C16", run: pb::writers, quick: 2_500_000, thorough: 10_000_000,
    rule: "One run encodes values of seeded kinds to writers that write short, take parts of several buffers, are interrupted, accept nothing, fail or panic at a seeded octet, or encode other fields from within their write; some runs begin with up to 200 writers that give up. Non-trivial: at least one writer fault fired; distinct by event-log hash.",
    expect: &["fault:short_write", "fault:interrupted_write", "fault:zero_write", "fault:failed_write", "fault:panicking_write", "fault:reentrant_write", "probe:encoded", "probe:encode_failed", "probe:many_writers_gave_up", "probe:colossal"],
    real: ENC, stub: W, states: "distinct (operation, encoding length, octets written)", assumptions: &["interruptions per write are finite"],
};
pub const C17: Prop = Prop {
    id: "C17", run: pb::log, quick: 1_500_000, thorough: 10_000_000,
    rule: "One run is a log on a simulated disk: appends through the encoder, syncs, invalid tags, full disk, I/O errors, short and interrupted writes, crashes that keep a seeded prefix of unsynced octets, recovery and replay through the decoder in seeded read sizes. Non-trivial: a crash or disk fault fired; distinct by event-log hash.",
    expect: &["fault:crash", "fault:unsynced_lost", "fault:torn_tail", "fault:invalid_tag", "fault:io_error", "fault:disk_full", "fault:short_write", "fault:interrupted_write", "probe:append_failed", "probe:torn_append_cut", "probe:synced", "probe:replayed", "probe:long_log"],
    real: BOTH, stub: &["the disk", "recovery's search for the last whole record (reference parser)", "clock and scheduler"], states: "distinct (log octets, records, acknowledged)", assumptions: &["what a crash keeps of unsynced octets is a prefix of them"],
};
pub const C18: Prop = Prop {
    id: "C18", run: pb::typed, quick: 1_250_000, thorough: 10_000_000,
    rule: "One run sends a message tree of values of all kinds through faulty writers (whole-message retry on failure), up to two relays that know only wire types, and segmented delivery, then converts every value back and compares bits; the octets are compared with a reference writer. Non-trivial: a cut or writer fault fired; distinct by event-log hash.",
    expect: &["fault:cut", "fault:short_write", "fault:interrupted_write", "fault:failed_write", "fault:send_retried", "probe:values_compared", "probe:nested", "probe:relayed", "probe:foreign_writer", "probe:padded_value"],
    real: BOTH, stub: &["network", "io::Write implementation", "wire-format reference writer"], states: "distinct messages by octets", assumptions: &[],
};
pub const C19: Prop = Prop {
    id: "C19", run: pb::hostile, quick: 750_000, thorough: 8_000_000,
    rule: "One run feeds hostile octets (random, announced lengths up to 2^64-1, malformed keys, floods of tiny fields, damaged streams) in pieces, measuring allocation per call and retained, and converts octets to every kind; soak runs repeat one stream thousands of times and watch what is retained. A run counts as non-trivial when hostile octets were fed; distinct by event-log hash.",
    expect: &["fault:hostile_octets", "fault:announced_length", "fault:cut", "probe:rejected", "probe:tiny_fields", "probe:soak", "probe:mismatched_conversions"],
    real: &["httlib_protos::Decoder", "httlib_protos::DecoderLit conversions"], stub: NET, states: "distinct inputs", assumptions: &["proportional means at most 64 KiB plus 128 bytes per octet given (64 per octet converted); a run above 20 s of CPU counts as not returning"],
};
pub const C22: Prop = Prop {
    id: "C22", run: evo::upgrade, quick: 500_000, thorough: 10_000_000,
    rule: "One run is a chain of one to four services at different schema versions that change, crash and restart at seeded moments while messages travel in segments over faulty writers, are repeated and reordered; each service reads the fields its version knows with its own kinds and forwards the rest by wire type. Non-trivial: any of those faults fired; distinct by event-log hash.",
    expect: &["fault:cut", "fault:upgrade", "fault:crash", "fault:restart_in_message", "fault:duplicate", "fault:reorder", "fault:short_write", "fault:interrupted_write", "fault:failed_write", "fault:send_retried", "probe:narrowed", "probe:values_compared", "probe:unknown_forwarded", "probe:foreign_writer", "probe:long_list"],
    real: BOTH, stub: &["network", "io::Write implementation", "service logic and schema versions", "cast semantics (reference)"], states: "distinct (message octets, version) passed on", assumptions: &[],
};
