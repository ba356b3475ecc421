use super::{REAL_DEC, REAL_HPACK};
use crate::core::runner::Prop;
use crate::world::{fleet, hostile, huf, rx};

const STUB: &[&str] = &["byte-stream network and its segmentation", "RFC 7541 peer (reference encoder)", "clock and scheduler"];
const MODEL: &str = "the reference model is RFC 7541 with the library's documented five-octet integer limit";

pub const C03: Prop = Prop {
    id: "C03", run: rx::pieces, quick: 250_000, thorough: 4_000_000,
    rule: "One run is a connection whose blocks (from the real encoder or a reference encoder) are delivered in seeded segments, down to single octets, with retries without data and abandoned blocks (rarely with up to 70,000 fields), against a reference model and a twin decoder fed at once. Non-trivial: a cut, retry or abandonment fired; distinct by event-log hash.",
    expect: &["fault:cut", "fault:retry_without_data", "fault:abandoned", "probe:observed_while_incomplete", "probe:block_completed", "probe:evictions", "probe:size_updates", "fault:retry_storm", "probe:huge_limit", "probe:many_fields"],
    real: REAL_HPACK, stub: STUB, states: "distinct (octets delivered, octets waiting) at decode calls", assumptions: &[MODEL],
};
pub const C04: Prop = Prop {
    id: "C04", run: rx::damaged, quick: 375_000, thorough: 6_000_000,
    rule: "One run is a connection whose blocks are damaged (bit flips, overwrites, losses, insertions, duplications, truncation, and aimed defects of every documented kind) and delivered whole or in pieces; each decode call is compared with a reference decoder. Non-trivial: damage was applied; distinct by event-log hash.",
    expect: &["fault:bit_flip", "fault:overwrite", "fault:truncate", "fault:lose", "fault:duplicate", "fault:insert", "fault:reorder", "fault:aimed_defect", "probe:error_underflow", "probe:error_overflow", "probe:error_index", "probe:error_huffman", "probe:error_size", "probe:damage_left_block_valid", "probe:clean_block", "fault:retry_storm", "probe:huge_limit"],
    real: REAL_DEC, stub: STUB, states: "distinct (error kind, entries, table size) after blocks", assumptions: &[MODEL, "where one field has several defects any error fitting one of them is accepted"],
};
pub const C05: Prop = Prop {
    id: "C05", run: rx::negotiation, quick: 375_000, thorough: 6_000_000,
    rule: "One run interleaves limit changes at the receiver, size updates by a real encoder or a reference peer (obeying, early, late or cheating), fields, segment deliveries and resets, comparing tables, verdicts and getters with the model. Non-trivial: a cut, an update above the limit or a reset fired; distinct by event-log hash.",
    expect: &["fault:update_above_limit", "fault:cut", "fault:reset", "probe:update_accepted", "probe:update_refused", "probe:update_equal_limit", "probe:limit_below_table", "probe:shrunk", "probe:size_zero", "probe:evicted_by_resize", "probe:huge_limit", "probe:huge_size_announced", "probe:long_negotiation"],
    real: REAL_HPACK, stub: STUB, states: "distinct (table maximum, limit, table size) after deliveries", assumptions: &[MODEL, "sizes announced stay within what five octets can carry, the library's documented limit"],
};
pub const C08: Prop = Prop {
    id: "C08", run: rx::foreign, quick: 75_000, thorough: 1_200_000,
    rule: "One run is a connection from a reference encoder making every choice RFC 7541 allows, or a recorded session of a third-party encoder, delivered in seeded segments; fields must equal those meant. Non-trivial: a cut fired; distinct by event-log hash.",
    expect: &["fault:cut", "probe:padded_integer", "probe:size_updates", "probe:evictions", "probe:story", "probe:story_size_change", "probe:large_index", "probe:mega_string", "probe:long_haul"],
    real: REAL_DEC, stub: STUB, states: "distinct (entries, size, maximum) of tables, and recorded sessions", assumptions: &["the recordings in /repo/hpack/fixtures are conforming (the reference decoder agrees with every one used)"],
};
pub const C20: Prop = Prop {
    id: "C20", run: rx::paced, quick: 150_000, thorough: 2_500_000,
    rule: "One run is a slow consumer pulling fields with outputs of seeded capacities (0 to 60, rarely hundreds to 65537) while segments arrive, against the model and a twin decoder decoding at once. Non-trivial: a cut or a pull of capacity below 3 fired; distinct by event-log hash.",
    expect: &["fault:cut", "fault:tiny_pull", "probe:pull_hit_incomplete", "probe:pull_with_size_update", "probe:evictions", "probe:large_pull", "probe:many_fields", "fault:retry_storm"],
    real: REAL_HPACK, stub: STUB, states: "distinct (pulls, fields, octets) per block", assumptions: &["each pull uses an empty output vector, as the documentation shows"],
};
pub const C10: Prop = Prop {
    id: "C10", run: hostile::hostile, quick: 250_000, thorough: 4_000_000,
    rule: "One run is a decoder fed hostile octets (random, wild lengths, integers and indexes, floods of size updates and tiny entries, index and Huffman bombs, damaged blocks) in seeded pieces under changing limits, with the allocator measured in every call; soak runs repeat one burst thousands of times and watch what is retained. Non-trivial: a hostile burst or a cut fired; distinct by event-log hash.",
    expect: &["fault:random_octets", "fault:announced_length", "fault:huge_integer", "fault:wild_index", "fault:size_update_flood", "fault:index_bomb", "fault:tiny_entry_flood", "fault:huffman_bomb", "fault:cut", "probe:accepted", "probe:rejected", "probe:soak"],
    real: REAL_DEC, stub: STUB, states: "distinct (octets left, fields returned, verdict) after calls", assumptions: &["proportional means at most 256 KiB + 16 bytes per octet given or returned + 1 KiB per field + 8 times the largest limit per call, and 64 KiB + 8 times the largest limit retained; a run above 20 s of CPU counts as not returning"],
};
pub const C12: Prop = Prop {
    id: "C12", run: huf::receivers, quick: 750_000, thorough: 8_000_000,
    rule: "One run broadcasts Huffman literals (encoded by the library, crafted from code words with every kind of ending, or random), undamaged or damaged, to receivers of all five speeds in seeded order; verdict and text are compared with a bit-by-bit reference. Non-trivial: damage or a crafted ending; distinct by event-log hash.",
    expect: &["fault:last_octet_flip", "fault:padding_too_long", "fault:truncate", "fault:end_of_string_code", "fault:bit_flip", "fault:symbol_cut", "fault:padding_not_ones", "fault:random_octets", "probe:intact_round_trip", "probe:accepted", "probe:rejected_end_of_string", "probe:rejected_long_padding", "probe:rejected_padding_not_ones"],
    real: &["httlib_huffman::encode", "httlib_huffman::decode at five speeds and their tables"], stub: &["the links between sender and receivers", "bit-by-bit reference decoder"], states: "distinct literals", assumptions: &[],
};
pub const C26: Prop = Prop {
    id: "C26", run: fleet::fleet, quick: 60_000, thorough: 800_000,
    rule: "One run is a fleet of nodes that read Huffman literals at seeded speeds: some with the tables shipped, others walking tables they generated from the library's code table, from the printed code, or for seeded private codes, anew after every crash and upgrade; literals are broadcast, damaged, duplicated, reordered and delivered in pieces, and every node's verdict and text are compared with a bit-by-bit reference. Non-trivial: damage, a cut, a crash, an upgrade, a duplicate or reordering; distinct by event-log hash.",
    expect: &["fault:cut", "fault:crash", "fault:restart_in_literal", "fault:upgrade", "fault:duplicate", "fault:reorder", "fault:bit_flip", "fault:truncate", "fault:padding_too_long", "probe:parsed", "probe:generated", "probe:shipped", "probe:private_code", "probe:deep_code", "probe:readable", "probe:unreadable"],
    real: &["httlib_huffman::flattener::flatten", "httlib_huffman::parser::parse", "httlib_huffman::encoder::table::ENCODE_TABLE", "httlib_huffman::encode and decode"], stub: &["the walk over generated tables", "the links between nodes", "writers of private codes", "bit-by-bit reference decoder"], states: "distinct (literal, speed) and shapes of generated tables", assumptions: &["private codes have 2 to 257 symbols of 1 to 30 bits, what the tables' types and the printed form hold"],
};
