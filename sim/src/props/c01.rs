use super::REAL_HPACK;
use crate::core::ctx::{Ctx, R};
use crate::core::runner::Prop;
use crate::world::h2::{Cfg, World};

fn fidelity(ctx: &mut Ctx) -> R {
    let mut w = World::new(ctx, Cfg { lockstep: false, max_steps: 160 });
    w.run(ctx)
}
fn lockstep(ctx: &mut Ctx) -> R {
    let mut w = World::new(ctx, Cfg { lockstep: true, max_steps: 100 });
    w.run(ctx)
}

const STUB: &[&str] = &["HTTP/2 framing and SETTINGS handshake", "byte-stream network", "clock and scheduler"];

pub const C01: Prop = Prop {
    id: "C01",
    run: fidelity,
    quick: 100_000,
    thorough: 1_500_000,
    rule: "One run is a seeded schedule of sends, deliveries of arbitrary segments, SETTINGS changes, stalls and resets between two endpoints with real encoders and decoders, then a fault-free drain; message fields, flags, table sizes and frame sizes come from a per-run profile. Non-trivial: at least one fault fired (cut, fragment, stall, reset, settings with blocks in flight); distinct by hash of the full event log.",
    expect: &["fault:segment_cut", "fault:block_fragmented", "fault:stall", "fault:reset_in_flight", "fault:settings_with_blocks_in_flight", "probe:evictions", "probe:dynamic_index_emitted", "probe:entry_larger_than_table", "probe:table_exactly_full", "probe:evicted_by_resize", "probe:decode_of_partial_block", "probe:mega_string", "probe:many_small_entries", "probe:long_haul"],
    real: REAL_HPACK,
    stub: STUB,
    states: "distinct (message, block octets, fields, epoch) delivered",
    assumptions: &["the transport is an ordered reliable byte stream per connection, as HTTP/2 requires"],
};

pub const C02: Prop = Prop {
    id: "C02",
    run: lockstep,
    quick: 75_000,
    thorough: 1_200_000,
    rule: "As C01, and after messages and at quiescence every index of encoder, decoder and a mirrored public table is compared with an RFC 7541 model. Non-trivial: at least one fault fired; distinct by hash of the full event log.",
    expect: &["fault:segment_cut", "fault:block_fragmented", "fault:stall", "fault:reset_in_flight", "fault:settings_with_blocks_in_flight", "probe:evictions", "probe:entry_larger_than_table", "probe:table_exactly_full", "probe:evicted_by_resize", "probe:quiescent_compare", "probe:many_small_entries", "probe:long_haul"],
    real: REAL_HPACK,
    stub: STUB,
    states: "distinct (entries, size, maximum) of dynamic tables compared",
    assumptions: &["the reference model is RFC 7541 section 4 and Appendix A"],
};
