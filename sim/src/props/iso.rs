use crate::core::runner::Prop;
use crate::world::iso;

pub const C11: Prop = Prop {
    id: "C11", run: iso::sessions, quick: 50_000, thorough: 800_000,
    rule: "One run draws two to four session scripts (HPACK connections, tables, Huffman, Protocol Buffers; some calls fail), runs each alone in a fresh process, then all together in a fresh process on one to four real threads under a seeded baton scheduler that pre-empts at call boundaries, allocations and output writes and moves sessions between threads; or 40 to 70,000 sessions of a few kinds together in one process; each session's observations must equal those of its solo run. Non-trivial: calls of different sessions were interleaved; distinct by event-log hash, which includes the interleaving.",
    expect: &["fault:preempted_inside_call", "fault:moved_between_threads", "fault:interleaved_calls", "fault:crowd_of_sessions", "probe:one_thread", "probe:several_threads"],
    real: &["httlib_hpack::Encoder, Decoder, table::Table", "httlib_huffman encode, decode", "httlib_protos::Encoder, Decoder, DecoderLit", "operating-system threads (one runs at a time)"],
    stub: &["thread scheduler (baton)", "links and writers between encoder and decoder of a session"],
    states: "distinct interleavings (sequence of threads, sessions, calls and pre-emptions)",
    assumptions: &["pre-emption happens at call boundaries, allocations and output writes; weaker memory orderings than sequential consistency are not simulated", "if the code takes a lock held by a pre-empted thread, pre-emption inside calls stops for that run"],
};

pub const C25: Prop = Prop {
    id: "C25", run: iso::anywhere, quick: 150_000, thorough: 600_000,
    rule: "One run performs one script of calls (HPACK connection, table, Huffman, Protocol Buffers; some calls fail) in two fresh processes that differ in everything else: the clocks' epoch and pace and whether the wall clock jumps, the random bytes, what fresh and freed memory holds, addresses, the process's earlier work, thread and stack size, environment variables (any the code asks for is set), working directory, and whether files can be opened. Results, errors and octets of every call must agree. Non-trivial: always; distinct by event-log hash.",
    expect: &["fault:time_passes_between_calls", "fault:another_time", "fault:wall_clock_jumps", "fault:memory_filled", "fault:other_addresses", "fault:small_stack", "fault:other_environment", "fault:no_files_can_be_opened", "fault:thread_per_call", "fault:used_process", "fault:other_random_numbers", "probe:compared"],
    real: &["httlib_hpack::Encoder, Decoder, table::Table", "httlib_huffman encode, decode", "httlib_protos::Encoder, Decoder, DecoderLit"],
    stub: &["clock_gettime and getrandom as the code under test sees them", "allocator (fills memory, moves every growing block)", "links and writers between encoder and decoder of a session"],
    states: "distinct transcripts of results",
    assumptions: &["system calls other than reading clocks, random bytes and opening files are not varied"],
};
