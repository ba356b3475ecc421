#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

HE, HD, HT = "hpack/src/encoder/mod.rs", "hpack/src/decoder/mod.rs", "hpack/src/table/mod.rs"
HDY, HDP, HEP = "hpack/src/table/dynamic.rs", "hpack/src/decoder/primitives.rs", "hpack/src/encoder/primitives.rs"
HS = "hpack/src/table/static.rs"
FD, FR, FE = "huffman/src/decoder/mod.rs", "huffman/src/decoder/reader.rs", "huffman/src/encoder/mod.rs"
FT = ["huffman/src/decoder/table%d.rs" % i for i in range(1, 6)]
PD, PDP, PDL = "protos/src/decoder/mod.rs", "protos/src/decoder/primitives.rs", "protos/src/decoder/lit.rs"
PE, PEP, PEL = "protos/src/encoder/mod.rs", "protos/src/encoder/primitives.rs", "protos/src/encoder/lit.rs"
TABLE = ("dynamic table", "entries newest first, current size, maximum size", HDY)

p("C01", "HPACK connections deliver every header list exactly as sent",
  "When one endpoint encodes header lists and its peer decodes the resulting blocks in order, the peer obtains exactly the sent names and values, in the sent order, nothing lost, duplicated or altered, and every decode reports as many octets as the block contained and leaves its input empty. This holds for every mix of representations (indexed, indexed name, literal, automatic best format; plain or Huffman; indexed, not indexed, never indexed), for both directions at once, however the network cuts, delays or stalls the bytes, across table-size renegotiation at any moment, and again from a fresh state after every connection reset.",
  ["inputs", "schedules", "histories", "fault_sequences", "configurations"],
  "all header lists x all field representations x all table-size settings and times of change x all fragmentations, stalls and resets of the transport",
  "Unit tests run single fields through one side; the recorded stories only decode, unfragmented, and compare the first header of each case. No test pairs the shipped encoder with the shipped decoder over a history.",
  [HE, HD, HT, HDY, HEP, HDP], [("encode/decode representations", HE), ("decode loop", HD), ("shared index space", HT)], [TABLE],
  ["headers returned by the peer's decoder", "octet counts returned by decode", "remaining input buffer"])

p("C02", "Both ends' dynamic tables follow RFC 7541 in lockstep",
  "After any history of blocks and size updates, the encoder's table, the decoder's table and the public indexing table each hold exactly the entries RFC 7541 section 4 prescribes, newest first from index 62: eviction is strictly first-in first-out, the sum of name length + value length + 32 never exceeds the current maximum, an entry larger than the maximum empties the table, and the reported lengths and sizes match. Every index from 1 to the table's length resolves to the prescribed entry, index 0 and all larger ones to nothing, and searching for a field returns an exact match whenever one exists, else a name match, else nothing.",
  ["histories", "inputs", "schedules", "fault_sequences", "configurations"],
  "all interleavings of insertions, size reductions and enlargements, for all entry sizes and maximum sizes, on both ends of a connection with arbitrary fragmentation and resets",
  "Tests insert at most three entries and resize once; divergence needs particular sequences of exact-fit, oversize and resize steps.",
  [HT, HDY, HS, "hpack/src/table/iter.rs", HE, HD], [("insert/consolidate", HDY), ("index mapping and search", HT)], [TABLE],
  ["decoding of every index", "encoding of every index", "public table accessors"])

p("C03", "Header blocks may arrive in arbitrary pieces",
  "Feeding a header block to the decoder piece by piece, keeping what it leaves unconsumed and appending the next piece, yields exactly the fields, flags and decoder state of decoding the block at once. While the last field is incomplete every attempt reports the documented not-enough-bytes error, has already delivered each complete field exactly once, leaves exactly the incomplete field's octets in the input, and changes nothing else, no matter how often it is retried or whether the rest ever arrives.",
  ["schedules", "fault_sequences", "inputs", "crash_points"],
  "all cut points (including inside integers, string lengths and string bodies), all numbers of pieces, retries and abandonments, over all valid blocks and table states",
  "One test cuts one block at one place; in particular no test cuts inside an integer or directly before a string.",
  [HD, HDP], [("field-by-field consumption", HD), ("underflow detection", HDP)], [TABLE],
  ["decode result", "remaining input", "output vector", "decoder table"])

p("C04", "A damaged header block fails cleanly",
  "When octets of a header block are damaged, lost, inserted or duplicated, decoding delivers exactly the fields an RFC 7541 decoder would deliver before the first malformed one and then reports a documented error that fits the damage (bad index, bad Huffman data, integer longer than five octets, size above the limit, not enough bytes). The malformed field leaves no trace: it adds nothing to the output or the table and consumes none of its octets, repeating the attempt gives the same result, and well-formed blocks decode correctly afterwards.",
  ["fault_sequences", "inputs", "histories"],
  "all corruptions (bit flips, overwrites, truncations, insertions, duplications) of all blocks at all positions in all table states",
  "Tests contain one failing block, and it is a plain truncation; no test checks an error kind or the state after it.",
  [HD, HDP, FR], [("error returns before state change", HD), ("integer/string checks", HDP), ("Huffman verdict", FR)], [TABLE],
  ["error kind", "remaining input", "output vector", "later blocks"])

p("C05", "Table-size negotiation is enforced",
  "A decoder accepts a size update exactly when the announced size is at most the limit set by its user at that moment, otherwise it reports an invalid-size error and keeps its table; raising or lowering the limit alone never changes the table. An accepted update, and an update issued by an encoder, takes effect at once on both ends (evicting oldest entries first until the rest fits, never more), the encoder announces exactly the size it adopted, and the size and limit reported by encoder and decoder are the ones last adopted and set.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "all sequences of limit changes, updates (legal and illegal, including the boundary values) and insertions, with settings and acknowledgements delayed and reordered against blocks in flight as HTTP/2 allows",
  "One test sends one legal update; no test sends an illegal one, changes the limit of a live decoder, or reads the limit back.",
  [HD, HE, HDY], [("size update handling", HD), ("update_max_dynamic_size", HE), ("eviction", HDY)],
  [("limit", "protocol limit set by the user", HD), TABLE],
  ["error kind", "size/limit getters", "table contents on both ends"])

p("C06", "Sensitive fields stay never-indexed across every hop",
  "A field sent with the never-indexed flag is represented on the wire as a never-indexed literal whatever else the sender requests about encoding (automatic best format, indexed or literal name, Huffman) and whatever the tables contain, is reported with exactly the never-indexed flag by the decoder, and never enters a dynamic table on either side. Intermediaries that re-encode fields with the flags they decoded therefore preserve it across any number of hops, and no field that was not sent so is ever reported as sensitive.",
  ["histories", "inputs", "schedules", "fault_sequences"],
  "all chains of intermediaries, all table contents (including a table that already holds the same name and value), all flag combinations other than contradictory requests to index, all resets and re-encodings in between",
  "Tests encode one never-indexed literal into an empty table; leaking needs a table that already contains the pair plus the best-format flag, or several hops.",
  [HE, HD], [("representation choice by flag", HE), ("flag reported by decoder", HD)], [TABLE],
  ["wire octets", "decoded flags", "tables of all hops"])

p("C07", "Encoder output is valid HPACK in the requested form",
  "Every octet sequence the encoder produces over a connection is decoded by an independent RFC 7541 decoder to exactly the fields given to it, in the requested representation (indexed, indexed name or literal name; with, without or never indexing; plain or Huffman per string), appended after whatever the output already held. With the best-format flag it uses an index for a field the tables hold and an indexed name when they hold only the name, and the index always denotes what an RFC 7541 peer holds at that moment.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all field sequences, flag combinations, index choices, size changes and resets; all string lengths around the prefix-integer boundaries; all octet values in names and values",
  "Tests compare a handful of fixed encodings from a nearly empty table.",
  [HE, HEP, FE, "huffman/src/encoder/table.rs", HT, HS], [("encode", HE), ("integer and string primitives", HEP), ("Huffman code table", "huffman/src/encoder/table.rs")], [TABLE],
  ["octets written", "reference decoder's fields and representations"])

p("C08", "Decoder reads every conforming peer",
  "Whatever a conforming HPACK encoder chooses (any representation, any mix of plain and Huffman strings, integers with redundant octets up to five, indexing or not, legal size updates, duplicates in the table), the decoder returns exactly the fields that encoder meant with the flags of the representation used, delivered in any fragmentation. This includes the recorded sessions of third-party encoders, in full and with every header compared.",
  ["inputs", "histories", "schedules", "configurations", "fault_sequences"],
  "all conforming encoder behaviours and table sizes, all fragmentations, resets between sessions, and the recorded third-party sessions",
  "The story test compares only the first header of each case and feeds whole blocks; unit tests use seven hand-made blocks.",
  [HD, HDP, HS, FR] + FT, [("decode", HD), ("decode_integer/decode_string", HDP), ("Huffman tables", "huffman/src/decoder/table5.rs")], [TABLE],
  ["decoded fields and flags", "decoder table"])

p("C09", "A rejected encode leaves the connection intact",
  "Asking the encoder for an index that is 0 or beyond its table, at any point of a connection, is answered with the invalid-index error and changes neither the output nor any table, while every index inside the table is accepted. Fields encoded afterwards still reach the peer unaltered.",
  ["histories", "schedules", "inputs"],
  "all interleavings of tasks that hold index handles while other tasks insert, evict and resize; all indices up to the largest 32-bit value",
  "One test asks for one bad index on a fresh encoder; handles that become stale through eviction or resizing are not covered.",
  [HE, HT], [("index check before any write", HE)], [TABLE],
  ["result", "output vector", "peer's decoded fields", "table contents"])

p("C10", "HPACK decoding of hostile input is bounded and never panics",
  "For any octets from the network, in any pieces and after any history, decoding returns in bounded time with success or an error: it never panics, aborts or loops. Memory used during a call stays proportional to the octets given plus the fields returned, and memory retained between calls stays proportional to the table size limit, whatever lengths and sizes the input announces.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "all octet strings and mutations of valid blocks, all fragmentations, all size limits, all call histories",
  "Tests decode only well-formed blocks and one truncated one; no test measures memory or feeds garbage.",
  [HD, HDP, HDY, FR], [("length checks before copying", HDP), ("five-octet integer limit", HDP), ("eviction", HDY)], [TABLE],
  ["panics", "allocator high-water mark", "retained allocation", "CPU time"])

p("C11", "Sessions are isolated under every interleaving and thread",
  "Any number of encoders and decoders (HPACK, Huffman, Protocol Buffers) used side by side, interleaved call by call or pre-empted inside calls, and moved between threads, behave each exactly as if it were alone in the process.",
  ["schedules", "histories"],
  "all interleavings of independent sessions over one or several threads, including pre-emption inside a call at any allocation or output write",
  "Tests use one object at a time on one thread; shared or thread-local state would not be noticed.",
  [HE, HD, HT, FR, PE, PD], [("no shared mutable state", "hpack/src/table/mod.rs"), ("per-call reader", FR), ("per-decoder state", PD)], [],
  ["transcript of each session compared with its solo run"])

p("C12", "Huffman receivers agree on every literal, intact or damaged",
  "For any octets, receivers using any of the five decoding speeds reach the same verdict, and it is the RFC 7541 section 5.2 one: accepted exactly when the octets are whole symbols followed by fewer than eight one-bits, rejected when the padding is longer or not all ones or when the end-of-string code occurs; accepted octets give the same text everywhere. An undamaged literal produced by the encoder therefore decodes to its original everywhere, and a damaged one is never accepted by some receivers only.",
  ["fault_sequences", "inputs", "configurations"],
  "all literals over all octet values and all bit flips, torn tails, lost, doubled and overwritten octets, at all five speeds",
  "Tests decode each single character and a few strings at each speed; state transitions for combinations of characters and damaged padding are untested.",
  [FD, FR, FE] + FT, [("table walk", FR), ("padding validation", FR), ("transition tables", "huffman/src/decoder/table5.rs")], [],
  ["verdict and text of five receivers and of a bit-by-bit reference"])

p("C13", "Protocol Buffers streams may arrive in arbitrary pieces",
  "Feeding an encoded stream to one decoder in any pieces, retaining what it leaves in the input and appending the next piece, yields exactly the fields (tag, wire type, value octets) of the whole stream, each exactly once and in order, independent of where the cuts fall, including cuts inside keys, lengths and values and empty or repeated attempts without new data.",
  ["schedules", "inputs", "fault_sequences"],
  "all streams of well-formed fields (all wire types, empty values, all tags, unknown fields) and all cut positions, stalls and spurious wake-ups",
  "One test decodes a truncated stream once; no test resumes a stream.",
  [PD, PDP], [("resumable state between calls", PD)], [("pending key and length", "element read but value not complete", PD)],
  ["fields delivered", "remaining input"])

p("C14", "Protocol Buffers decoding is prompt and accounts for every octet",
  "Each call delivers every field whose last octet has arrived, without waiting for later data, and returns exactly the number of octets it removed from the front of the input; the rest stays in the input unaltered. Summed over a stream, returned sizes plus remaining octets equal the octets fed.",
  ["schedules", "inputs", "fault_sequences"],
  "all streams including empty and zero-length values, all delivery schedules, any number of fields per call",
  "Tests check the returned size of two fixed buffers; zero-length values followed by more fields are untested.",
  [PD, PDP], [("decode loop and size totals", PD)], [("pending key and length", "element read but value not complete", PD)],
  ["returned sizes", "remaining input", "fields after each call"])

p("C15", "A damaged Protocol Buffers stream fails at the damage, not before",
  "When a stream is damaged so that a key is malformed (tag 0, unknown wire type, more than 32 bits) or an integer runs past ten octets, the decoder delivers every complete field before the damage, reports the invalid-input error, and consumes nothing from the malformed element on. Repeating the call reports the error again and delivers nothing more, and damage that leaves the stream well-formed is decoded as the octets now say.",
  ["fault_sequences", "inputs", "schedules"],
  "all bit flips, overwrites, losses, insertions and duplications at all positions, with all fragmentations",
  "Two tests decode one malformed key each; over-long integers and damage after good fields are untested.",
  [PD, PDP], [("key validation", PDP), ("varint limits", PDP)], [("pending key and length", "element read but value not complete", PD)],
  ["error kind", "fields delivered", "remaining input"])

p("C16", "Protocol Buffers encoding is exact over faulty writers",
  "Whatever the writer does (accepting few octets at a time or parts of several buffers, being interrupted, failing or panicking at any point, encoding other fields from within its own write), an encode that reports success has written exactly the field's encoding to it and returned its length, and an encode that reports failure has written a proper prefix of it. Short and interrupted writes alone never fail an encode, a writer failure is always reported as an error, nothing is written after it, and later encodes are none the worse for it.",
  ["fault_sequences", "inputs", "schedules"],
  "all literal kinds and values, all patterns of short, interrupted, zero-length, vectored, re-entrant, failing and panicking writes at every write call, also many in a row",
  "Tests only encode into memory, which never fails or writes short.",
  [PE, PEP], [("write_all and size totals", PEP)], [],
  ["octets accepted by the writer", "result", "write calls after a failure"])

p("C17", "A log of encoded records survives crashes and failed encodes",
  "A log to which records are appended through the encoder and whose torn tail is cut at the last whole record after a crash always replays, through the decoder and in any read sizes, every acknowledged record exactly once in order followed at most by unacknowledged ones, and never a record that was not written. An encode with an invalid tag is refused with the invalid-tag error before anything is written, exactly when the tag is 0 or above 536870911, so it can never damage the log.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "all crash points (also inside a record), torn and lost unsynced writes, full disks, failed and retried appends, repeated crashes during recovery, all tags",
  "Tests check one invalid tag into memory; no test stores, tears or re-reads a stream.",
  [PE, PEP, PD, PDP], [("tag check before write", PEP), ("pending state at end of input", PD)], [("pending key and length", "element read but value not complete", PD)],
  ["records replayed after restart", "log octets after a refused encode"])

p("C18", "Typed values survive the whole path unchanged",
  "Every value of every supported type (all integer, floating point, boolean, string, bytes and packed repeated kinds, and messages nested in bytes) encoded to a faulty writer, forwarded by relays that decode and re-encode untyped fields, delivered in pieces, decoded and converted back with the same kind is bit-for-bit the original, including NaN payloads, negative zero and extreme values. The octets are those of the Protocol Buffers wire format, so an independent implementation reads and writes them identically.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all values of all kinds, all tags, nesting, sequences of fields, all delivery schedules and relay chains",
  "Tests round-trip a few values per kind in one buffer and never compose encoder and decoder over a stream.",
  [PE, PEP, PEL, PD, PDP, PDL, "protos/src/typ.rs"], [("encode_* and decode_* pairs", PEP), ("typed conversions", PDL)], [],
  ["typed values at the far end", "wire octets against an independent encoder"])

p("C19", "Protocol Buffers decoding of hostile input is bounded, never panics",
  "For any octets in any pieces, decoding returns in bounded time with success or an error and never panics, aborts or loops; memory used stays proportional to the octets actually received, however large a length the input announces, what a decoder retains between calls does not grow with what it has already delivered, and a field of announced length is pending until exactly that many octets have come. Converting any delivered octets to any typed value of any kind never panics and uses memory proportional to them.",
  ["inputs", "fault_sequences", "schedules"],
  "all octet strings and mutations, announced lengths up to 64 bits, all fragmentations, all conversion kinds applied to all octets",
  "Tests decode well-formed input and two malformed keys; no test announces a large length, over-long integers or converts mismatching octets.",
  [PD, PDP, PDL], [("length check before copy", PDP), ("varint limits", PDP), ("defaulting conversions", PDL)], [("pending length", "announced length of the current field", PD)],
  ["panics", "allocator high-water mark", "retained allocation", "CPU time", "fields delivered"])

p("C20", "Paced decoding returns at most what was asked and loses nothing",
  "A consumer that pulls header fields in batches, with an empty output of any capacity per pull, receives at most that many fields per pull and, over all pulls, exactly the block's fields in order with the same table state and total octet count as decoding at once. A pull that returns fewer fields than asked has either run out of complete input or spent the difference on table-size updates, and a pull of capacity zero changes nothing.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all batch sizes and pull schedules interleaved with arrivals of further pieces, all blocks including ones with size updates",
  "One test pulls one of two indexed fields.",
  [HD], [("capacity-limited loop", HD)], [TABLE],
  ["fields per pull", "remaining input", "octet counts", "table"])

p("C21", "Huffman code construction is canonical",
  "The decoding tables of every speed are exactly the ones the flattener derives from the code table, and parsing them back yields the same codes.",
  ["inputs"], "all table entries of all five speeds (a finite, fixed set)",
  "Tests flatten small sample trees; the shipped tables are not compared with the generator.",
  ["huffman/src/flattener/mod.rs", "huffman/src/parser/mod.rs"] + FT, [("flatten", "huffman/src/flattener/mod.rs"), ("parse", "huffman/src/parser/mod.rs")])

p("C22", "Values survive rolling upgrades between compatible kinds",
  "Services at different schema versions that declare a field with different kinds sharing one encoding (int32, int64, uint32, uint64 and bool; sint32 and sint64; fixed32 and sfixed32; fixed64 and sfixed64; bytes and string; and the packed lists of these) read each other's values as Protocol Buffers defines: a value both kinds can hold is unchanged, and any other is truncated or reinterpreted exactly like a cast (a bool is true for every value but zero; of an sint64 too wide for sint32 the low 32 bits of the varint are kept, then the zigzag is undone). Through any chain of services that decode and re-encode typed values or forward fields untyped, restarted, upgraded or rolled back at any moment, each value read is the composition of those casts.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all values of all kinds, all orders of upgrades, rollbacks, restarts and re-reads, chains of any length, faulty writers, all segmentations",
  "Tests convert a value back with the kind it was written with; no test reads a value as another kind.",
  [PE, PEP, PEL, PD, PDP, PDL, "protos/src/typ.rs"], [("encode_* and decode_* pairs", PEP), ("typed conversions", PDL)], [],
  ["typed values at every hop", "wire octets of untyped forwarding"])

p("C23", "Replaying a connection's record rebuilds either endpoint",
  "An HPACK encoder is determined by the calls made on it and a decoder by the octets and limits given to it: a standby that replays the record, at its own pace, into other outputs, with the octets cut or pulled in any other way and refused calls repeated or left out, writes exactly the recorded octets, delivers exactly the recorded fields and holds the same waiting input. It can take over at any moment, in the middle of a field included, and the peer notices nothing.",
  ["histories", "schedules", "crash_points", "inputs"],
  "all records of calls, resizes, refusals and limits, all takeover and crash points of primaries and standbys, all segmentations and pull sizes of the replay",
  "Tests never run the same history on two instances and never replace an endpoint.",
  [HE, HD, HT], [("encode and its representations", HE), ("decode and decode_exact", HD)], [TABLE],
  ["octets written by the replay", "fields and input of the replaying decoder", "everything after a takeover"])

p("C24", "A connection's memory follows its tables, at both ends",
  "However long an HPACK connection lives and whatever it does (floods of fields, refused calls, unreadable blocks, fields larger than the table, resizes to nothing and back), either end keeps memory in proportion to its dynamic table's present octets and the entries it held at once, and gives back what is evicted. One call uses memory in proportion to what it takes and gives; nothing accumulates with the number of calls, failures or connections, also in Protocol Buffers encoding to failing writers and decoding of unfinished or broken messages.",
  ["histories", "fault_sequences", "inputs", "schedules"],
  "all histories of calls, failures, evictions and resizes of any length, any number of connections ended in any way",
  "Tests make a handful of calls per instance and measure no memory.",
  [HE, HD, HDY, PE, PEP, PD], [("eviction", HDY), ("size update", HDY)], [TABLE],
  ["bytes kept per end after every phase", "peak allocation per call", "bytes left after closing"])

p("C25", "What the codecs do depends on the calls made and nothing else",
  "The same calls in the same order give the same results, errors and octets in every process, at any time and on any thread (HPACK encoders, decoders and tables, Huffman, Protocol Buffers): nothing depends on what clocks show or how fast they run or jump, on random numbers, on memory addresses or leftover memory contents, on what the process or thread did before, on environment variables or the working directory, on files being available, on the processors of the machine, on the process or user, or on a call being made by a destructor while its thread unwinds.",
  ["configurations", "histories", "schedules", "fault_sequences"],
  "all sequences of calls on any codec, replayed under any clock behaviour, random source, memory layout and contents, process history, threads and environment",
  "Tests run once per process in one environment, within milliseconds; no test repeats a sequence elsewhere and compares.",
  [HE, HD, HT, FR, PE, PD], [("state only in the instance", "hpack/src/table/mod.rs"), ("per-call reader", FR), ("per-decoder state", PD)], [],
  ["transcript of results and octets in two worlds"])

p("C26", "Nodes with Huffman tables they generated read what the shipped ones read",
  "A receiver that walks the table which flatten() derives for a speed from the library's code table, or from the printed code through parse(), over octets arriving in any pieces, reaches for every literal, intact or damaged, the verdict and text of the shipped decoder of any speed; for any other complete prefix code (2 to 257 symbols of 1 to 30 bits) such receivers of all speeds read exactly the symbols written, and parse() returns exactly the code that was printed. This holds however often tables are generated anew, across crashes, upgrades to other speeds and other sources of tables.",
  ["inputs", "configurations", "histories", "fault_sequences", "schedules"],
  "all prefix codes x five speeds x three origins of tables x all literals and damages x all cuts, crashes and upgrades of a fleet",
  "Tests flatten one code of three symbols and parse a few lines; no table that was generated is ever used to decode, and no two nodes with tables of different origin meet.",
  ["huffman/src/flattener/mod.rs", "huffman/src/parser/mod.rs", "huffman/src/encoder/table.rs", FD, FR] + FT,
  [("paths of a code through states", "huffman/src/flattener/mod.rs"), ("lines of the printed code", "huffman/src/parser/mod.rs"), ("table walk", FR)], [],
  ["text and verdict at every node", "parsed codes"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
