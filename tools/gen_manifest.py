#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
tech = {
 "C01": "seeded two-endpoint HPACK network simulation (segmentation, stalls, resets, renegotiation), history check of delivered fields",
 "C02": "seeded two-endpoint HPACK network simulation, lockstep refinement of both dynamic tables against an RFC 7541 model",
 "C03": "seeded segment delivery with retries and abandonment, refinement against a model and an at-once twin decoder",
 "C04": "seeded damage injection into header blocks, verdict and state compared with a reference decoder after every call",
 "C05": "seeded table-size negotiation with obeying, late and cheating peers, refinement against an RFC 7541 model",
 "C06": "seeded proxy chains with renegotiation and resets, never-indexed invariant on wire, tables and every hop",
 "C07": "seeded encoder schedules with resizes, resets and rejected operations, octets read back by an independent decoder",
 "C08": "seeded reference peer making every RFC 7541 choice and recorded sessions, delivered in seeded segments",
 "C09": "seeded interleaving of tasks with stale and invalid index handles, non-interference with encoder and peer",
 "C10": "seeded hostile peer under a measuring allocator with memory, time and panic invariants",
 "C11": "seeded pre-emptive scheduling of sessions on real threads (baton scheduler), compared with solo runs",
 "C12": "seeded broadcast of intact and damaged Huffman literals to receivers of all speeds, agreement against a reference",
 "C13": "seeded segment delivery of interleaved streams, history check of delivered fields",
 "C14": "seeded segment delivery, promptness and conservation of octets checked after every call",
 "C15": "seeded damage injection into streams, every call judged by a reference parser",
 "C16": "seeded faulty io::Write (short, vectored, interrupted, re-entrant, zero, failing, panicking), written octets against a reference writer",
 "C17": "seeded log on a simulated disk with crashes, torn writes and failing encodes, recovery checked against acknowledged records",
 "C18": "seeded end-to-end path of typed values through faulty writers, relays and segmentation, bit-for-bit comparison",
 "C19": "seeded hostile streams under a measuring allocator with memory, time and panic invariants",
 "C20": "seeded slow consumer pulling with outputs of seeded capacity while segments arrive, against a model and an at-once twin",
 "C23": "seeded crashes and takeovers by standby encoders and decoders replaying the recorded calls and octets, compared with the record",
 "C24": "seeded long and many short connection lives with refusals, damage, resizes and failing writers under a measuring allocator",
 "C25": "seeded call sequences executed in two processes whose clocks, randomness, memory, history, threads, machine and environment differ, results compared call by call",
 "C26": "seeded fleet of receivers with shipped and generated Huffman tables under damage, segmentation, crashes and rolling upgrades, agreement against a reference",
 "C22": "seeded rolling upgrades, rollbacks and crashes of a chain of typed services over faulty writers, values against composed casts",
}
note = ("Every run executes the real crates of /repo; one seed is one exactly repeatable run, a violation is minimised and "
        "re-executed from its replay file in a fresh process. Assurance is that of seeded search (counts, faults and states in the "
        "evidence file), not exhaustion. Trusted: the simulator and its reference model, written from the specification and from the library's documentation. ")
extra = {
 "C11": "Pre-emption points are call boundaries, allocations and output writes; weak memory orderings are not simulated.",
 "C10": "The bounds on memory are stated in the evidence; they are proportional with generous constants.",
 "C19": "The bounds on memory are stated in the evidence; they are proportional with generous constants.",
 "C25": "Clocks, random bytes, getenv, getpid, getuid, isatty and sched_getaffinity are interposed in the simulator's process; other system calls are not varied.",
 "C24": "The bounds on memory are stated in the evidence; they are proportional with generous constants.",
}
na = {
 "C21": "The code table, its flattener and the table parser are pure offline functions of constants: no schedule, time, I/O, fault or "
        "second party can influence whether they are equal, so there is nothing to simulate; the effect the tables have on communication is decided by C12 and, for generated tables, by C26.",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in na: continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": T + tech[i], "level": "exploration",
                   "level_note": (note + extra.get(i, "")).strip()})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "No hooks in /repo: the crates' own seams (byte buffers, io::Write, explicit call order, the global allocator) suffice. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
