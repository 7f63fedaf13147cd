#!/usr/bin/env python3
"""Writes MANIFEST.json and tools/rules.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = {
"common": "A case is generated from a seed: an object or several, a sequence of API operations with parameters, data (8 generators from constant to random), segmentations, faults, and a schedule configuration (random, PCT or round-robin scheduler with preemption at synchronisation operations, memory accesses or code sites, stalls, spurious wake-ups, clock speed and jumps). A run is non-trivial if it had at least 4 context switches, an injected failure, or finished a decode; distinct = distinct hash over the complete trace (all synchronisation operations, switches, allocations, return codes and outputs).",
"C01": "Workload: one-shot compressions with random parameters and 1-7 threads, output checked with liblzma.",
"C02": "Workload: streams fed in random pieces through both input interfaces, drained through both output interfaces, single or dual buffer, flushes, timeouts.",
"C03": "Workload: streams of liblzma and of this library decoded in random pieces with 1-6 threads, trailing bytes, separate property byte, empty calls, timeouts.",
"C04": "Workload: one-shot decodes with 2-5 threads and all kinds of capacity, compared with a fresh object and with one thread.",
"C05": "Workload: several flushes in a stream, prefix decoded with liblzma; single-threaded streaming decoder cut off at a chunk boundary.",
"C06": "Workload: compression and decompression streams with timeouts, random waits and retries, clock jumps, spurious wake-ups, stalls.",
"C07": "Workload: streams cancelled at random moments, then reused; output of the next operation compared with a fresh object.",
"C08": "Workload: decoding streams cancelled at random moments, buffers revoked, memory measured, then reused.",
"C09": "Workload: compression histories in which allocations, thread creations and the processor probe fail at random positions.",
"C10": "Workload: decompression histories in which allocations and thread creations fail at random positions.",
"C11": "Workload: hashed streams altered in 9 ways (bits, bytes, lost, duplicated and moved ranges, chunk headers, whole chunks, stored hash), decoded one-shot and streaming.",
"C12": "Workload: streams cut at random bytes or just before the end, decoded one-shot and streaming.",
"C13": "Workload: histories of compression operations (complete, abandoned, cancelled, out of space, failed allocation), then an operation compared with a fresh object.",
"C14": "Workload: histories of decoding operations (complete, abandoned, cancelled, corrupt, cut), compared call by call with a fresh object.",
"C15": "Workload: multi-threaded decoding with memory limits of 6-200 KB and histories; library allocations measured at every allocation.",
"C16": "Workload: parameter changes and calls at arbitrary moments of streams, calls on unopened streams, decoder calls while the previous one is running.",
"C17": "Workload: progress sampled at random moments of compression and decompression streams.",
"C18": "Workload: 2-4 caller threads each with its own objects, results compared with fresh objects.",
"C19": "Workload: streams and one-shot compressions under random schedules and segmentations, compared with one fixed schedule and segmentation.",
"C20": "Workload: partial copies and in-place reads of compressed output with the remaining size queried.",
"C21": "Workload: short operations, creations and destructions under adversarial schedules; deadlock, lost wake-up and step-bound detection.",
"C22": "Workload: objects freed or re-initialised at random moments of running work; leaks and stray accesses detected.",
"C24": "Workload: objects created with default and excessive thread counts by 1-4 callers with simulated processor descriptions, torn and failing reads.",
"C30": "Workload: new objects with random settings used for streams and one-shot calls, their allocations compared with the estimates; data that cannot be compressed at the bound of the unscaled library.",
"C31": "Workload: sizes found in streams of all kinds, cut at any byte, altered or complete.",
"C32": "Workload: histories of parameter changes and operations, cancelled or failed ones too, compared with a model of the parameters.",
"C23": "Workload: capacities of zero, around the exact size, random and at the bound, for one-shot compression and decompression, followed by reuse.",
}
NA = {}
LN = "Seeded search, not proof: no violation in the runs explored. Real library code (all C sources, instrumented; sizes scaled down by FL2_SIM_TUNING in two of three builds, one build unscaled) under a simulated scheduler, clock, heap and thread layer. Assumes sequentially consistent memory; the assembler decoder runs as atomic blocks. Every violation is replayed in fresh processes with the same trace hash and minimised."
if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
    json.dump(RULES, open(ROOT + "/tools/rules.json", "w"), indent=1)
    FAULTY = {"C09", "C10"}
    m = dict(version=1, setup_cmd="python3 check.py --build",
        hooks=dict(guard="FL2_SIM_TUNING", enable="sim/build.py compiles /repo's sources with -DFL2_SIM_TUNING=2 for the library 'small' (small windows, buffers and chunks) and -DFL2_SIM_TUNING for 'smallasm' (chunks of the original size) (library 'std' is built without it)",
                   source_commits=["2a41b81", "52d925e", "0e17f43"]),
        checks=[dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                     evidence_file="evidence/%s.json" % i, technique="deterministic simulation with fault injection (seeded schedules, faults and histories; %s)" % RULES[i].split("Workload: ")[1].split(",")[0].split(" (")[0].split(";")[0].rstrip("."),
                     level="exploration", level_note=LN) for i in ids if i not in NA],
        not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
        notes="See DESIGN.md. Replay a violation with: python3 check.py --replay replays/<file>")
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1); open(ROOT + "/MANIFEST.json", "a").write("\n")
