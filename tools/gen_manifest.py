#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks.py and the notes below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import PROPS
NOTE = {
    "C01": "Seeded simulation of interleaved, fragmented streams against an independent FIPS 180-4 model, with totals and single fragments past 2^32 bytes. Sampled, not exhaustive.",
    "C02": "Seeded simulation of interleaved, fragmented streams against an independent FIPS 202 model, single fragments past 2^32 bytes, 32 SHAKE output lengths. Sampled, not exhaustive.",
    "C03": "Seeded simulation of fragmented streams, seeds and mid-stream digest reads against an independent xxHash model, totals past 2^32 bytes. Sampled, not exhaustive.",
    "C04": "Copies, moves, byte copies, forks and deaths at memory-access granularity inside update, final and copying; every survivor is continued to its exact digest. Sampled, not exhaustive.",
    "C05": "Real threads under a baton scheduler preempted at every memory access of library code (compiler-inserted callbacks); every result is compared with the one predicted for the task alone. Sequentially consistent memory; sampled, not exhaustive.",
    "C06": "The heap refuses and counts every request of library code while 2-4 tasks run all operations that must not allocate, in four builds. A path that allocates only for inputs never drawn would be missed.",
    "C07": "Single, patterned and persistent allocation failures in to_string and std::format of every digest type, encoding and character type, with leak accounting and a repetition after recovery. Sampled, not exhaustive.",
    "C08": "Printing and formatting into a simulated sink that errors, throws, fills up, lies, fails on flush and recovers; delivered text, stream state and exceptions are checked after every call. Sampled, not exhaustive.",
    "C09": "Interleaved, copied, abandoned and restarted traversals of every encoding over sized, unsized and stream sources that end or throw anywhere, against an RFC 4648 style model. Sampled, not exhaustive.",
    "C10": "Store and verify cycles with bit flips, torn, lost, stale and misplaced records against byte-wise comparison; orders, slices and SHAKE lengths included. Sampled, not exhaustive.",
    "C11": "The tool's real main() in a process of its own behind simulated system calls, standard streams and clock; files up to 4 GiB. Truncation of a mapped file (SIGBUS) is outside the property.",
    "C12": "Seeded simulation with inaccessible guard pages at either end of every buffer, read-only inputs, buffers unmapped after each call, canaries and seeded garbage in all other memory. In the fenced part every single access of library code during a call is checked against the fragment, output and object of that call. Sampled, not exhaustive.",
    "C13": "The C01-C04 stream simulation and the C07-C10 and C12 text, sink, view and storage simulations, compiled against the single header, plus its self-containedness. Sampled, not exhaustive.",
    "C14": "Interleaved, copied, abandoned and restarted traversals of chunk views over sized, unsized and stream sources that end or throw anywhere, for 9 element types and up to 64-bit chunks, against a bit-by-bit model. Sampled, not exhaustive.",
    "C15": "Work of every operation counted (basic blocks and memory accesses of library code, bytes of memcpy and the like) over random histories of streams, digests, views and traversals with deaths, refused allocations and failing sinks and sources in between, against limits linear in the operation's own input, about ten times what the library needs. Sampled, not exhaustive; constant factors below the limits are not seen.",
    "C21": "Names of encodings damaged on the way in eleven ways, in five character types, as ranges, views and streams that throw, selected and used later or used in replacement fields, against the table in the documentation. Sampled, not exhaustive.",
}
NA = {
    "C20": "Compile-time evaluation is a pure function inside the compiler: no schedule, clock, fault or interleaving exists for a simulator to control.",
    "C22": "A property of what the compiler accepts: there is no execution to simulate.",
}
TECH = "deterministic simulation with fault injection (seeded schedules and faults against a reference model)"
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    if d["id"] in PROPS:
        checks.append({"property": d["id"], "quick_cmd": "python3 check.py " + d["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + d["id"],
                       "evidence_file": "evidence/%s.json" % d["id"], "technique": TECH, "level": "exploration", "level_note": NOTE[d["id"]]})
    else:
        NA.setdefault(d["id"], "Check under construction.")
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: every source of nondeterminism already has a seam (callers' buffers, sinks, iterators, the allocator, libc symbols of checksum.o, compiler-inserted memory-access callbacks as yield points). Replay: python3 check.py <id> --replay <file>."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
