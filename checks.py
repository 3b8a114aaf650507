"""What is built and run for each property."""

W = ["-std=c++23", "-w"]
VARIANTS = {
    "plain": {"flags": W + ["-O2"]},
    "O2": {"flags": W + ["-O2"]},
    "O2-ndebug": {"flags": W + ["-O2", "-DNDEBUG"]},
    "O3-native": {"flags": W + ["-O3", "-march=native", "-DNDEBUG"]},
    "O0": {"flags": W + ["-O0"]},
    "clang-O2": {"cxx": "clang++", "flags": W + ["-O2", "-stdlib=libstdc++"]},
    # memory accesses call back into the simulator (hooks.cpp); linked without the sanitizer's run time
    "hooked": {"flags": W + ["-O2", "-fsanitize=thread"]},
    "hooked-O1": {"flags": W + ["-O1", "-fsanitize=thread", "-DNDEBUG"]},
    # every access, and every memcpy and the like, reports its address: memory around buffers can be forbidden
    "fenced": {"flags": W + ["-O1", "-fsanitize=thread", "-fno-tree-vectorize", "-U_FORTIFY_SOURCE", "-mstringop-strategy=libcall"],
               "post": ["objcopy"] + [a for f in ("memcpy", "memmove", "memset", "memcmp") for a in ("--redefine-sym", "%s=sim_%s" % (f, f))] + ["@OBJ@"]},
    # as above, and every basic block counts: work that touches no memory is seen, too
    "counted": {"flags": W + ["-O1", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-fno-tree-vectorize", "-U_FORTIFY_SOURCE", "-mstringop-strategy=libcall"],
                "post": ["objcopy"] + [a for f in ("memcpy", "memmove", "memset", "memcmp") for a in ("--redefine-sym", "%s=sim_%s" % (f, f))] + ["@OBJ@"]},
    "asan": {"flags": W + ["-O1", "-g"]},
}

CORE = [{"src": "core.cpp", "lib": False}, {"src": "ref.cpp", "lib": False}]


def alg(*groups, flags=()):
    cost = {1: 12, 2: 12, 3: 13, 4: 10, 5: 6, 6: 7}
    return [{"src": "alg_impl.cpp", "flags": ["-DALG_GROUP=%d" % g, *flags], "cost": cost[g]} for g in groups]


HEAP = [{"src": "heap.cpp", "lib": False, "flags": ["-fno-builtin"]}]
HOOKS = [{"src": "hooks.cpp", "lib": False}]


def text(*groups, flags=()):
    return [{"src": "text_impl.cpp", "flags": ["-DTEXT_GROUP=%d" % g, *flags], "cost": 20} for g in groups]


STREAM = [{"src": "stream.cpp", "lib": False, "cost": 5}]

BINARIES = {
    "stream_sha2": {"units": CORE + STREAM + alg(1, 2, 3)},
    "stream_sha3": {"units": CORE + STREAM + alg(4, 5)},
    "stream_xxh": {"units": CORE + STREAM + alg(6)},
    "stream_all": {"units": CORE + STREAM + alg(1, 2, 3, 4, 5, 6, flags=("-DFEW_T",))},
    "stream_hooked": {"units": CORE + STREAM + HOOKS + alg(1, 2, 3, 4, 5, 6, flags=("-DFEW_T",))},
    "conc": {"units": CORE + HOOKS + HEAP + [{"src": "conc.cpp", "lib": False, "cost": 6}] + alg(1, 2, 3, 4, 5, 6, flags=("-DFEW_T",)) + text(1, 2, 3, 4, 5, 6, 7, 8, 9, flags=("-DFEW_VIEWS",))},
    "fault": {"units": CORE + HOOKS + HEAP + [{"src": "fault.cpp", "lib": False, "cost": 6}] + alg(1, 2, 3, 4, 5, 6, flags=("-DFEW_T",)) + text(1, 2, 3, 4, 5, 6, 7, 8, 9)},
    "tool": {"units": CORE + [{"src": "tool.cpp", "lib": False, "cost": 5}, {"src": "toolseam.cpp", "lib": False, "flags": ["-U_FORTIFY_SOURCE"], "cost": 3},
                              {"src": "@REPO@/checksum.cpp", "flags": ["-U_FORTIFY_SOURCE"], "cost": 15, "post": ["objcopy", "--redefine-sym", "main=tool_main", "@OBJ@"]}]},
    "chunk": {"units": CORE + [{"src": "chunk.cpp", "lib": False, "cost": 5}] + [{"src": "chunk_impl.cpp", "flags": ["-DCHUNK_GROUP=%d" % g], "cost": 14} for g in range(5)]},
    "cost": {"units": CORE + HOOKS + HEAP + [{"src": "cost.cpp", "lib": False, "cost": 5}] + alg(1, 2, 3, 4, 5, 6, flags=("-DFEW_T",)) + text(1, 2, 3, 4, 5, 6, 7, 8, 9)},
    "fault_single": {"units": CORE + HOOKS + HEAP + [{"src": "fault.cpp", "lib": False, "cost": 6}] + alg(1, 2, 3, 4, 5, 6, flags=("-DSIM_SINGLE", "-DFEW_T")) + text(1, 2, 3, 4, 5, 6, 7, 8, 9, flags=("-DSIM_SINGLE",))},
    "conc_single": {"units": CORE + HOOKS + HEAP + [{"src": "conc.cpp", "lib": False, "cost": 6}] + alg(1, 2, 3, 4, 5, 6, flags=("-DSIM_SINGLE", "-DFEW_T")) + text(1, 2, 3, 4, 5, 6, 7, 8, 9, flags=("-DSIM_SINGLE", "-DFEW_VIEWS"))},
    "chunk_single": {"units": CORE + [{"src": "chunk.cpp", "lib": False, "cost": 5}] + [{"src": "chunk_impl.cpp", "flags": ["-DSIM_SINGLE", "-DCHUNK_GROUP=%d" % g], "cost": 14} for g in range(5)]},
    "cost_single": {"units": CORE + HOOKS + HEAP + [{"src": "cost.cpp", "lib": False, "cost": 5}] + alg(1, 2, 3, 4, 5, 6, flags=("-DSIM_SINGLE", "-DFEW_T")) + text(1, 2, 3, 4, 5, 6, 7, 8, 9, flags=("-DSIM_SINGLE", "-DFEW_VIEWS"))},
    "stream_single_hooked": {"units": CORE + STREAM + HOOKS + alg(1, 2, 3, 4, 5, 6, flags=("-DSIM_SINGLE", "-DFEW_T"))},
    "stream_single": {"units": CORE + STREAM + alg(1, 2, 3, 4, 5, 6, flags=("-DSIM_SINGLE", "-DFEW_T"))},
}

REAL_LIB = "all of the library's headers in /repo/include, compiled from the working tree"
STUBS = ["the senders, the network that fragments and interleaves the streams, the memory the objects and buffers live in (simulated)"]
TRUST = ["the reference models in /verif/sim/ref.cpp (written from the standards, compared with OpenSSL and libxxhash by tools/ref_selftest.py) are right",
         "the compilers installed here; x86-64 little endian",
         "seeded search samples the space of schedules and faults: a clean run is evidence, not proof"]
STREAM_RULE = ("a run = one plan drawn from the seed: up to 8 concurrent streams, fragment sizes biased to block edges, entry types, buffer reuse, copies, moves, digest reads; "
               "non-trivial: at least 3 recorded events; distinct: different hash of the whole event log (operations, sizes, digests)")
STREAM_STATES = "(algorithm, operation, bytes in the open block, blocks so far 0..3+, fragment class) tuples reached"

Q2 = {"quick": ["O2", "O2-ndebug"], "thorough": ["O2", "O2-ndebug", "O3-native", "clang-O2", "O0"]}
LONG = {"quick": ["O2-ndebug"], "thorough": ["O2-ndebug", "O2", "clang-O2"]}


def stream(scenario, binary, quick, thorough, **kw):
    return dict(scenario=scenario, binary=binary, variants=Q2, runs={"quick": quick, "thorough": thorough}, determinism=4000, **kw)


def mid(scenario, binary, quick, thorough):
    return dict(scenario=scenario, binary=binary, variants=LONG, runs={"quick": quick, "thorough": thorough}, fixed=True, wall={"quick": 200, "thorough": 3000})


def long(scenario, binary, quick, thorough):
    return dict(scenario=scenario, binary=binary, variants=LONG, runs={"quick": quick, "thorough": thorough}, fixed=True, wall={"quick": 500, "thorough": 3000})


NONTRIV = "non-trivial: at least 3 recorded events; distinct: different hash of the whole event log"


def fault(scenario, quick, thorough, binary="fault", variants=("O2", "O2-ndebug")):
    return dict(scenario=scenario, binary=binary, variants={"quick": list(variants), "thorough": ["O2", "O2-ndebug", "O0", "clang-O2"]}, runs={"quick": quick, "thorough": thorough}, determinism=4000)


PROPS = {
    "C01": dict(parts=[stream("C01", "stream_sha2", 200000, 4000000), mid("C01.mid", "stream_sha2", 400, 8000), long("C01.long", "stream_sha2", 10, 40)],
                rule=STREAM_RULE, states=STREAM_STATES, real=[REAL_LIB], stub=STUBS, assumptions=TRUST),
    "C02": dict(parts=[stream("C02", "stream_sha3", 150000, 4000000), mid("C02.mid", "stream_sha3", 150, 3000), long("C02.long", "stream_sha3", 12, 48)],
                rule=STREAM_RULE, states=STREAM_STATES, real=[REAL_LIB], stub=STUBS, assumptions=TRUST),
    "C03": dict(parts=[stream("C03", "stream_xxh", 800000, 16000000), mid("C03.mid", "stream_xxh", 1600, 40000), long("C03.long", "stream_xxh", 16, 120)],
                rule=STREAM_RULE, states=STREAM_STATES, real=[REAL_LIB], stub=STUBS, assumptions=TRUST),
    "C04": dict(parts=[dict(stream("C04", "stream_hooked", 150000, 2000000), variants={"quick": ["hooked", "hooked-O1"], "thorough": ["hooked", "hooked-O1"]}),
                       dict(stream("C04", "stream_all", 200000, 2000000), variants={"quick": ["O2-ndebug"], "thorough": ["O2-ndebug", "O3-native", "clang-O2", "O0"]}),
                       long("C04.long", "stream_all", 9, 36)],
                rule=STREAM_RULE + "; here with deaths in the middle of operations", states=STREAM_STATES, real=[REAL_LIB], stub=STUBS, assumptions=TRUST),
    "C05": dict(parts=[dict(scenario="C05", binary="conc", variants={"quick": ["hooked"], "thorough": ["hooked", "hooked-O1"]}, runs={"quick": 200000, "thorough": 6000000}, determinism=3000, det_batch=(1, 1))],
                rule="a run = 2 to 4 threads, their operations, and the places (memory accesses) where the scheduler takes control away, all drawn from the seed; non-trivial: at least 3 recorded events; distinct: different hash of the whole event log (switches with the operations they happened in, results)",
                states="(operation kind and algorithm of the preempted task, of the task that continues) reached",
                real=[REAL_LIB], stub=["the operating system's scheduler (the simulator decides at every memory access of library code which thread runs)", "callers, buffers, sinks"],
                assumptions=TRUST + ["accesses are sequentially consistent: reorderings by the processor are not simulated", "code of libstdc++ and libc outside of headers runs without preemption"]),
    "C06": dict(parts=[dict(scenario="C06", binary="conc", variants={"quick": ["hooked", "O2-ndebug"], "thorough": ["hooked", "O2-ndebug", "O0", "clang-O2"]}, runs={"quick": 300000, "thorough": 8000000}, determinism=3000)],
                rule="a run = operations of 2 to 4 simulated tasks drawn from the seed, the heap refusing every allocation from a drawn operation on, tasks preempted inside operations; every heap request of library code is seen; non-trivial: at least 3 recorded events; distinct: different hash of the whole event log",
                states="(operation kind and algorithm of the preempted task, of the task that continues) reached",
                real=[REAL_LIB], stub=["the heap as seen by library code (malloc family, and with it operator new)", "the scheduler, callers, buffers, sinks"],
                assumptions=TRUST),
    "C07": dict(parts=[fault("C07", 3000000, 60000000)],
                rule="a run = renderings of digests and views with a drawn set of failing allocations, each repeated with memory available; " + NONTRIV,
                states="(call, digest or view type, encoding, character type, allocations asked for, refused, outcome) reached",
                real=[REAL_LIB, "libstdc++ (string, format)"], stub=["the heap as seen by library code"], assumptions=TRUST),
    "C08": dict(parts=[fault("C08", 3000000, 60000000)],
                rule="a run = prints and formats to one simulated sink with drawn faults, recoveries, flushes and exception masks; " + NONTRIV,
                states="(call, encoding, sink buffering, fault kind, stream state, exception mask, characters delivered up to 40) reached",
                real=[REAL_LIB, "libstdc++ (ostream, format)"], stub=["the sink: stream buffer, device behind it, output iterator"], assumptions=TRUST),
    "C09": dict(parts=[fault("C09", 3000000, 60000000)],
                rule="a run = views and iterators created, advanced in drawn interleavings, copied, assigned, abandoned; stream sources cut into pieces, ended or failing anywhere; " + NONTRIV,
                states="(encoding and source kind, position modulo 17, source length modulo 8, distance to the end, iterators alive) reached",
                real=[REAL_LIB, "libstdc++ (ranges, istreambuf_iterator)"], stub=["the sources: byte sequences and stream buffer"], assumptions=TRUST),
    "C10": dict(parts=[fault("C10", 2000000, 40000000)],
                rule="a run = records (data and digest) stored, damaged by drawn storage faults, verified with the library; " + NONTRIV,
                states="(digest type, first differing byte, verdict, number of differing bits up to 3) reached",
                real=[REAL_LIB], stub=["the storage"], assumptions=TRUST),
    "C11": dict(parts=[dict(scenario="C11", binary="tool", variants={"quick": ["O2", "O2-ndebug"], "thorough": ["O2", "O2-ndebug", "O0", "clang-O2"]}, runs={"quick": 60000, "thorough": 1200000}, determinism=2000),
                       dict(scenario="C11.long", binary="tool", variants={"quick": ["O2"], "thorough": ["O2"]}, runs={"quick": 4, "thorough": 26}, fixed=True, wall={"quick": 400, "thorough": 3000})],
                rule="a run = one invocation of the tool in a process of its own with drawn file, arguments, system call faults, standard streams and clock; " + NONTRIV,
                states="(algorithm, standard output, standard error, path kind, arguments, faults that fired, size class) reached",
                real=["checksum.cpp and the library from the working tree", "libstdc++ and libc (iostreams, stdio)", "the kernel's files and pipes behind the seam"],
                stub=["open, lseek, stat, mmap, read, close, clock_gettime and relatives as the tool sees them", "the file's content, standard streams"],
                time="the tool's clock is simulated (it stands still, runs, jumps up to 95 years either way); ticks are counted in recorded events",
                assumptions=TRUST + ["another process changing the file while the tool reads it, other than by appending, is outside the property (disk errors under the mapping are injected)", "SIGPIPE and SIGXFSZ are ignored, so that a broken output is an error and not a signal"]),
    "C12": dict(parts=[stream("C12", "stream_all", 200000, 5000000), fault("C12.text", 1000000, 20000000),
                       dict(stream("C12.fences", "stream_hooked", 100000, 2000000), variants={"quick": ["fenced"], "thorough": ["fenced"]}),
                       dict(fault("C12.text", 500000, 10000000), variants={"quick": ["fenced"], "thorough": ["fenced"]})],
                rule=STREAM_RULE, states=STREAM_STATES, real=[REAL_LIB], stub=STUBS, assumptions=TRUST),
    "C13": dict(header_alone=True, parts=[stream("C13", "stream_single", 300000, 3000000), mid("C13.mid", "stream_single", 96, 2000), long("C13.long", "stream_single", 8, 40),
                                           *[fault(x, 300000, 10000000, "fault_single", ("O2",)) for x in ("C07", "C08", "C09", "C10", "C12.text", "C21")],
                                           fault("C14", 300000, 6000000, "chunk_single", ("O2",)),
                                           dict(stream("C04", "stream_single_hooked", 40000, 600000), variants={"quick": ["hooked"], "thorough": ["hooked", "hooked-O1"]}),
                                           dict(stream("C12.fences", "stream_single_hooked", 30000, 600000), variants={"quick": ["fenced"], "thorough": ["fenced"]}),
                                           *[dict(scenario=x, binary="conc_single", variants={"quick": ["hooked"], "thorough": ["hooked", "hooked-O1"]}, runs={"quick": 30000, "thorough": 1000000}, determinism=2000, **k) for x, k in (("C05", dict(det_batch=(1, 1))), ("C06", {}))],
                                           dict(scenario="C15", binary="cost_single", variants={"quick": ["counted"], "thorough": ["counted"]}, runs={"quick": 25000, "thorough": 1000000}, determinism=2000)],
                rule=STREAM_RULE, states=STREAM_STATES, real=["include/cthash-single-header.hpp from the working tree"], stub=STUBS, assumptions=TRUST),
    "C14": dict(parts=[fault("C14", 1000000, 20000000, "chunk")],
                rule="a run = chunk views over drawn elements, iterators advanced in drawn interleavings, copied, assigned, abandoned, restarted; single-pass sources that end or fail anywhere; " + NONTRIV,
                states="(element type, chunk width, padding and source, position modulo 16, distance to the end, iterators alive) reached",
                real=["chunk_of_bits and the bit buffer from the working tree", "libstdc++ (ranges)"], stub=["the sources: element sequences, single-pass iterators that fail"], assumptions=TRUST),
    "C15": dict(parts=[dict(scenario="C15", binary="cost", variants={"quick": ["counted"], "thorough": ["counted"]}, runs={"quick": 200000, "thorough": 6000000}, determinism=3000)],
                rule="a run = operations on hash objects, digests, views and traversals drawn from the seed, with deaths, failing heap, sinks and sources between them; the work of every operation is counted; " + NONTRIV,
                states="(operation, algorithm, digest type or encoding, size class of the input, whether it failed) reached",
                real=[REAL_LIB], stub=["the heap as seen by library code, sinks, sources", "the clock (work is counted in basic blocks and memory accesses, plus bytes of memcpy and the like)"],
                assumptions=TRUST + ["work inside libstdc++ and libc is not counted, except bytes of memcpy, memmove, memset, memcmp", "the limits are about ten times what the library needs today: only growth with something else than the operation's own input is found"]),
    "C21": dict(parts=[fault("C21", 2000000, 40000000)],
                rule="a run = names of encodings from outside, damaged by drawn faults, selected and used later or used in a replacement field; " + NONTRIV,
                states="(form, meaning, length of the name, kind of damage) reached",
                real=[REAL_LIB, "libstdc++ (format)"], stub=["the storage or channel the names come from"], assumptions=TRUST),
}
