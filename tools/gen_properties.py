#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
I = "include/cthash/"
p("C01", "SHA-2: however a stream is fragmented, the digest is the standard one",
  "For SHA-224, SHA-256, SHA-384, SHA-512 and SHA-512/t, feeding a byte stream in any sequence of fragments (any sizes, empty ones and ones above 4 GiB included, any accepted byte type or container, any buffer alignment, interleaved with work on other hash objects) and finalising yields exactly the FIPS 180-4 digest of the bytes delivered, wherever the stream ends. At every moment the object reports as its size exactly the number of bytes it has accepted.",
  ["histories", "inputs", "fault_sequences"],
  "all delivery histories of a stream: how short reads, empty reads, early ends and interleaving with other streams cut it into update calls, up to and beyond 2^32 bytes in total and in one call",
  "tests use a handful of fixed strings, mostly in one update call; the state between calls (block fill, total length, padding case) has a history per fragmentation",
  [I+"hasher.hpp", I+"sha2/common.hpp", I+"sha2/sha224.hpp", I+"sha2/sha256.hpp", I+"sha2/sha384.hpp", I+"sha2/sha512.hpp", I+"sha2/sha512/t.hpp", I+"internal/convert.hpp"],
  [("partial block buffering and direct block processing", I+"hasher.hpp: update_to_buffer_and_process"), ("padding and length block", I+"hasher.hpp: finalize_buffer, finalize")],
  [("partial block", "bytes accepted but not yet compressed", I+"hasher.hpp: block, block_used"), ("total length", "bytes accepted so far", I+"hasher.hpp: total_length")],
  ["update()", "size()", "final()", "simple()"])
p("C02", "SHA-3/SHAKE: however a stream is fragmented, the digest is the standard one",
  "For SHA3-224/256/384/512, SHAKE128 and SHAKE256, feeding a byte stream in any sequence of fragments (any sizes, empty ones and ones above 4 GiB included, any accepted byte type or container, any buffer alignment, interleaved with work on other hash objects) and finalising yields exactly the FIPS 202 output for the bytes delivered, wherever the stream ends. SHAKE gives exactly the requested number of output bits, for outputs shorter and longer than one sponge block.",
  ["histories", "inputs", "fault_sequences"],
  "all delivery histories of a stream, for every rate, and every whole-byte output length",
  "tests feed few fixed strings in one call and SHAKE outputs up to 2048 bits, mostly compared on a common prefix only; sponge position history is not explored",
  [I+"sha3/common.hpp", I+"sha3/keccak.hpp", I+"sha3/sha3-224.hpp", I+"sha3/sha3-256.hpp", I+"sha3/sha3-384.hpp", I+"sha3/sha3-512.hpp", I+"sha3/shake128.hpp", I+"sha3/shake256.hpp"],
  [("absorb with a position in the block", I+"sha3/common.hpp: basic_keccak_hasher::update, xor_overwrite_block"), ("padding", I+"sha3/common.hpp: xor_padding_block"), ("squeeze over several blocks", I+"sha3/common.hpp: squeeze")],
  [("sponge position", "offset in the current block", I+"sha3/common.hpp: position")],
  ["update()", "final()", "final<N>()", "simple()"])
p("C03", "xxHash: any fragmentation, any seed, digest readable at any moment",
  "For XXH32 and XXH64 with any seed, feeding a byte stream in any sequence of fragments (any sizes, empty ones and ones above 4 GiB included, interleaved with work on other hash objects) gives exactly the specified hash of the bytes delivered, and the one-shot form gives the same value. Reading the digest at any moment, any number of times, reports the digest of the bytes delivered so far and does not disturb the stream, which may continue.",
  ["histories", "inputs", "fault_sequences"],
  "all delivery histories, digest readings between any two deliveries, all seeds, totals below and above 2^32 bytes",
  "tests use fragments below 256 bytes and two seeds; before it was fixed, any streamed fragment of 256 bytes or more gave a wrong digest and every test passed",
  [I+"xxhash.hpp", I+"simple.hpp"],
  [("lane buffer and running length", I+"xxhash.hpp: xxhash::update"), ("non-consuming final", I+"xxhash.hpp: final() const, final_from"), ("one-shot path", I+"xxhash.hpp: update_and_final")],
  [("length", "bytes accepted, also selects the buffer position", I+"xxhash.hpp: length")],
  ["update()", "final()", "update_and_final()", "simple()"])
p("C04", "A copy of an in-progress hash is a complete, independent snapshot",
  "A copy of an in-progress hash object (by copy, by move, or byte for byte into other memory) taken at any point between two operations holds the whole progress of the stream. Continuing the original, the copy, or both with different data, or resuming from the copy after the original was lost in the middle of an operation, gives for each of them the digest of exactly the bytes that it logically received.",
  ["histories", "crash_points", "fault_sequences"],
  "all interleavings of snapshot, fork, relocation, loss in the middle of an update and resume, at every position of the block buffer",
  "no test copies a hash object after its first update",
  [I+"hasher.hpp", I+"sha3/common.hpp", I+"xxhash.hpp"],
  [("value semantics, defaulted copy and move", I+"hasher.hpp, "+I+"sha3/common.hpp, "+I+"xxhash.hpp")], [], ["copy/move construction", "final()"])
p("C05", "Concurrent tasks never influence each other's results",
  "When several tasks work at the same time on hash objects, digests and encodings of their own, or read the same unchanging digest, in-progress hash (copying it, or reading an xxHash digest) or encoded view, every operation of every task gives the result that it gives when the task runs alone, however the tasks are preempted or stalled in the middle of operations. An in-progress hash handed from one task to another between operations continues as if it had never moved.",
  ["schedules", "histories"],
  "all interleavings of 2 to 4 threads at the granularity of single memory accesses, across the whole public run-time API",
  "the tests are single threaded",
  [I+"hasher.hpp", I+"sha2/common.hpp", I+"sha3/common.hpp", I+"sha3/keccak.hpp", I+"xxhash.hpp", I+"value.hpp", I+"encoding/base.hpp", I+"encoding/chunk-of-bits.hpp", I+"encoding/encodings.hpp"],
  [("no mutable state outside the objects", "all headers"), ("const operations do not write", I+"xxhash.hpp: final() const; "+I+"encoding/base.hpp: begin() const")], [], ["whole public run-time API"],
  "none: the checks compile the headers with memory-access instrumentation that yields to the simulated scheduler")
p("C06", "Hashing, comparing and encoding never need the heap",
  "Creating, copying, feeding and finalising hash objects, parsing, comparing and slicing digests, iterating encoded views, rendering to fixed-size strings or into caller-supplied buffers, and printing to an already open stream perform no heap allocation. They therefore give their correct results while every allocation fails, at any moment and in any sequence of such operations.",
  ["histories", "fault_sequences"],
  "all sequences of these operations with the heap failing from an arbitrary point on",
  "tests never make an allocation fail, and an allocation that succeeds cannot be seen in a result",
  [I+"hasher.hpp", I+"sha3/common.hpp", I+"xxhash.hpp", I+"value.hpp", I+"fixed-string.hpp", I+"encoding/base.hpp", "README.md"],
  [("value types and lazy views only (README: there is no allocation at all)", "all headers")], [], ["whole public run-time API except functions returning std::string"])
p("C07", "Text rendering under memory exhaustion is all or nothing",
  "Rendering a digest or an encoded view to a string (to_string or std::format, any encoding, narrow or wide) while memory allocations fail at arbitrary points either returns exactly the full text or reports the failure with an exception. A failed attempt leaks nothing, leaves the digest unchanged, and a repetition after memory is available again returns the full text.",
  ["fault_sequences", "inputs"],
  "all positions of failing allocations, all encodings, digest sizes, character types and format specifications",
  "tests never make an allocation fail",
  [I+"value.hpp", I+"encoding/base.hpp", I+"encoding/encodings.hpp"],
  [("to_string", I+"value.hpp: to_string"), ("formatters", I+"value.hpp: std::formatter, "+I+"encoding/base.hpp: std::formatter, to_string")], [], ["to_string()", "std::format()", "std::vformat()"])
p("C08", "Printing to a failing sink leaves a prefix and reports the failure",
  "Printing a digest or an encoded view to an output stream or formatting it to an output iterator, whose sink fails, is full, throws, or recovers later at arbitrary points, delivers to the sink a prefix of exactly the expected text, never with a gap, a duplicate or other characters. If the text is not complete, the stream is left in a failed state or the exception of the sink is passed on; if no fault happens the text is complete (padded as a whole if the stream has a field width and the length is known beforehand), a stream that had failed before receives nothing until its failure is cleared, and printing again after recovery delivers the full text.",
  ["fault_sequences", "histories"],
  "all fault points and fault kinds of a sink (error return, exception, failing flush, full, out of memory, already failed), stream exception masks, buffer sizes, encodings, narrow and wide characters",
  "tests print to string streams which never fail",
  [I+"value.hpp", I+"encoding/base.hpp"],
  [("character-wise copy through the stream's own state", I+"value.hpp: print_into, operator<<; "+I+"encoding/base.hpp: operator<<")], [], ["operator<<", "print_into()", "std::format_to()"])
p("C09", "Encoded views: every traversal yields the standard text of the bytes",
  "For every encoding (bases 2, 4, 8, 16, 32 and 64 and their variants, padded or not), traversing an encoded view of a byte sequence yields exactly the text the encoding's definition gives for those bytes, of exactly the announced size. This holds for every one of several traversals advanced in any interleaving, copied, abandoned or restarted midway, and for a single-pass stream source that delivers its bytes in arbitrary pieces and ends or fails anywhere.",
  ["histories", "inputs", "fault_sequences"],
  "all interleavings of iterator operations on a view, all source lengths and kinds, all fragmentations and end points of a stream source",
  "tests materialise a few short inputs front to back, with one iterator",
  [I+"encoding/base.hpp", I+"encoding/chunk-of-bits.hpp", I+"encoding/bit-buffer.hpp", I+"encoding/encodings.hpp"],
  [("bit buffer in each iterator", I+"encoding/chunk-of-bits.hpp: feed_buffer, pad_buffer, saturate_missing_bits")],
  [("bit buffer", "bits read from the source and not yet delivered", I+"encoding/bit-buffer.hpp")], ["begin()", "end()", "size()", "iterator operations"])
p("C10", "A stored digest verifies exactly when neither it nor the data changed",
  "When data and its digest (kept in binary form or as hexadecimal text of either case) go through storage and the data is hashed again and compared, they compare equal if the bytes of both come back intact, and unequal if the stored digest's value or the data's hash differs in even one bit: flipped bits, torn or lost writes, stale or misplaced records and truncation included. The three-way comparison agrees with byte-wise lexicographic order of the digests, and prefixes and suffixes are the corresponding bytes; SHAKE digests of different lengths compare on their common length.",
  ["fault_sequences", "inputs"],
  "all storage fault kinds at all positions of data and of stored digest, all algorithms and both stored forms",
  "tests compare a few fixed literals; no test changes a single digest byte or digit at an arbitrary position",
  [I+"value.hpp", I+"internal/hexdec.hpp", I+"internal/algorithm.hpp", I+"fixed-string.hpp", I+"sha3/shake128.hpp", I+"sha3/shake256.hpp"],
  [("hexadecimal parsing", I+"internal/hexdec.hpp"), ("comparison of all bytes", I+"value.hpp: operator==, operator<=>")], [], ["operator==", "operator<=>", "hash_value constructors", "prefix()", "suffix()"])
p("C11", "checksum prints the right digest and exits 0, or reports failure",
  "The checksum tool exits with status 0 only if standard output received exactly the digest of the whole file, in the requested algorithm, followed by a line end; without a fault it does so for every readable regular file, the empty one included. If the file cannot be opened, sized, mapped or read, the algorithm is unknown, arguments are missing, or standard output fails, it exits normally with a non-zero status and prints no other digest. A failing standard error or a jumping clock changes neither digest nor status.",
  ["fault_sequences", "inputs"],
  "all system-call faults at all points, output faults, clock jumps, file sizes and algorithms",
  "no test runs the tool at all; before they were fixed, a failing lseek or mmap crashed it and an output failure was reported as success",
  ["checksum.cpp"],
  [("mapped_file", "checksum.cpp: mapped_file"), ("status after output", "checksum.cpp: main")], [], ["exit status", "standard output"],
  "none: the checks redirect the tool's system calls at link time")
p("C12", "Only the given bytes, only during the call, only into the given output",
  "Hash updates, one-shot hashing, finalisation into a caller's buffer and encoding read no byte outside the fragment handed over and none after the call has returned, so the caller may overwrite, unmap or reuse its buffer at once. They write nothing outside the object itself and the given output, also when buffers have any alignment or end at an inaccessible page, and results depend on no byte the caller has not supplied.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of operations with buffers at arbitrary alignments next to inaccessible pages, recycled or unmapped right after each call, objects and outputs between guard zones, memory full of garbage",
  "test buffers live on through the test, on zeroed or generously sized storage",
  [I+"hasher.hpp", I+"sha3/common.hpp", I+"xxhash.hpp", I+"internal/convert.hpp", I+"encoding/chunk-of-bits.hpp"],
  [("spans with checked sub-ranges, copies into the object", I+"hasher.hpp, "+I+"sha3/common.hpp, "+I+"xxhash.hpp")], [], ["update()", "final(span)", "encode views"])
p("C13", "The single-header distribution behaves like the modular headers",
  "The amalgamated single header can be included on its own. Its hash objects give, for every fragmentation of a stream, every snapshot and resume and every seed, exactly the standard digest of the bytes delivered; and its digest values, their texts, their comparisons and its encoded views keep the guarantees stated for the modular headers, also when allocations, sinks and sources fail.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "all delivery, snapshot and fault histories, as for C01 to C04, C07 to C10 and C12, in the configuration where the single header is used",
  "the tests include only the modular headers; the single header did not even compile on its own with the supported compilers before it was fixed",
  ["include/cthash-single-header.hpp"], [("generated copy of the headers", "include/CMakeLists.txt: single-header.hpp")], [], ["update()", "final()", "hash values", "encoded views"])
p("C14", "Bit chunks: every traversal regroups exactly the bits of the source",
  "For every element type (8- to 64-bit integers, signed or not, and std::byte) and every chunk width that the library accepts, traversing a chunk view (chunk_of_bits, and its aligned form) yields exactly the bits of the source, most significant first, cut into chunks of that width. A last partial chunk is filled with zero bits and reports how many are missing; padding chunks, where asked for, complete the last whole group with value zero and all bits missing; the announced size is the number of chunks. This holds for every one of several traversals advanced in any interleaving, copied, abandoned or restarted, and for a single-pass source that ends or fails anywhere.",
  ["histories", "inputs", "fault_sequences"],
  "all interleavings of iterator operations on chunk views, all source lengths and kinds, all element types and accepted widths",
  "tests materialise a few short byte sequences front to back; wider elements, several iterators and failing sources are not tested",
  [I+"encoding/chunk-of-bits.hpp", I+"encoding/bit-buffer.hpp"],
  [("bit buffer in each iterator", I+"encoding/chunk-of-bits.hpp: feed_buffer, pad_buffer, saturate_missing_bits"), ("shifts kept below the buffer's width", I+"encoding/bit-buffer.hpp: push, front, pop")],
  [("bit buffer", "bits read from the source and not yet delivered", I+"encoding/bit-buffer.hpp")], ["chunk_of_bits", "begin()", "end()", "size()", "iterator operations"])
p("C15", "Bounded work: every operation costs no more than its own input and output",
  "Every operation takes a number of steps at most proportional to its own input and output. Updating takes steps proportional to the fragment, however much the stream has received before and however it is cut; the fragments of a whole stream together take steps proportional to its bytes and their number. Finalising takes steps proportional to the digest (for SHAKE, to the output asked for). Creating, copying and assigning hash objects, asking for sizes, and every single step of a traversal of an encoded view (begin, reading a character, advancing, comparing with the end, copying an iterator) take a constant number of steps, however long the view is and however far the traversal has come. Comparing and slicing digests take steps proportional to the digest, parsing and rendering to the text. Nothing that happened before, on this or on other objects (long histories, interleaved streams, tasks that died in the middle of an operation, refused allocations, failing sinks and sources), makes a later operation take more than that.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of operations on objects and views, all lengths and cuts, all faults in between",
  "tests look at results only; work that grows with the history or with the position needs long histories to be seen and never changes a result",
  [I+"hasher.hpp", I+"sha3/common.hpp", I+"xxhash.hpp", I+"value.hpp", I+"encoding/base.hpp", I+"encoding/chunk-of-bits.hpp"],
  [("whole blocks consumed once, tail buffered", I+"hasher.hpp: update, xxhash.hpp: update, sha3/common.hpp: update"), ("iterators hold their position and bits", I+"encoding/chunk-of-bits.hpp: iterator"), ("size computed from the size of the source", I+"encoding/base.hpp: size")],
  [("stream state", "compression state, partial block, total length", I+"hasher.hpp, xxhash.hpp, sha3/common.hpp"), ("traversal state", "source position and undelivered bits", I+"encoding/chunk-of-bits.hpp")],
  ["update()", "final()", "size()", "copies", "views and iterators", "to_string", "std::format", "operator<<"])
p("C21", "Encoding names select exactly their encoding, damaged ones are rejected",
  "A name of an encoding that arrives at run time, in any character type (narrow, wide, UTF-8, UTF-16, UTF-32) and from any range or string view, selects exactly the encoding documented under that name. A name that was damaged on the way (cut, extended, letters lost, doubled, swapped or in another case, bits flipped, zero characters in or behind it, characters wider than a byte) selects the encoding only if what is left is again a documented name, and is rejected otherwise. An empty name, in a range or in a replacement field, selects the default (hexdec). The same holds for the name in a replacement field of std::format, evaluated at run time. A selection that was made is not changed by later selections, whether those succeed, are rejected, or end by an exception of the source of the name, and every later use of it gives the text of that encoding.",
  ["inputs", "histories", "fault_sequences"],
  "all names and damages, all character types and ranges, all histories of selections and uses",
  "tests check a few names at compile time; names longer than the longest known one, wide characters that equal a letter modulo 256, and sources that fail are not tested",
  [I+"encoding/encodings.hpp", I+"value.hpp"],
  [("names read up to the end or a brace into a buffer of the longest name", I+"encoding/encodings.hpp: select_runtime_encoding"), ("table of names of every encoding", I+"encoding/encodings.hpp: dynamic_encodings, select_encoding")],
  [("selected encoding", "index of the encoding in the list", I+"encoding/encodings.hpp: dynamic_encodings")], ["select_runtime_encoding", "runtime_encoding", "std::vformat", "std::format"])
# not decided by simulation (see MANIFEST not_applicable)
p("C20", "Compile-time and run-time evaluation agree",
  "Every hash, comparison and encoding evaluated in a constant expression gives the same result as the same call evaluated at run time, for every input and input type.",
  ["inputs", "programs"], "all inputs and call forms usable in constant expressions",
  "tests compare a few ASCII inputs; full blocks of negative chars differed before it was fixed",
  [I+"internal/convert.hpp", I+"sha3/common.hpp", I+"hasher.hpp", I+"xxhash.hpp"], [("separate constant-evaluation paths", I+"internal/convert.hpp: if consteval; "+I+"sha3/common.hpp: xor_overwrite_block")])
p("C22", "Digests of different algorithms cannot be mixed up",
  "Literals and values of one algorithm do not compare with or convert to those of another at compile time, and a literal of wrong length is rejected.",
  ["programs"], "all programs", "tests contain only programs that compile",
  [I+"value.hpp"], [("tagged value types", I+"value.hpp: tagged_hash_value")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
