// Type-erased access to every streaming hash of the library, through its public interface only.
#pragma once
#include "ref.hpp"
#include <cstdint>
#include <cstddef>
#include <vector>

namespace sim {

enum Entry : unsigned { // how a fragment is handed over
	span_byte,
	span_uchar,
	span_char,
	span_char8,
	span_schar,
	mutable_span_byte,
	view_char,
	view_char8,
	cont_string,
	cont_vector_byte,
	cont_vector_uchar,
	cont_array,
	literal_char,
	literal_char8,
	entry_count
};

// lengths for which the fixed-size entries exist (others fall back to a span)
constexpr size_t array_lengths[] = {1, 3, 8, 31, 63, 64, 65, 72, 104, 127, 128, 136, 144, 168, 200};
constexpr size_t literal_lengths[] = {0, 1, 5, 15, 16, 31, 32, 33, 63, 64, 111, 112, 128, 136, 167, 168};

struct Alg {
	const char * name;
	ref::Spec spec;
	size_t object_size, object_align;
	size_t digest_bytes; // 0: variable (SHAKE)
	bool trivially_copyable;
	bool has_size;       // total() is available
	bool reusable_final; // digest can be read at any moment without disturbing the stream

	void (*make)(void * mem, uint64_t seed);
	void (*copy)(void * mem, const void * from);
	void (*move)(void * mem, void * from);
	void (*assign)(void * mem, const void * from); // null when not assignable
	void (*move_assign)(void * mem, const void * from); // from a temporary
	void (*swap)(void * mem, uint64_t seed);            // with another object and back
	void (*destroy)(void * mem);
	void (*update)(void * mem, unsigned entry, uint8_t * p, size_t n);
	uint64_t (*total)(const void * mem);
	// writes digest_bytes (or shake bits/8) bytes; form selects final(span)/final()/final<N>
	size_t (*final)(void * mem, unsigned form, uint8_t * out);
	size_t (*final_size)(unsigned form);
	// SHAKE only: long_outputs[which % 2] bytes
	size_t (*final_long)(void * mem, unsigned which, uint8_t * out);
	// one-shot: simple<H>(...) / update_and_final(...)
	size_t (*oneshot)(unsigned entry, uint8_t * p, size_t n, uint64_t seed, uint8_t * out);
};

constexpr size_t max_digest = 2048;
constexpr size_t long_outputs[] = {65549, 5131};

// one registration function per translation unit
void register_sha2_32(std::vector<Alg> &);
void register_sha2_64(std::vector<Alg> &);
void register_sha512t(std::vector<Alg> &);
void register_sha3(std::vector<Alg> &);
void register_shake(std::vector<Alg> &);
void register_xxh(std::vector<Alg> &);

} // namespace sim
