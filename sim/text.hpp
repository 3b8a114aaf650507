// Type-erased access to digest values and encoded views through the library's public interface.
// Nothing here allocates unless the library function called does.
#pragma once
#include "ref.hpp"
#include <cstdint>
#include <cstddef>
#include <iosfwd>
#include <vector>

namespace sim {

enum CharKind : unsigned { c_char, c_wchar, c_char8, c_char16, c_char32, char_kinds };
constexpr unsigned default_enc = 999; // the type's own default (hexadecimal)
constexpr size_t max_text = 2048;     // characters of any text produced here

// receives characters from formatting into an output iterator; put may throw
struct CharSink {
	void (*put)(CharSink *, uint32_t);
};

struct Digest {
	const char * name;
	size_t bytes, object_size, object_align;
	void (*load)(void * mem, const uint8_t *);    // a digest with these bytes
	void (*get)(const void *, uint8_t *);         // its bytes
	bool (*eq)(const void *, const void *);       // ==
	int (*cmp)(const void *, const void *);       // <=>, -1 0 1
	unsigned (*relations)(const void *, const void *); // bits: < <= > >= == !=
	// hexadecimal text of 2*bytes characters and a terminator -> digest
	void (*parse)(void * mem, const void * text, unsigned ck);
	// texts; each returns the number of characters stored
	size_t (*to_string)(const void *, unsigned enc, unsigned ck, uint32_t * out);
	size_t (*to_fixed)(const void *, unsigned enc, unsigned ck, uint32_t * out);
	size_t (*format)(const void *, unsigned enc, unsigned ck, uint32_t * out); // c_char, c_wchar
	size_t (*format_to_buffer)(const void *, unsigned enc, unsigned ck, void * out); // raw characters, into caller memory
	size_t (*format_named)(const void *, const uint32_t * field, size_t n, unsigned ck, uint32_t * out); // a replacement field from outside; c_char, c_wchar
	void (*format_to_sink)(const void *, unsigned enc, unsigned ck, CharSink *, unsigned times); // 1 to 4 fields with '|' between
	bool (*print)(const void *, unsigned enc, std::ostream &); // returns whether the same stream came back
	bool (*wprint)(const void *, unsigned enc, std::wostream &);
	// prefix/suffix: count and k-th sizes
	unsigned slices;
	size_t (*slice_size)(unsigned k);
	void (*prefix)(const void *, unsigned k, uint8_t * out);
	void (*suffix)(const void *, unsigned k, uint8_t * out);
};

enum Source : unsigned { src_uchar, src_byte, src_char, src_schar, src_char8, src_blob_ref, src_chain, src_owned, src_count };
constexpr size_t owned_text_max = 64; // src_owned lives inside the view: longer sources are cut

// a sized container handed to the library by reference
struct Blob {
	const uint8_t * data;
	size_t n;
	const uint8_t * begin() const { return data; }
	const uint8_t * end() const { return data + n; }
	size_t size() const { return n; }
};

struct View {
	unsigned enc, source, ck;
	size_t view_size, iter_size;      // bytes of memory needed (any alignment up to 16)
	bool sized;
	bool pads;                        // printing honours the width of the stream
	void (*make)(void * mem, const Blob * data);
	void (*copy)(void * mem, const void * from);
	void (*move)(void * mem, void * from);
	void (*destroy)(void * mem);
	size_t (*size)(const void *);
	void (*begin)(void * view, void * it, bool constant);
	// iterators remember whether they came from a const view
	void (*it_copy)(void * it, const void * from);
	void (*it_assign)(void * it, const void * from); // same constness only
	void (*it_destroy)(void * it);
	uint32_t (*deref)(const void * it);
	void (*inc)(void * it);
	uint32_t (*postinc)(void * it); // the character of the old position
	bool (*at_end)(const void * view, const void * it);
	bool (*it_equal)(const void * a, const void * b); // same constness only
	bool (*same_kind)(const void * a, const void * b);
	size_t (*to_string)(const void * view, uint32_t * out, size_t cap); // only when sized
	size_t (*range_for)(const void * view, uint32_t * out, size_t cap);
	bool (*print)(const void * view, std::ostream *, std::wostream *);
	size_t (*format)(const void * view, uint32_t * out, size_t cap);
	void (*format_to_sink)(const void * view, CharSink *, unsigned times);
};

const std::vector<Digest> & digests(); // weak groups merged
const std::vector<View> & views();
// chunk boundaries used by src_chain, set before make()
extern size_t chain_piece;

// single-pass source: encodes everything the stream buffer yields, one character at a time into the sink
// returns the number of characters; stops after limit characters
size_t encode_stream(unsigned enc, std::streambuf *, uint32_t * out, size_t limit);

// Selects an encoding by a name from outside. Throws when the name is rejected (or the source throws, at
// character throws_at). Forms: text of char, wchar_t, char8_t, char16_t, char32_t; a list of char; the constructor.
constexpr unsigned select_forms = 7;
struct Selected {
	alignas(16) unsigned char mem[32]; // the selection
	size_t consumed;
};
void select_named(Selected &, unsigned form, const uint32_t * name, size_t n, size_t throws_at);
unsigned selected_index(const Selected &); // in ref::encodings
size_t selected_encode(const Selected &, const uint8_t * p, size_t n, uint32_t * out, size_t cap);

// SHAKE digests of different lengths (bits): compare on the common prefix
struct ShakePair {
	size_t a_bytes, b_bytes;
	bool (*eq)(const uint8_t * a, const uint8_t * b);
	int (*cmp)(const uint8_t * a, const uint8_t * b);
};
const std::vector<ShakePair> & shake_pairs();

} // namespace sim
