// Type-erased access to chunk_of_bits views over integers of every width.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>

namespace sim {

enum ChunkSource : unsigned { cs_span, cs_chain, cs_owned };
constexpr size_t owned_max = 24; // elements a source that owns its elements can hold

struct ElemBlob {
	const void * data;
	size_t n;     // elements
	size_t piece; // cs_chain: elements per piece
};
struct ChunkValue {
	uint64_t value;
	unsigned missing;
	bool padding;
	friend bool operator==(const ChunkValue &, const ChunkValue &) = default;
};
extern unsigned chunk_exception; // what a failing source throws

struct Chunk {
	const char * type;
	unsigned width, bits; // of an element, of a chunk
	bool pad;
	unsigned source;
	bool sized;
	size_t view_size, iter_size;
	void (*make)(void * mem, const ElemBlob *);
	void (*copy)(void * mem, const void * from);
	void (*destroy)(void * mem);
	size_t (*size)(const void * mem);
	void (*begin)(void * mem, void * it, bool constant);
	void (*it_copy)(void * it, const void * from);
	void (*it_assign)(void * it, const void * from); // same constness only
	bool (*same_kind)(const void * a, const void * b);
	void (*it_destroy)(void * it);
	ChunkValue (*deref)(const void * it);
	void (*inc)(void * it);
	ChunkValue (*postinc)(void * it);
	bool (*at_end)(const void * mem, const void * it);
	// single pass source which throws when it is asked for element throws_at; *got chunks were seen before
	void (*stream)(const ElemBlob *, size_t throws_at, size_t limit, ChunkValue * out, size_t * got, size_t * reads);
};

const std::vector<Chunk> & chunks();

} // namespace sim
