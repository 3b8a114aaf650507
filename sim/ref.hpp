// Reference models, written from FIPS 180-4, FIPS 202, the xxHash specification and RFC 4648.
// They share no code and no table with /repo.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace ref {

using bytes = std::vector<uint8_t>;

enum class Fam { sha32, sha64, keccak, xxh32, xxh64 };

// one streaming reference object for every algorithm of the library
struct Spec {
	Fam fam;
	unsigned digest_bits; // SHA-2 / SHA-3 digest; SHAKE: 0
	unsigned rate_bytes;  // keccak only
	uint8_t suffix;       // keccak only: domain bits with the first padding bit
	unsigned t;           // SHA-512/t, else 0
	uint64_t seed;        // xxHash only
};

struct Model {
	Spec spec;
	uint64_t total{0};
	uint32_t s32[8]{};
	uint64_t s64[25]{};
	uint8_t buf[256]{};
	unsigned fill{0};

	explicit Model(const Spec &);
	unsigned block() const;
	void update(const uint8_t * p, size_t n);
	bytes digest(size_t out_bytes = 0) const; // works on a copy; out_bytes only for SHAKE
	std::string save() const;                 // chaining state as hex (only at block boundaries)
	bool load(const std::string &);

private:
	void compress(const uint8_t *);
};

bytes digest(const Spec &, const uint8_t * p, size_t n, size_t out_bytes = 0);
std::string hex(const bytes &);

// textual encodings: alphabet of 2^k symbols, pad = 0 for none
struct Encoding {
	const char * name;
	const char * alphabet;
	unsigned bits;
	char pad;
};
extern const Encoding encodings[];
extern const unsigned encodings_count;
const Encoding & encoding(const char * name);
std::string encode(const Encoding &, const uint8_t * p, size_t n);

} // namespace ref
