#include "ref.hpp"
#include <cstring>
#include <cstdio>
#include <cstdlib>

namespace ref {
#include "ref_tables.inc"

namespace {
uint32_t ror(uint32_t x, unsigned n) { return (x >> n) | (x << (32 - n)); }
uint64_t ror(uint64_t x, unsigned n) { return (x >> n) | (x << (64 - n)); }
template <class T> T rol(T x, unsigned n) { return n ? T((x << n) | (x >> (sizeof(T) * 8 - n))) : x; }
uint64_t be(const uint8_t * p, unsigned n) {
	uint64_t r = 0;
	for (unsigned i = 0; i < n; ++i) r = r << 8 | p[i];
	return r;
}
uint64_t le(const uint8_t * p, unsigned n) {
	uint64_t r = 0;
	for (unsigned i = n; i-- > 0;) r = r << 8 | p[i];
	return r;
}

void sha32_block(uint32_t s[8], const uint8_t * p) {
	uint32_t w[64];
	for (int i = 0; i < 16; ++i) w[i] = (uint32_t)be(p + 4 * i, 4);
	for (int i = 16; i < 64; ++i) {
		uint32_t a = w[i - 15], b = w[i - 2];
		w[i] = (ror(b, 17) ^ ror(b, 19) ^ b >> 10) + w[i - 7] + (ror(a, 7) ^ ror(a, 18) ^ a >> 3) + w[i - 16];
	}
	uint32_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
	for (int i = 0; i < 64; ++i) {
		uint32_t t1 = h + (ror(e, 6) ^ ror(e, 11) ^ ror(e, 25)) + (g ^ (e & (f ^ g))) + K256[i] + w[i];
		uint32_t t2 = (ror(a, 2) ^ ror(a, 13) ^ ror(a, 22)) + ((a & b) | (c & (a | b)));
		h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
	}
	s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
}

void sha64_block(uint64_t s[8], const uint8_t * p) {
	uint64_t w[80];
	for (int i = 0; i < 16; ++i) w[i] = be(p + 8 * i, 8);
	for (int i = 16; i < 80; ++i) {
		uint64_t a = w[i - 15], b = w[i - 2];
		w[i] = (ror(b, 19) ^ ror(b, 61) ^ b >> 6) + w[i - 7] + (ror(a, 1) ^ ror(a, 8) ^ a >> 7) + w[i - 16];
	}
	uint64_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4], f = s[5], g = s[6], h = s[7];
	for (int i = 0; i < 80; ++i) {
		uint64_t t1 = h + (ror(e, 14) ^ ror(e, 18) ^ ror(e, 41)) + (g ^ (e & (f ^ g))) + K512[i] + w[i];
		uint64_t t2 = (ror(a, 28) ^ ror(a, 34) ^ ror(a, 39)) + ((a & b) | (c & (a | b)));
		h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
	}
	s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e; s[5] += f; s[6] += g; s[7] += h;
}

// Keccak-f[1600] straight from FIPS 202: A[x][y] is lane x + 5y; constants computed from the definition
struct KeccakTables {
	uint64_t rc[24];
	unsigned rot[25];
	KeccakTables() {
		uint8_t r = 1; // LFSR of algorithm 5
		for (int i = 0; i < 24; ++i) {
			rc[i] = 0;
			for (int j = 0; j <= 6; ++j) {
				if (r & 1) rc[i] |= uint64_t(1) << ((1u << j) - 1);
				r = uint8_t(r << 1 ^ (r >> 7) * 0x71);
			}
		}
		for (unsigned & x: rot) x = 0;
		unsigned x = 1, y = 0;
		for (unsigned t = 0; t < 24; ++t) {
			rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
			unsigned ny = (2 * x + 3 * y) % 5;
			x = y; y = ny;
		}
	}
};
const KeccakTables & tables() {
	static const KeccakTables t;
	return t;
}

void keccak(uint64_t a[25]) {
	const KeccakTables & KT = tables();
	for (int round = 0; round < 24; ++round) {
		uint64_t c[5], b[25];
		for (int x = 0; x < 5; ++x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
		for (int x = 0; x < 5; ++x) {
			uint64_t d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
			for (int y = 0; y < 5; ++y) a[x + 5 * y] ^= d;
		}
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(a[x + 5 * y], KT.rot[x + 5 * y]);
		for (int y = 0; y < 5; ++y) for (int x = 0; x < 5; ++x) a[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
		a[0] ^= KT.rc[round];
	}
}

constexpr uint32_t P32[5] = {0x9E3779B1u, 0x85EBCA77u, 0xC2B2AE3Du, 0x27D4EB2Fu, 0x165667B1u};
constexpr uint64_t P64[5] = {0x9E3779B185EBCA87ull, 0xC2B2AE3D27D4EB4Full, 0x165667B19E3779F9ull, 0x85EBCA77C2B2AE63ull, 0x27D4EB2F165667C5ull};
uint64_t x64round(uint64_t acc, uint64_t lane) { return rol(acc + lane * P64[1], 31) * P64[0]; }

} // namespace

unsigned Model::block() const {
	switch (spec.fam) {
	case Fam::sha32: return 64;
	case Fam::sha64: return 128;
	case Fam::keccak: return spec.rate_bytes;
	case Fam::xxh32: return 16;
	default: return 32;
	}
}

Model::Model(const Spec & s): spec{s} {
	switch (s.fam) {
	case Fam::sha32: std::memcpy(s32, s.digest_bits == 224 ? H224 : H256, 32); break;
	case Fam::sha64:
		std::memcpy(s64, s.digest_bits == 384 ? H384 : H512, 64);
		if (s.t) { // SHA-512/t IV generation function
			Model g{Spec{Fam::sha64, 512, 0, 0, 0, 0}};
			for (int i = 0; i < 8; ++i) g.s64[i] = H512[i] ^ 0xa5a5a5a5a5a5a5a5ull;
			char name[16];
			int n = std::snprintf(name, sizeof name, "SHA-512/%u", s.t);
			g.update((const uint8_t *)name, (size_t)n);
			bytes d = g.digest();
			for (int i = 0; i < 8; ++i) s64[i] = be(d.data() + 8 * i, 8);
		}
		break;
	case Fam::keccak: break;
	case Fam::xxh32: {
		uint32_t k = (uint32_t)s.seed;
		s32[0] = k + P32[0] + P32[1]; s32[1] = k + P32[1]; s32[2] = k; s32[3] = k - P32[0];
		break;
	}
	case Fam::xxh64: {
		uint64_t k = s.seed;
		s64[0] = k + P64[0] + P64[1]; s64[1] = k + P64[1]; s64[2] = k; s64[3] = k - P64[0];
		break;
	}
	}
}

void Model::compress(const uint8_t * p) {
	switch (spec.fam) {
	case Fam::sha32: sha32_block(s32, p); break;
	case Fam::sha64: sha64_block(s64, p); break;
	case Fam::keccak:
		for (unsigned i = 0; i < spec.rate_bytes; ++i) s64[i / 8] ^= uint64_t(p[i]) << (8 * (i % 8));
		keccak(s64);
		break;
	case Fam::xxh32:
		for (int i = 0; i < 4; ++i) s32[i] = rol(s32[i] + (uint32_t)le(p + 4 * i, 4) * P32[1], 13) * P32[0];
		break;
	case Fam::xxh64:
		for (int i = 0; i < 4; ++i) s64[i] = x64round(s64[i], le(p + 8 * i, 8));
		break;
	}
}

void Model::update(const uint8_t * p, size_t n) {
	total += n;
	const unsigned b = block();
	while (n) {
		if (fill == 0 && n >= b) {
			compress(p);
			p += b; n -= b;
			continue;
		}
		size_t k = b - fill < n ? b - fill : n;
		std::memcpy(buf + fill, p, k);
		fill += (unsigned)k; p += k; n -= k;
		if (fill == b) {
			compress(buf);
			fill = 0;
		}
	}
}

bytes Model::digest(size_t out_bytes) const {
	Model m = *this;
	bytes out;
	switch (spec.fam) {
	case Fam::sha32:
	case Fam::sha64: {
		const unsigned b = block(), lenb = b / 8;
		uint8_t pad[256] = {0x80};
		unsigned zeros = (2 * b - lenb - 1 - fill) % b;
		unsigned n = 1 + zeros + lenb;
		unsigned __int128 bits = (unsigned __int128)total * 8;
		for (unsigned i = 0; i < lenb; ++i) pad[1 + zeros + i] = (uint8_t)(bits >> (8 * (lenb - 1 - i)));
		m.update(pad, n);
		for (unsigned i = 0; i < spec.digest_bits / 8; ++i)
			out.push_back(spec.fam == Fam::sha32 ? (uint8_t)(m.s32[i / 4] >> (24 - 8 * (i % 4))) : (uint8_t)(m.s64[i / 8] >> (56 - 8 * (i % 8))));
		break;
	}
	case Fam::keccak: {
		uint8_t last[256] = {};
		std::memcpy(last, buf, fill);
		last[fill] ^= spec.suffix;
		last[spec.rate_bytes - 1] ^= 0x80;
		m.compress(last);
		size_t want = spec.digest_bits ? spec.digest_bits / 8 : out_bytes;
		while (out.size() < want) {
			for (unsigned i = 0; i < spec.rate_bytes && out.size() < want; ++i) out.push_back((uint8_t)(m.s64[i / 8] >> (8 * (i % 8))));
			keccak(m.s64);
		}
		break;
	}
	case Fam::xxh32: {
		uint32_t h = total >= 16 ? rol(s32[0], 1) + rol(s32[1], 7) + rol(s32[2], 12) + rol(s32[3], 18) : (uint32_t)spec.seed + P32[4];
		h += (uint32_t)total;
		unsigned i = 0;
		for (; i + 4 <= fill; i += 4) h = rol(h + (uint32_t)le(buf + i, 4) * P32[2], 17) * P32[3];
		for (; i < fill; ++i) h = rol(h + buf[i] * P32[4], 11) * P32[0];
		h ^= h >> 15; h *= P32[1]; h ^= h >> 13; h *= P32[2]; h ^= h >> 16;
		for (int k = 0; k < 4; ++k) out.push_back((uint8_t)(h >> (24 - 8 * k)));
		break;
	}
	case Fam::xxh64: {
		uint64_t h;
		if (total >= 32) {
			h = rol(s64[0], 1) + rol(s64[1], 7) + rol(s64[2], 12) + rol(s64[3], 18);
			for (int k = 0; k < 4; ++k) h = (h ^ x64round(0, s64[k])) * P64[0] + P64[3];
		} else {
			h = spec.seed + P64[4];
		}
		h += total;
		unsigned i = 0;
		for (; i + 8 <= fill; i += 8) h = rol(h ^ x64round(0, le(buf + i, 8)), 27) * P64[0] + P64[3];
		if (i + 4 <= fill) {
			h = rol(h ^ le(buf + i, 4) * P64[0], 23) * P64[1] + P64[2];
			i += 4;
		}
		for (; i < fill; ++i) h = rol(h ^ buf[i] * P64[4], 11) * P64[0];
		h ^= h >> 33; h *= P64[1]; h ^= h >> 29; h *= P64[2]; h ^= h >> 32;
		for (int k = 0; k < 8; ++k) out.push_back((uint8_t)(h >> (56 - 8 * k)));
		break;
	}
	}
	return out;
}

std::string Model::save() const {
	if (fill) std::abort();
	char b[32];
	std::string r;
	std::snprintf(b, sizeof b, "%llu", (unsigned long long)total);
	r = b;
	const unsigned n = spec.fam == Fam::keccak ? 25 : 8;
	for (unsigned i = 0; i < n; ++i) {
		std::snprintf(b, sizeof b, " %llx", (unsigned long long)(spec.fam == Fam::sha32 || spec.fam == Fam::xxh32 ? s32[i] : s64[i]));
		r += b;
	}
	return r;
}

bool Model::load(const std::string & text) {
	const char * p = text.c_str();
	char * e;
	total = std::strtoull(p, &e, 10);
	fill = 0;
	const unsigned n = spec.fam == Fam::keccak ? 25 : 8;
	for (unsigned i = 0; i < n; ++i) {
		p = e;
		uint64_t v = std::strtoull(p, &e, 16);
		if (p == e) return false;
		if (spec.fam == Fam::sha32 || spec.fam == Fam::xxh32) s32[i] = (uint32_t)v;
		else s64[i] = v;
	}
	return true;
}

bytes digest(const Spec & s, const uint8_t * p, size_t n, size_t out_bytes) {
	Model m{s};
	m.update(p, n);
	return m.digest(out_bytes);
}

std::string hex(const bytes & b) {
	std::string r;
	for (uint8_t x: b) {
		r += "0123456789abcdef"[x >> 4];
		r += "0123456789abcdef"[x & 15];
	}
	return r;
}

#define B64 "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
#define B64U "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
#define B32 "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
const Encoding encodings[] = {
	{"base64", B64, 6, '='}, {"base64_no_padding", B64, 6, 0}, {"base64url", B64U, 6, 0},
	{"base32", B32, 5, '='}, {"base32_no_padding", B32, 5, 0}, {"z_base32", "ybndrfg8ejkmcpqxot1uwisza345h769", 5, 0},
	{"base16", "0123456789abcdef", 4, 0}, {"BASE16", "0123456789ABCDEF", 4, 0},
	{"base8", "01234567", 3, '='}, {"base4", "0123", 2, 0}, {"base2", "01", 1, 0},
};
const unsigned encodings_count = sizeof encodings / sizeof encodings[0];
const Encoding & encoding(const char * name) {
	for (const auto & e: encodings) if (!std::strcmp(e.name, name)) return e;
	std::abort();
}

std::string encode(const Encoding & e, const uint8_t * p, size_t n) {
	const size_t bits = n * 8;
	std::string r;
	for (size_t at = 0; at < bits; at += e.bits) {
		unsigned v = 0;
		for (unsigned k = 0; k < e.bits; ++k) {
			const size_t i = at + k;
			v = v << 1 | (i < bits ? (p[i / 8] >> (7 - i % 8)) & 1u : 0u);
		}
		r += e.alphabet[v];
	}
	if (e.pad) {
		size_t quantum = 0; // symbols in the least common multiple of 8 and bits
		for (size_t l = 8; quantum == 0; l += 8) if (l % e.bits == 0) quantum = l / e.bits;
		while (r.size() % quantum) r += e.pad;
	}
	return r;
}

} // namespace ref
