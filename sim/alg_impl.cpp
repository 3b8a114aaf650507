// ALG_GROUP: 1 sha224/256, 2 sha384/512, 3 sha512/t, 4 sha3, 5 shake, 6 xxhash
#ifdef SIM_SINGLE
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
#include "alg.hpp"
#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim {
namespace {

template <typename H> constexpr bool is_xxh = std::is_constructible_v<H, uint32_t>; // the seeded ones
template <typename H> using seed_type = std::conditional_t<sizeof(decltype(std::declval<H &>().final())) == 4, uint32_t, uint64_t>;

// calls f(argument) with the fragment in the shape asked for
template <bool Containers, bool Full, typename F> decltype(auto) with_entry(unsigned entry, uint8_t * p, size_t n, F && f) {
	auto as = [&]<typename T>() { return std::span<const T>(reinterpret_cast<const T *>(p), n); };
	if constexpr (!Full) {
		switch (entry % entry_count) {
			case view_char: return f(std::string_view(reinterpret_cast<const char *>(p), n));
			case span_uchar: return f(as.template operator()<unsigned char>());
			case cont_vector_byte: {
				const std::vector<std::byte> v(reinterpret_cast<const std::byte *>(p), reinterpret_cast<const std::byte *>(p) + n);
				return f(v);
			}
		}
	} else switch (entry % entry_count) {
		case span_uchar: return f(as.template operator()<unsigned char>());
		case span_char: return f(as.template operator()<char>());
		case span_char8: return f(as.template operator()<char8_t>());
		case span_schar: return f(as.template operator()<int8_t>());
		case mutable_span_byte:
			if constexpr (Containers) return f(std::span<std::byte>(reinterpret_cast<std::byte *>(p), n));
			break;
		case view_char: return f(std::string_view(reinterpret_cast<const char *>(p), n));
		case view_char8: return f(std::u8string_view(reinterpret_cast<const char8_t *>(p), n));
		case cont_string:
			if constexpr (Containers) {
				const std::string s(reinterpret_cast<const char *>(p), n);
				return f(s);
			}
			break;
		case cont_vector_byte:
			if constexpr (Containers) {
				const std::vector<std::byte> v(reinterpret_cast<const std::byte *>(p), reinterpret_cast<const std::byte *>(p) + n);
				return f(v);
			}
			break;
		case cont_vector_uchar:
			if constexpr (Containers) {
				std::vector<unsigned char> v(p, p + n);
				return f(v);
			}
			break;
		case cont_array:
			if constexpr (Containers) {
				auto one = [&]<size_t N>(std::integral_constant<size_t, N>) {
					std::array<std::byte, N> a;
					memcpy(a.data(), p, N);
					return a;
				};
				switch (n) {
#define ARR(N) \
	case N: return f(one(std::integral_constant<size_t, N>{}))
					ARR(1);
					ARR(3);
					ARR(8);
					ARR(31);
					ARR(63);
					ARR(64);
					ARR(65);
					ARR(72);
					ARR(104);
					ARR(127);
					ARR(128);
					ARR(136);
					ARR(144);
					ARR(168);
					ARR(200);
				}
			}
			break;
		case literal_char:
			switch (n) {
#define LIT(N, C) \
	case N: { \
		struct { \
			C v[N + 1]; \
		} lit; \
		memcpy(lit.v, p, N); \
		lit.v[N] = C{}; \
		return f(std::as_const(lit.v)); \
	}
				LIT(0, char)
				LIT(1, char)
				LIT(5, char)
				LIT(15, char)
				LIT(16, char)
				LIT(31, char)
				LIT(32, char)
				LIT(33, char)
				LIT(63, char)
				LIT(64, char)
				LIT(111, char)
				LIT(112, char)
				LIT(128, char)
				LIT(136, char)
				LIT(167, char)
				LIT(168, char)
			}
			break;
		case literal_char8:
			switch (n) {
				LIT(0, char8_t)
				LIT(1, char8_t)
				LIT(5, char8_t)
				LIT(16, char8_t)
				LIT(33, char8_t)
				LIT(64, char8_t)
				LIT(136, char8_t)
			}
			break;
	}
	return f(as.template operator()<std::byte>());
}

template <typename V> size_t store(const V & v, uint8_t * out) {
	size_t n = 0;
	for (const std::byte b: v) out[n++] = static_cast<uint8_t>(b);
	return n;
}

// SHAKE output lengths in bits
template <unsigned... Ns> struct lengths {
	static constexpr unsigned value[] = {Ns...};
	static constexpr unsigned count = sizeof...(Ns);
};
using shake_lengths = lengths<8, 16, 56, 64, 72, 128, 248, 256, 504, 512, 520, 1024, 1080, 1088, 1096, 1336, 1344, 1352, 1368, 1376, 1408, 2048, 2176, 2184, 2688, 2696, 2752, 4032, 5384, 8072, 10760, 16384>;

template <typename H, bool Shake, bool Full = true> Alg describe(const char * name, ref::Spec spec, size_t digest_bytes) {
	Alg a{};
	a.name = name;
	a.spec = spec;
	a.object_size = sizeof(H);
	a.object_align = alignof(H);
	a.digest_bytes = digest_bytes;
	a.trivially_copyable = std::is_trivially_copyable_v<H>;
	constexpr bool xxh = is_xxh<H>;
	a.make = [](void * mem, uint64_t seed) {
		if constexpr (xxh) {
			if (seed == 0 && (reinterpret_cast<uintptr_t>(mem) & 64)) ::new (mem) H(); // default seed
			else ::new (mem) H(static_cast<seed_type<H>>(seed));
		} else {
			(void)seed;
			::new (mem) H();
		}
	};
	a.copy = [](void * mem, const void * from) { ::new (mem) H(*static_cast<const H *>(from)); };
	a.move = [](void * mem, void * from) { ::new (mem) H(std::move(*static_cast<H *>(from))); };
	if constexpr (std::is_copy_assignable_v<H>) a.assign = [](void * mem, const void * from) { *static_cast<H *>(mem) = *static_cast<const H *>(from); };
	if constexpr (std::is_move_assignable_v<H>) a.move_assign = [](void * mem, const void * from) {
		H tmp(*static_cast<const H *>(from));
		*static_cast<H *>(mem) = std::move(tmp);
	};
	if constexpr (std::swappable<H>) a.swap = [](void * mem, uint64_t seed) {
		H other;
		if constexpr (xxh) other = H(static_cast<seed_type<H>>(seed));
		const std::string_view some = "something else that is in progress";
		other.update(some.substr(0, seed % some.size()));
		std::ranges::swap(*static_cast<H *>(mem), other);
		std::ranges::swap(other, *static_cast<H *>(mem));
	};
	a.destroy = [](void * mem) { static_cast<H *>(mem)->~H(); };
	a.update = [](void * mem, unsigned entry, uint8_t * p, size_t n) {
		H & h = *static_cast<H *>(mem);
		with_entry<!xxh, Full>(entry, p, n, [&](const auto & v) {
			if (&h.update(v) != &h) __builtin_trap();
		});
	};
	a.has_size = requires(const H & h) { h.size(); };
	a.total = [](const void * mem) -> uint64_t {
		if constexpr (requires(const H & h) { h.size(); }) return static_cast<uint64_t>(static_cast<const H *>(mem)->size());
		else return 0;
	};
	a.reusable_final = xxh;
	if constexpr (Shake) {
		a.final = [](void * mem, unsigned form, uint8_t * out) -> size_t {
			H & h = *static_cast<H *>(mem);
			size_t r = 0;
			[&]<size_t... I>(std::index_sequence<I...>) {
				((I == form % shake_lengths::count ? (void)(r = store(h.template final<shake_lengths::value[I]>(), out)) : (void)0), ...);
			}(std::make_index_sequence<shake_lengths::count>());
			return r;
		};
		a.final_size = [](unsigned form) -> size_t { return shake_lengths::value[form % shake_lengths::count] / 8; };
		a.oneshot = nullptr;
		a.final_long = [](void * mem, unsigned which, uint8_t * out) -> size_t {
			H & h = *static_cast<H *>(mem);
			return which % 2 ? store(h.template final<long_outputs[1] * 8>(), out) : store(h.template final<long_outputs[0] * 8>(), out);
		};
	} else {
		a.final = [](void * mem, unsigned form, uint8_t * out) -> size_t {
			H & h = *static_cast<H *>(mem);
			constexpr size_t N = sizeof(decltype(h.final()));
			if (form % 2 == 0) {
				h.final(std::span<std::byte, N>(reinterpret_cast<std::byte *>(out), N));
				return N;
			}
			return store(h.final(), out);
		};
		a.final_size = [](unsigned) -> size_t { return std::tuple_size_v<decltype([](auto v) {
													return std::array<std::byte, sizeof(v)>{};
												}(std::declval<H &>().final()))>; };
		a.oneshot = [](unsigned entry, uint8_t * p, size_t n, uint64_t seed, uint8_t * out) -> size_t {
			return with_entry<!xxh, Full>(entry, p, n, [&](const auto & v) -> size_t {
				if constexpr (xxh) {
					using value_type = seed_type<H>;
					if (entry / entry_count % 2) {
						H h{static_cast<value_type>(seed)};
						return store(h.update_and_final(v), out);
					}
					if (seed == 0 && n % 2) return store(cthash::simple<H>(v), out);
					return store(cthash::simple<H>(v, static_cast<value_type>(seed)), out);
				} else {
					(void)seed;
					return store(cthash::simple<H>(v), out);
				}
			});
		};
	}
	return a;
}

using ref::Fam;

} // namespace

#if ALG_GROUP == 1
void register_sha2_32(std::vector<Alg> & v) {
	v.push_back(describe<cthash::sha256, false>("sha256", {Fam::sha32, 256, 0, 0, 0, 0}, 32));
	v.push_back(describe<cthash::sha224, false>("sha224", {Fam::sha32, 224, 0, 0, 0, 0}, 28));
}
#elif ALG_GROUP == 2
void register_sha2_64(std::vector<Alg> & v) {
	v.push_back(describe<cthash::sha512, false>("sha512", {Fam::sha64, 512, 0, 0, 0, 0}, 64));
	v.push_back(describe<cthash::sha384, false>("sha384", {Fam::sha64, 384, 0, 0, 0, 0}, 48));
}
#elif ALG_GROUP == 3
void register_sha512t(std::vector<Alg> & v) {
#define T(N) v.push_back(describe<cthash::sha512t<N>, false, N == 256>("sha512/" #N, {Fam::sha64, N, 0, 0, N, 0}, N / 8))
	T(256);
	T(224);
#ifndef FEW_T
	T(8);
	T(80);
	T(104);
	T(160);
	T(264);
	T(376);
	T(392);
	T(504);
#endif
}
#elif ALG_GROUP == 4
void register_sha3(std::vector<Alg> & v) {
#define S3(N) v.push_back(describe<cthash::sha3_##N, false>("sha3-" #N, {Fam::keccak, N, 200 - N / 4, 6, 0, 0}, N / 8))
	S3(256);
	S3(224);
	S3(384);
	S3(512);
}
#elif ALG_GROUP == 5
void register_shake(std::vector<Alg> & v) {
	v.push_back(describe<cthash::shake128, true>("shake128", {Fam::keccak, 0, 168, 0x1f, 0, 0}, 0));
	v.push_back(describe<cthash::shake256, true>("shake256", {Fam::keccak, 0, 136, 0x1f, 0, 0}, 0));
}
#elif ALG_GROUP == 6
void register_xxh(std::vector<Alg> & v) {
	v.push_back(describe<cthash::xxhash32, false>("xxh32", {Fam::xxh32, 32, 0, 0, 0, 0}, 4));
	v.push_back(describe<cthash::xxhash64, false>("xxh64", {Fam::xxh64, 64, 0, 0, 0, 0}, 8));
}
#endif

} // namespace sim
