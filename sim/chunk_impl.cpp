// CHUNK_GROUP 1: 8 bit, 2: 8 bit (other types), 3: 16 bit, 4: 32 and 64 bit, 0: registry
#ifdef SIM_SINGLE
#include <cthash-single-header.hpp>
#else
#include <cthash/encoding/chunk-of-bits.hpp>
#endif
#include "chunk.hpp"
#include "raise.hpp"
#include <cstring>
#include <iterator>
#include <memory>
#include <ranges>
#include <span>
#include <type_traits>
#include <utility>

namespace sim {

void chunks_1(std::vector<Chunk> &);
void chunks_2(std::vector<Chunk> &);
void chunks_3(std::vector<Chunk> &);
void chunks_4(std::vector<Chunk> &);

#if CHUNK_GROUP == 0
unsigned chunk_exception = 0;

const std::vector<Chunk> & chunks() {
	static const std::vector<Chunk> v = [] {
		std::vector<Chunk> r;
		chunks_1(r);
		chunks_2(r);
		chunks_3(r);
		chunks_4(r);
		return r;
	}();
	return v;
}
#else
namespace {

// multi-pass, neither contiguous nor sized
template <typename T> struct Chain {
	const T * data;
	size_t n, piece;
	struct iterator {
		using iterator_category = std::forward_iterator_tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = const T *;
		using reference = const T &;
		const T * base{nullptr};
		size_t piece_no{0}, in_piece{0}, piece{1};
		const T & operator*() const { return base[piece_no * piece + in_piece]; }
		iterator & operator++() {
			if (++in_piece == piece) in_piece = 0, ++piece_no;
			return *this;
		}
		iterator operator++(int) {
			auto c = *this;
			++*this;
			return c;
		}
		friend bool operator==(const iterator &, const iterator &) = default;
	};
	iterator begin() const { return {data, 0, 0, piece}; }
	iterator end() const { return {data, n / piece, n % piece, piece}; }
};
// a container that lives inside the view and looks after its memory
template <typename T> struct Owned {
	T elements[owned_max]{};
	size_t n{0};
	Owned() = default;
	Owned(const Owned & o) noexcept: n{o.n} { std::copy_n(o.elements, owned_max, elements); }
	Owned(Owned && o) noexcept: n{o.n} {
		std::copy_n(o.elements, owned_max, elements);
		memset(static_cast<void *>(o.elements), 0xDB, sizeof elements);
		o.n = 0;
	}
	Owned & operator=(const Owned &) = delete;
	~Owned() {
		memset(static_cast<void *>(elements), 0xDD, sizeof elements);
		asm volatile("" : : "r"(elements) : "memory");
	}
	const T * data() const { return elements; }
	const T * begin() const { return elements; }
	const T * end() const { return elements + n; }
	size_t size() const { return n; }
};
// single pass: all copies share the position
template <typename T> struct Tape {
	const T * data;
	size_t n, at, throws_at, reads;
	void need() const {
		if (at == throws_at) raise(chunk_exception);
	}
};
template <typename T> struct TapeIt {
	using iterator_category = std::input_iterator_tag;
	using iterator_concept = std::input_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = const T *;
	using reference = T;
	Tape<T> * t{nullptr};
	T operator*() const {
		t->need();
		++t->reads;
		return t->data[t->at];
	}
	TapeIt & operator++() {
		t->need();
		++t->at;
		return *this;
	}
	void operator++(int) { ++*this; }
	friend bool operator==(const TapeIt & a, std::default_sentinel_t) {
		a.t->need();
		return a.t->at == a.t->n;
	}
};

template <typename R> ChunkValue value(const R & r) { return {static_cast<uint64_t>(r.value), static_cast<unsigned>(r.missing_bits), r.is_padding()}; }

template <typename T, size_t B, bool P, unsigned Source> auto make_view(const ElemBlob * b) {
	const T * p = static_cast<const T *>(b->data);
	if constexpr (Source == cs_span) return std::span<const T>(p, b->n) | cthash::chunk_of_bits<B, P>;
	else if constexpr (Source == cs_chain) return Chain<T>{p, b->n, b->piece} | cthash::chunk_of_bits<B, P>;
	else {
		Owned<T> o{};
		o.n = b->n < owned_max ? b->n : owned_max;
		memcpy(static_cast<void *>(o.elements), p, o.n * sizeof(T));
		return std::move(o) | cthash::chunk_of_bits<B, P>;
	}
}

template <typename T, size_t B, bool P, unsigned Source> Chunk chunk(const char * type) {
	using V = decltype(make_view<T, B, P, Source>(nullptr));
	using It = decltype(std::declval<V &>().begin());
	using CIt = decltype(std::declval<const V &>().begin());
	struct Holder {
		bool constant;
		alignas(16) unsigned char raw[sizeof(It) > sizeof(CIt) ? sizeof(It) : sizeof(CIt)];
		It & it() { return *reinterpret_cast<It *>(raw); }
		const It & it() const { return *reinterpret_cast<const It *>(raw); }
		CIt & cit() { return *reinterpret_cast<CIt *>(raw); }
		const CIt & cit() const { return *reinterpret_cast<const CIt *>(raw); }
	};
	Chunk c{};
	c.type = type;
	c.width = sizeof(T) * 8;
	c.bits = B;
	c.pad = P;
	c.source = Source;
	c.view_size = sizeof(V);
	c.iter_size = sizeof(Holder);
	c.make = [](void * mem, const ElemBlob * b) { ::new (mem) V(make_view<T, B, P, Source>(b)); };
	c.copy = [](void * mem, const void * from) { ::new (mem) V(*static_cast<const V *>(from)); };
	c.destroy = [](void * mem) { static_cast<V *>(mem)->~V(); };
	c.sized = requires(const V & x) { x.size(); };
	c.size = [](const void * m) -> size_t {
		if constexpr (requires(const V & x) { x.size(); }) return static_cast<const V *>(m)->size();
		else return 0;
	};
	c.begin = [](void * m, void * it, bool constant) {
		Holder * h = ::new (it) Holder;
		h->constant = constant;
		if (constant) ::new (h->raw) CIt(static_cast<const V *>(m)->begin());
		else ::new (h->raw) It(static_cast<V *>(m)->begin());
	};
	c.it_copy = [](void * it, const void * from) {
		const Holder * f = static_cast<const Holder *>(from);
		Holder * h = ::new (it) Holder;
		h->constant = f->constant;
		if (f->constant) ::new (h->raw) CIt(f->cit());
		else ::new (h->raw) It(f->it());
	};
	c.it_assign = [](void * it, const void * from) {
		Holder * h = static_cast<Holder *>(it);
		const Holder * f = static_cast<const Holder *>(from);
		if (f->constant) h->cit() = f->cit();
		else h->it() = f->it();
	};
	c.same_kind = [](const void * a, const void * b) { return static_cast<const Holder *>(a)->constant == static_cast<const Holder *>(b)->constant; };
	c.it_destroy = [](void * it) {
		Holder * h = static_cast<Holder *>(it);
		if (h->constant) std::destroy_at(&h->cit());
		else std::destroy_at(&h->it());
	};
	c.deref = [](const void * it) {
		const Holder * h = static_cast<const Holder *>(it);
		return h->constant ? value(*h->cit()) : value(*h->it());
	};
	c.inc = [](void * it) {
		Holder * h = static_cast<Holder *>(it);
		if (h->constant) ++h->cit();
		else ++h->it();
	};
	c.postinc = [](void * it) {
		Holder * h = static_cast<Holder *>(it);
		return h->constant ? value(*(h->cit()++)) : value(*(h->it()++));
	};
	c.at_end = [](const void * m, const void * it) -> bool {
		const Holder * h = static_cast<const Holder *>(it);
		const V & x = *static_cast<const V *>(m);
		return h->constant ? h->cit() == x.end() : h->it() == x.end();
	};
	if constexpr (Source == cs_span) c.stream = [](const ElemBlob * b, size_t throws_at, size_t limit, ChunkValue * out, size_t * got, size_t * reads) {
		Tape<T> tape{static_cast<const T *>(b->data), b->n, 0, throws_at, 0};
		struct Tell {
			Tape<T> & t;
			size_t * reads;
			~Tell() { *reads = t.at; }
		} tell{tape, reads};
		auto v = std::ranges::subrange(TapeIt<T>{&tape}, std::default_sentinel) | cthash::chunk_of_bits<B, P>;
		auto it = v.begin();
		const auto end = v.end();
		while (*got != limit && !(it == end)) {
			out[*got] = value(*it);
			++*got;
			++it;
		}
	};
	return c;
}

template <size_t... Bs> struct widths { };
template <typename T, unsigned Source, size_t... Bs> void add(std::vector<Chunk> & r, const char * type, widths<Bs...>) {
	((r.push_back(chunk<T, Bs, false, Source>(type)), r.push_back(chunk<T, Bs, true, Source>(type))), ...);
}
using w8 = widths<1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 24, 28, 32, 40, 48, 56, 64>;
using w8few = widths<1, 3, 5, 6, 7, 8, 12, 14, 28, 40>;
using w16 = widths<1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64>;
using w32 = widths<1, 2, 4, 8, 16, 32, 64>;
using w64 = widths<1, 2, 4, 8, 16, 32, 64>;

} // namespace
#endif

#if CHUNK_GROUP == 1
void chunks_1(std::vector<Chunk> & r) {
	add<uint8_t, cs_span>(r, "uint8_t", w8{});
	add<uint8_t, cs_chain>(r, "uint8_t", w8few{});
}
#elif CHUNK_GROUP == 2
void chunks_2(std::vector<Chunk> & r) {
	add<int8_t, cs_span>(r, "int8_t", w8few{});
	add<int8_t, cs_owned>(r, "int8_t", w8few{});
	add<std::byte, cs_owned>(r, "std::byte", w8few{});
	add<char, cs_chain>(r, "char", widths<3, 5, 6, 12>{});
}
#elif CHUNK_GROUP == 3
void chunks_3(std::vector<Chunk> & r) {
	add<uint16_t, cs_span>(r, "uint16_t", w16{});
	add<uint16_t, cs_chain>(r, "uint16_t", widths<3, 6, 12, 24>{});
	add<int16_t, cs_owned>(r, "int16_t", w16{});
}
#elif CHUNK_GROUP == 4
void chunks_4(std::vector<Chunk> & r) {
	add<uint32_t, cs_span>(r, "uint32_t", w32{});
	add<int32_t, cs_owned>(r, "int32_t", w32{});
	add<uint64_t, cs_span>(r, "uint64_t", w64{});
	add<int64_t, cs_chain>(r, "int64_t", w64{});
}
#endif

} // namespace sim
