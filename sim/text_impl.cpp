// TEXT_GROUP 1..4: digests; 5..8: views; 9: registry
#ifdef SIM_SINGLE
#include <cthash-single-header.hpp>
#else
#include <cthash/cthash.hpp>
#endif
#include "text.hpp"
#include <cstring>
#include <format>
#include <iterator>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

namespace sim {

void digests_1(std::vector<Digest> &);
void digests_2(std::vector<Digest> &);
void digests_3(std::vector<Digest> &);
void digests_4(std::vector<Digest> &);
void views_1(std::vector<View> &);
void views_2(std::vector<View> &);
void views_3(std::vector<View> &);
void views_4(std::vector<View> &);

namespace {

namespace ce = cthash::encoding;
template <typename... Es> struct list { };
// same order as ref::encodings
using encodings = list<ce::base64, ce::base64_no_padding, ce::base64url, ce::base32, ce::base32_no_padding, ce::z_base32, ce::base16, ce::base16_uppercase, ce::base8, ce::base4, ce::base2>;

template <typename... Es, typename F> void with_enc(list<Es...>, unsigned enc, F && f) {
	unsigned i = 0;
	((i++ == enc % sizeof...(Es) ? (void)f.template operator()<Es>() : (void)0), ...);
}

template <typename CharT, typename S> size_t put(const S & s, uint32_t * out, size_t cap = max_text) {
	size_t n = 0;
	for (const CharT c: s) {
		if (n == cap) break;
		out[n++] = static_cast<uint32_t>(static_cast<std::make_unsigned_t<CharT>>(c));
	}
	return n;
}

template <typename CharT> struct SinkIt {
	using iterator_category = std::output_iterator_tag;
	using value_type = void;
	using difference_type = std::ptrdiff_t;
	using pointer = void;
	using reference = void;
	CharSink * s{nullptr};
	SinkIt & operator=(CharT c) {
		s->put(s, static_cast<uint32_t>(static_cast<std::make_unsigned_t<CharT>>(c)));
		return *this;
	}
	SinkIt & operator*() { return *this; }
	SinkIt & operator++() { return *this; }
	SinkIt operator++(int) { return *this; }
};

// "{}" or "{:name}"
template <typename CharT> struct Spec {
	CharT buf[40];
	size_t n{0};
	explicit Spec(unsigned enc) {
		static const char * const alt[] = {"", "", "base64_url", "", "", "zbase32", "hexdec", "HEXDEC", "octal", "", "binary"};
		buf[n++] = '{';
		if (enc != default_enc) {
			buf[n++] = ':';
			const char * name = ref::encodings[enc % ref::encodings_count].name;
			if (enc / ref::encodings_count % 2 && *alt[enc % ref::encodings_count]) name = alt[enc % ref::encodings_count];
			for (const char * p = name; *p; ++p) buf[n++] = static_cast<CharT>(*p);
		}
		buf[n++] = '}';
	}
	std::basic_string_view<CharT> view() const { return {buf, n}; }
};

template <typename CharT, typename V> auto do_format(const V & v, std::basic_string_view<CharT> spec) {
	if constexpr (std::is_same_v<CharT, char>) return std::vformat(spec, std::make_format_args(v));
	else return std::vformat(spec, std::make_wformat_args(v));
}
template <typename CharT, typename It, typename V> It do_format_to(It it, const V & v, std::basic_string_view<CharT> spec) {
	if constexpr (std::is_same_v<CharT, char>) return std::vformat_to(std::move(it), spec, std::make_format_args(v));
	else return std::vformat_to(std::move(it), spec, std::make_wformat_args(v));
}

// the same field several times with '|' between
template <typename CharT, typename It, typename V> void do_format_fields(It it, const V & v, std::basic_string_view<CharT> field, unsigned times) {
	CharT spec[200];
	size_t n = 0;
	for (unsigned i = 0; i != times; ++i) {
		if (i) spec[n++] = CharT('|');
		for (const CharT c: field) spec[n++] = c;
	}
	const auto s = std::basic_string_view<CharT>(spec, n);
	if constexpr (std::is_same_v<CharT, char>) std::vformat_to(std::move(it), s, std::make_format_args(v, v, v, v));
	else std::vformat_to(std::move(it), s, std::make_wformat_args(v, v, v, v));
}

template <typename F> void with_char(unsigned ck, F && f) {
	switch (ck % char_kinds) {
		case c_wchar: f.template operator()<wchar_t>(); break;
		case c_char8: f.template operator()<char8_t>(); break;
		case c_char16: f.template operator()<char16_t>(); break;
		case c_char32: f.template operator()<char32_t>(); break;
		default: f.template operator()<char>(); break;
	}
}
template <typename F> void with_io_char(unsigned ck, F && f) {
	if (ck % char_kinds == c_wchar) f.template operator()<wchar_t>();
	else f.template operator()<char>();
}

template <typename V, bool WideToo> Digest digest(const char * name) {
	constexpr size_t N = sizeof(V);
	Digest d{};
	d.name = name;
	d.bytes = N;
	d.object_size = sizeof(V);
	d.object_align = alignof(V);
	d.load = [](void * mem, const uint8_t * p) {
		V * v = ::new (mem) V();
		for (size_t i = 0; i != N; ++i) (*v)[i] = static_cast<std::byte>(p[i]);
	};
	d.get = [](const void * m, uint8_t * p) {
		const V & v = *static_cast<const V *>(m);
		if (v.size() != N) __builtin_trap();
		for (size_t i = 0; i != N; ++i) p[i] = static_cast<uint8_t>(v[i]);
	};
	d.eq = [](const void * a, const void * b) -> bool { return *static_cast<const V *>(a) == *static_cast<const V *>(b); };
	d.cmp = [](const void * a, const void * b) {
		const auto r = *static_cast<const V *>(a) <=> *static_cast<const V *>(b);
		return r < 0 ? -1 : r > 0 ? 1 : 0;
	};
	d.relations = [](const void * pa, const void * pb) {
		const V & a = *static_cast<const V *>(pa);
		const V & b = *static_cast<const V *>(pb);
		return unsigned(a < b) | unsigned(a <= b) << 1 | unsigned(a > b) << 2 | unsigned(a >= b) << 3 | unsigned(a == b) << 4 | unsigned(a != b) << 5;
	};
	d.parse = [](void * mem, const void * text, unsigned ck) {
		with_char(ck, [&]<typename C>() {
			using lit = const C(&)[N * 2 + 1];
			if (ck / char_kinds % 2) {
				cthash::fixed_string<C, N * 2> f{nullptr};
				memcpy(f.data(), text, N * 2 * sizeof(C));
				::new (mem) V(f);
				return;
			}
			::new (mem) V(reinterpret_cast<lit>(*static_cast<const C *>(text)));
		});
	};
	d.to_string = [](const void * m, unsigned enc, unsigned ck, uint32_t * out) -> size_t {
		const V & v = *static_cast<const V *>(m);
		if (enc == default_enc) return put<char>(to_string(v), out);
		size_t n = 0;
		with_enc(encodings{}, enc, [&]<typename E>() {
			if constexpr (WideToo) with_char(ck, [&]<typename C>() { n = put<C>(to_string<E, C>(v), out); });
			else with_io_char(ck, [&]<typename C>() { n = put<C>(to_string<E, C>(v), out); });
		});
		return n;
	};
	d.to_fixed = [](const void * m, unsigned enc, unsigned ck, uint32_t * out) -> size_t {
		const V & v = *static_cast<const V *>(m);
		if (enc == default_enc) return put<char>(to_fixed_string(v), out);
		size_t n = 0;
		with_enc(encodings{}, enc, [&]<typename E>() {
			if constexpr (WideToo) with_char(ck, [&]<typename C>() { n = put<C>(to_fixed_string<E, C>(v), out); });
			else with_io_char(ck, [&]<typename C>() { n = put<C>(to_fixed_string<E, C>(v), out); });
		});
		return n;
	};
	d.format = [](const void * m, unsigned enc, unsigned ck, uint32_t * out) -> size_t {
		const V & v = *static_cast<const V *>(m);
		size_t n = 0;
		with_io_char(ck, [&]<typename C>() { n = put<C>(do_format<C>(v, Spec<C>(enc).view()), out); });
		return n;
	};
	d.format_named = [](const void * m, const uint32_t * field, size_t n, unsigned ck, uint32_t * out) -> size_t {
		const V & v = *static_cast<const V *>(m);
		size_t r = 0;
		with_io_char(ck, [&]<typename C>() {
			C text[120];
			for (size_t i = 0; i != n; ++i) text[i] = static_cast<C>(field[i]);
			r = put<C>(do_format<C>(v, std::basic_string_view<C>(text, n)), out);
		});
		return r;
	};
	d.format_to_buffer = [](const void * m, unsigned enc, unsigned ck, void * out) -> size_t {
		const V & v = *static_cast<const V *>(m);
		size_t n = 0;
		with_io_char(ck, [&]<typename C>() {
			C * o = static_cast<C *>(out);
			n = static_cast<size_t>(do_format_to<C>(o, v, Spec<C>(enc).view()) - o);
		});
		return n;
	};
	d.format_to_sink = [](const void * m, unsigned enc, unsigned ck, CharSink * s, unsigned times) {
		const V & v = *static_cast<const V *>(m);
		with_io_char(ck, [&]<typename C>() { do_format_fields<C>(SinkIt<C>{s}, v, Spec<C>(enc).view(), times); });
	};
	d.print = [](const void * m, unsigned enc, std::ostream & os) {
		const V & v = *static_cast<const V *>(m);
		const void * r = nullptr;
		if (enc == default_enc) r = &(os << v);
		else with_enc(encodings{}, enc, [&]<typename E>() { r = &v.template print_into<E>(os); });
		return r == &os;
	};
	d.wprint = [](const void * m, unsigned enc, std::wostream & os) {
		const V & v = *static_cast<const V *>(m);
		const void * r = nullptr;
		if (enc == default_enc) r = &(os << v);
		else with_enc(encodings{}, enc, [&]<typename E>() { r = &v.template print_into<E>(os); });
		return r == &os;
	};
	d.slices = 4;
	d.slice_size = [](unsigned k) -> size_t {
		constexpr size_t s[] = {1, (N + 1) / 2, N > 1 ? N - 1 : 1, N};
		return s[k % 4];
	};
	d.prefix = [](const void * m, unsigned k, uint8_t * out) {
		const V & v = *static_cast<const V *>(m);
		size_t n = 0;
		auto w = [&](const auto & r) {
			for (const std::byte b: r) out[n++] = static_cast<uint8_t>(b);
		};
		switch (k % 4) {
			case 0: w(v.template prefix<1>()); break;
			case 1: w(v.template prefix<(N + 1) / 2>()); break;
			case 2: w(v.template prefix<(N > 1 ? N - 1 : 1)>()); break;
			case 3: w(v.template prefix<N>()); break;
		}
	};
	d.suffix = [](const void * m, unsigned k, uint8_t * out) {
		const V & v = *static_cast<const V *>(m);
		size_t n = 0;
		auto w = [&](const auto & r) {
			for (const std::byte b: r) out[n++] = static_cast<uint8_t>(b);
		};
		switch (k % 4) {
			case 0: w(v.template suffix<1>()); break;
			case 1: w(v.template suffix<(N + 1) / 2>()); break;
			case 2: w(v.template suffix<(N > 1 ? N - 1 : 1)>()); break;
			case 3: w(v.template suffix<N>()); break;
		}
	};
	return d;
}

// a multi-pass source that is neither contiguous nor sized: pieces of chain_piece bytes
struct Chain {
	const uint8_t * data;
	size_t n, piece;
	struct iterator {
		using iterator_category = std::forward_iterator_tag;
		using value_type = unsigned char;
		using difference_type = std::ptrdiff_t;
		using pointer = const unsigned char *;
		using reference = const unsigned char &;
		const uint8_t * base{nullptr};
		size_t piece_no{0}, in_piece{0}, piece{1};
		const unsigned char & operator*() const { return base[piece_no * piece + in_piece]; }
		iterator & operator++() {
			if (++in_piece == piece) {
				in_piece = 0;
				++piece_no;
			}
			return *this;
		}
		iterator operator++(int) {
			auto c = *this;
			++*this;
			return c;
		}
		friend bool operator==(const iterator &, const iterator &) = default;
	};
	iterator begin() const { return {data, 0, 0, piece}; }
	iterator end() const { return {data, n / piece, n % piece, piece}; }
};

// containers that live inside the view: a plain one, and one that looks after its memory as std::string does
struct PlainOwned {
	uint8_t bytes[owned_text_max];
	size_t n;
	const uint8_t * begin() const { return bytes; }
	const uint8_t * end() const { return bytes + n; }
	size_t size() const { return n; }
};
struct Owned {
	uint8_t bytes[owned_text_max]{};
	size_t n{0};
	Owned() = default;
	Owned(const Owned & o) noexcept: n{o.n} { memcpy(bytes, o.bytes, sizeof bytes); }
	Owned(Owned && o) noexcept: n{o.n} {
		memcpy(bytes, o.bytes, sizeof bytes);
		memset(o.bytes, 0xDB, sizeof o.bytes);
		o.n = 0;
	}
	Owned & operator=(Owned o) noexcept {
		n = o.n;
		memcpy(bytes, o.bytes, sizeof bytes);
		return *this;
	}
	~Owned() {
		memset(bytes, 0xDD, sizeof bytes);
		asm volatile("" : : "r"(bytes) : "memory");
	}
	const uint8_t * data() const { return bytes; }
	const uint8_t * begin() const { return bytes; }
	const uint8_t * end() const { return bytes + n; }
	size_t size() const { return n; }
};

template <typename E, typename C, typename R, typename Make> View view(unsigned enc, unsigned source, unsigned ck, Make) {
	using V = decltype(Make{}(std::declval<const Blob *>()));
	using It = decltype(std::declval<V &>().begin());
	using CIt = decltype(std::declval<const V &>().begin());
	struct Holder {
		bool constant;
		alignas(16) unsigned char raw[sizeof(It) > sizeof(CIt) ? sizeof(It) : sizeof(CIt)];
		It & it() { return *reinterpret_cast<It *>(raw); }
		const It & it() const { return *reinterpret_cast<const It *>(raw); }
		CIt & cit() { return *reinterpret_cast<CIt *>(raw); }
		const CIt & cit() const { return *reinterpret_cast<const CIt *>(raw); }
	};
	View v{};
	v.enc = enc;
	v.source = source;
	v.ck = ck;
	v.view_size = sizeof(V);
	v.iter_size = sizeof(Holder);
	v.make = [](void * mem, const Blob * d) { ::new (mem) V(Make{}(d)); };
	v.copy = [](void * mem, const void * from) { ::new (mem) V(*static_cast<const V *>(from)); };
	v.move = [](void * mem, void * from) { ::new (mem) V(std::move(*static_cast<V *>(from))); };
	v.destroy = [](void * mem) { static_cast<V *>(mem)->~V(); };
	v.sized = requires(const V & x) { x.size(); };
	v.pads = v.sized && requires(std::basic_ostream<C> & s, const V & x) { s << x; };
	v.size = [](const void * m) -> size_t {
		if constexpr (requires(const V & x) { x.size(); }) return static_cast<const V *>(m)->size();
		else return 0;
	};
	v.begin = [](void * m, void * it, bool constant) {
		Holder * h = ::new (it) Holder;
		h->constant = constant;
		if (constant) ::new (h->raw) CIt(static_cast<const V *>(m)->begin());
		else ::new (h->raw) It(static_cast<V *>(m)->begin());
	};
	v.it_copy = [](void * it, const void * from) {
		const Holder * f = static_cast<const Holder *>(from);
		Holder * h = ::new (it) Holder;
		h->constant = f->constant;
		if (f->constant) ::new (h->raw) CIt(f->cit());
		else ::new (h->raw) It(f->it());
	};
	v.it_assign = [](void * it, const void * from) {
		Holder * h = static_cast<Holder *>(it);
		const Holder * f = static_cast<const Holder *>(from);
		if (f->constant) h->cit() = f->cit();
		else h->it() = f->it();
	};
	v.same_kind = [](const void * a, const void * b) { return static_cast<const Holder *>(a)->constant == static_cast<const Holder *>(b)->constant; };
	v.it_destroy = [](void * it) {
		Holder * h = static_cast<Holder *>(it);
		if (h->constant) std::destroy_at(&h->cit());
		else std::destroy_at(&h->it());
	};
	auto cast = [](C c) { return static_cast<uint32_t>(static_cast<std::make_unsigned_t<C>>(c)); };
	(void)cast;
	v.deref = [](const void * it) -> uint32_t {
		const Holder * h = static_cast<const Holder *>(it);
		return static_cast<uint32_t>(static_cast<std::make_unsigned_t<C>>(h->constant ? *h->cit() : *h->it()));
	};
	v.inc = [](void * it) {
		Holder * h = static_cast<Holder *>(it);
		if (h->constant) ++h->cit();
		else ++h->it();
	};
	v.postinc = [](void * it) -> uint32_t {
		Holder * h = static_cast<Holder *>(it);
		return static_cast<uint32_t>(static_cast<std::make_unsigned_t<C>>(h->constant ? *(h->cit()++) : *(h->it()++)));
	};
	v.at_end = [](const void * m, const void * it) -> bool {
		const Holder * h = static_cast<const Holder *>(it);
		const V & x = *static_cast<const V *>(m);
		return h->constant ? h->cit() == x.end() : h->it() == x.end();
	};
	if constexpr (requires(const It & i, const CIt & c) { i == i; c == c; }) v.it_equal = [](const void * a, const void * b) -> bool {
		const Holder * x = static_cast<const Holder *>(a);
		const Holder * y = static_cast<const Holder *>(b);
		return x->constant ? x->cit() == y->cit() : x->it() == y->it();
	};
	v.to_string = [](const void * m, uint32_t * out, size_t cap) -> size_t {
		const V & x = *static_cast<const V *>(m);
		if constexpr (requires { x.to_string(); }) return put<C>(x.to_string(), out, cap);
		else return put<C>(x, out, cap);
	};
	v.range_for = [](const void * m, uint32_t * out, size_t cap) -> size_t {
		const V & x = *static_cast<const V *>(m);
		return put<C>(x, out, cap);
	};
	v.print = [](const void * m, std::ostream * o, std::wostream * w) -> bool {
		const V & x = *static_cast<const V *>(m);
		// the single header has no printing of views: a caller copies
		if constexpr (!requires(std::basic_ostream<C> & s) { s << x; }) {
			if (w) w->width(0);
			if (o) o->width(0);
			if constexpr (std::is_same_v<C, wchar_t>) std::ranges::copy(x.begin(), x.end(), std::ostream_iterator<C, C>(*w));
			else std::ranges::copy(x.begin(), x.end(), std::ostream_iterator<C, C>(*o));
			return true;
		} else
		if constexpr (std::is_same_v<C, wchar_t>) return &(*w << x) == w;
		else return &(*o << x) == o;
	};
	v.format = [](const void * m, uint32_t * out, size_t cap) -> size_t {
		const V & x = *static_cast<const V *>(m);
		static constexpr C spec[] = {C('{'), C('}'), C(0)};
		if constexpr (!std::formattable<V, C>) return put<C>(x, out, cap);
		else return put<C>(do_format<C>(x, std::basic_string_view<C>(spec, 2)), out, cap);
	};
	v.format_to_sink = [](const void * m, CharSink * s, unsigned times) {
		const V & x = *static_cast<const V *>(m);
		static constexpr C spec[] = {C('{'), C('}'), C(0)};
		if constexpr (!std::formattable<V, C>) {
			auto it = SinkIt<C>{s};
			for (unsigned i = 0; i != times; ++i) {
				if (i) *it++ = C('|');
				it = std::ranges::copy(x.begin(), x.end(), it).out;
			}
		} else do_format_fields<C>(SinkIt<C>{s}, x, std::basic_string_view<C>(spec, 2), times);
	};
	return v;
}

template <typename E> void all_views(std::vector<View> & r, unsigned enc) {
	auto span = [&]<typename T>(unsigned source) {
		r.push_back(view<E, char, int>(enc, source, c_char, [](const Blob * b) { return std::span<const T>(reinterpret_cast<const T *>(b->data), b->n) | cthash::encode_to<E, char>; }));
	};
	span.template operator()<unsigned char>(src_uchar);
	span.template operator()<std::byte>(src_byte);
	span.template operator()<signed char>(src_schar);
#ifndef FEW_VIEWS
	span.template operator()<char>(src_char);
	r.push_back(view<E, char, int>(enc, src_blob_ref, c_char, [](const Blob * b) { return *b | cthash::encode_to<E, char>; }));
#endif
	r.push_back(view<E, wchar_t, int>(enc, src_uchar, c_wchar, [](const Blob * b) { return std::span<const unsigned char>(b->data, b->n) | cthash::encode_to<E, wchar_t>; }));
	auto owned = [&]<typename O, typename C>(unsigned ck) {
		r.push_back(view<E, C, int>(enc, src_owned, ck, [](const Blob * b) {
			O o{};
			o.n = b->n < owned_text_max ? b->n : owned_text_max;
			if (o.n) memcpy(o.bytes, b->data, o.n);
			return std::move(o) | cthash::encode_to<E, C>;
		}));
	};
	owned.template operator()<Owned, char>(c_char);
#ifndef FEW_VIEWS
	owned.template operator()<PlainOwned, wchar_t>(c_wchar);
#endif
	r.push_back(view<E, char, int>(enc, src_chain, c_char, [](const Blob * b) { return Chain{b->data, b->n, chain_piece} | cthash::encode_to<E, char>; }));
}

} // namespace

#if TEXT_GROUP == 1
void digests_1(std::vector<Digest> & r) {
	r.push_back(digest<cthash::sha256_value, true>("sha256_value"));
	r.push_back(digest<cthash::hash_value<1>, false>("hash_value<1>"));
}
#elif TEXT_GROUP == 2
void digests_2(std::vector<Digest> & r) {
	r.push_back(digest<cthash::xxhash64_value, false>("xxhash64_value"));
	r.push_back(digest<cthash::hash_value<5>, true>("hash_value<5>"));
	r.push_back(digest<cthash::hash_value<33>, false>("hash_value<33>"));
}
#elif TEXT_GROUP == 3
void digests_3(std::vector<Digest> & r) {
	r.push_back(digest<cthash::sha512_value, false>("sha512_value"));
	r.push_back(digest<cthash::sha3_224_value, false>("sha3_224_value"));
	r.push_back(digest<cthash::shake128_value<136>, false>("shake128_value<136>"));
}
#elif TEXT_GROUP == 4
void digests_4(std::vector<Digest> & r) {
	r.push_back(digest<cthash::hash_value<20>, false>("hash_value<20>"));
	r.push_back(digest<cthash::xxhash32_value, false>("xxhash32_value"));
	r.push_back(digest<cthash::sha384_value, false>("sha384_value"));
	r.push_back(digest<cthash::shake256_value<1024>, false>("shake256_value<1024>"));
}
#elif TEXT_GROUP == 5
void views_1(std::vector<View> & r) {
	all_views<ce::base64>(r, 0);
	all_views<ce::base64_no_padding>(r, 1);
	all_views<ce::base64url>(r, 2);
}
#elif TEXT_GROUP == 6
void views_2(std::vector<View> & r) {
	all_views<ce::base32>(r, 3);
	all_views<ce::base32_no_padding>(r, 4);
	all_views<ce::z_base32>(r, 5);
}
#elif TEXT_GROUP == 7
void views_3(std::vector<View> & r) {
	all_views<ce::base16>(r, 6);
	all_views<ce::base16_uppercase>(r, 7);
	all_views<ce::base8>(r, 8);
}
#elif TEXT_GROUP == 8
void views_4(std::vector<View> & r) {
	all_views<ce::base4>(r, 9);
	all_views<ce::base2>(r, 10);
}
#elif TEXT_GROUP == 9
size_t chain_piece = 3;

const std::vector<Digest> & digests() {
	static const std::vector<Digest> v = [] {
		std::vector<Digest> r;
		digests_1(r);
		digests_2(r);
		digests_3(r);
		digests_4(r);
		return r;
	}();
	return v;
}
const std::vector<View> & views() {
	static const std::vector<View> v = [] {
		std::vector<View> r;
		views_1(r);
		views_2(r);
		views_3(r);
		views_4(r);
		return r;
	}();
	return v;
}

size_t encode_stream(unsigned enc, std::streambuf * sb, uint32_t * out, size_t limit) {
	size_t n = 0;
	with_enc(encodings{}, enc, [&]<typename E>() {
		auto text = std::ranges::subrange(std::istreambuf_iterator<char>(sb), std::istreambuf_iterator<char>()) | cthash::encode_to<E, char>;
		auto it = text.begin();
		const auto end = text.end();
		while (it != end && n != limit) {
			out[n++] = static_cast<unsigned char>(*it);
			++it;
		}
	});
	return n;
}

namespace {
	// characters of a name as they come in, one by one; the source may fail
	struct Incoming {
		const char * p;
		size_t n, throws_at;
		struct It {
			using value_type = char;
			using difference_type = std::ptrdiff_t;
			using iterator_concept = std::forward_iterator_tag;
			const Incoming * in{nullptr};
			size_t at{0};
			char operator*() const {
				if (at >= in->throws_at) throw std::length_error("name source");
				return in->p[at];
			}
			It & operator++() {
				++at;
				return *this;
			}
			It operator++(int) {
				It r = *this;
				++at;
				return r;
			}
			bool operator==(const It & o) const { return at == o.at; }
		};
		It begin() const { return {this, 0}; }
		It end() const { return {this, n}; }
	};
	using runtime = cthash::runtime_encoding;
	static_assert(sizeof(runtime) <= sizeof(Selected::mem) && std::is_trivially_copyable_v<runtime>);
} // namespace
void select_named(Selected & s, unsigned form, const uint32_t * name, size_t n, size_t throws_at) {
	auto store = [&](const auto & enc, size_t consumed) {
		memcpy(s.mem, &enc, sizeof enc);
		s.consumed = consumed;
	};
	auto as = [&]<typename C>() {
		C text[120];
		for (size_t i = 0; i != n; ++i) text[i] = static_cast<C>(name[i]);
		const auto v = std::basic_string_view<C>(text, n);
		const auto r = cthash::select_runtime_encoding(v);
		store(r.encoding, static_cast<size_t>(r.iterator - v.begin()));
	};
	char text[120];
	for (size_t i = 0; i != n; ++i) text[i] = static_cast<char>(name[i]);
	switch (form % select_forms) {
		case c_char: as.template operator()<char>(); break;
		case c_wchar: as.template operator()<wchar_t>(); break;
		case c_char8: as.template operator()<char8_t>(); break;
		case c_char16: as.template operator()<char16_t>(); break;
		case c_char32: as.template operator()<char32_t>(); break;
		case 5: {
			const Incoming in{text, n, throws_at};
			const auto r = cthash::select_runtime_encoding(in);
			store(r.encoding, r.iterator.at);
			break;
		}
		default: store(runtime(std::string_view(text, n)), n);
	}
}
namespace {
	template <typename... Es> unsigned index_in(list<Es...>, const runtime & r) {
		return r.visit([&]<typename E>(E) {
			unsigned i = 0, found = 99;
			((std::is_same_v<E, Es> ? void(found = i) : void(), ++i), ...);
			return found;
		});
	}
} // namespace
unsigned selected_index(const Selected & s) {
	runtime r{cthash::encoding::base2{}};
	memcpy(&r, s.mem, sizeof r);
	return index_in(encodings{}, r);
}
size_t selected_encode(const Selected & s, const uint8_t * p, size_t n, uint32_t * out, size_t cap) {
	runtime r{cthash::encoding::base2{}};
	memcpy(&r, s.mem, sizeof r);
	return r.visit([&]<typename E>(E) { return put<char>(std::span<const unsigned char>(p, n) | cthash::encode_to<E, char>, out, cap); });
}

namespace {
	template <typename X, typename Y> ShakePair pair() {
		static constexpr auto load = [](auto & v, const uint8_t * p) {
			for (size_t i = 0; i != v.size(); ++i) v[i] = static_cast<std::byte>(p[i]);
		};
		ShakePair s{};
		s.a_bytes = sizeof(X);
		s.b_bytes = sizeof(Y);
		s.eq = [](const uint8_t * a, const uint8_t * b) -> bool {
			X x;
			Y y;
			load(x, a);
			load(y, b);
			const bool r = x == y;
			if (r == (x != y)) __builtin_trap();
			return r;
		};
		s.cmp = [](const uint8_t * a, const uint8_t * b) {
			X x;
			Y y;
			load(x, a);
			load(y, b);
			const auto r = x <=> y;
			if ((x < y) != (r < 0) || (x > y) != (r > 0)) __builtin_trap();
			return r < 0 ? -1 : r > 0 ? 1 : 0;
		};
		return s;
	}
	template <size_t N> using s1 = cthash::shake128_value<N>;
	template <size_t N> using s2 = cthash::shake256_value<N>;
} // namespace
const std::vector<ShakePair> & shake_pairs() {
	static const std::vector<ShakePair> v = [] {
		std::vector<ShakePair> r{pair<s1<64>, s1<128>>(), pair<s1<256>, s1<8>>(), pair<s1<128>, s1<512>>(), pair<s1<1344>, s1<256>>(), pair<s1<256>, s1<264>>(), pair<s1<256>, s1<256>>(),
			pair<s2<64>, s2<128>>(), pair<s2<512>, s2<8>>(), pair<s2<128>, s2<1024>>(), pair<s2<256>, s2<264>>(), pair<s2<512>, s2<512>>(),
			pair<s1<4096>, s1<1024>>(), pair<s1<2048>, s1<2048>>(), pair<s2<2048>, s2<1024>>(), pair<s2<4096>, s2<4096>>(), pair<s2<1096>, s2<1088>>(), pair<s1<1344>, s1<1352>>()};
		auto both = [&]<size_t A, size_t B> {
			r.push_back(pair<s1<A>, s1<B>>());
			r.push_back(pair<s1<B>, s1<A>>());
			r.push_back(pair<s2<A>, s2<B>>());
			r.push_back(pair<s2<B>, s2<A>>());
		};
		auto all = [&]<size_t... N>(std::index_sequence<N...>) {
			constexpr size_t bits[] = {8, 16, 24, 40, 56, 72, 96, 104, 120, 144, 160, 184, 200, 224, 248, 280, 320, 392, 488, 520, 776, 1000, 1080};
			(both.template operator()<bits[N], bits[N + 1]>(), ...);
			(both.template operator()<bits[N], bits[22]>(), ...);
		};
		all(std::make_index_sequence<22>{});
		return r;
	}();
	return v;
}
#endif

} // namespace sim
