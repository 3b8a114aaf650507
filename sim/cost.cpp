// C15: the work of every operation, counted in basic blocks and memory accesses of library code, stays proportional to what it
// was given, whatever happened before (history, deaths, failing heap, sinks and sources).
#include "alg.hpp"
#include "core.hpp"
#include "heap.hpp"
#include "hooks.hpp"
#include "raise.hpp"
#include "text.hpp"
#include <algorithm>
#include <cstdlib>
#include <memory>
#include <ostream>
#include <streambuf>

namespace sim {
namespace {

	enum Counter : unsigned { f_death, f_heap, f_sink, f_source, f_interleave, f_abandon, p_ops, p_long_history, p_large_fragment, p_many_small, p_many_digests, p_deep_position, p_long_view, p_copy_live, p_failed_call, c_count };

	const std::vector<Alg> & algs() {
		static const std::vector<Alg> v = [] {
			std::vector<Alg> r;
			register_sha2_32(r);
			register_sha2_64(r);
			register_sha512t(r);
			register_sha3(r);
			register_shake(r);
			register_xxh(r);
			return r;
		}();
		return v;
	}

	// At most constant + per_unit * units steps. Both are many times what the library needs: only work that grows
	// with something it must not grow with gets there.
	struct Limit {
		const char * what;
		uint64_t constant, per_unit;
	};
	enum Kind : unsigned { k_make, k_update, k_final, k_copy, k_size, k_oneshot, k_parse, k_compare, k_slice, k_to_string, k_fixed, k_format, k_buffer, k_print, k_view, k_view_size, k_begin, k_deref, k_inc, k_end, k_it_copy, k_whole, k_stream, k_long_output, kinds };
	const Limit limits[kinds] = {
		{"creating a hash object", 8000, 0},
		{"update", 40000, 450},
		{"final", 40000, 900},
		{"copying a hash object", 8000, 0},
		{"size()", 2000, 0},
		{"one-shot", 40000, 600},
		{"parsing", 1000, 60},
		{"comparing", 1000, 150},
		{"prefix or suffix", 1500, 200},
		{"to_string", 6000, 500},
		{"to_fixed_string", 3000, 350},
		{"format", 12000, 800},
		{"format into a buffer", 12000, 800},
		{"print", 8000, 600},
		{"creating a view", 1200, 40},
		{"size() of a view", 2000, 0},
		{"begin", 4000, 0},
		{"reading a character of a view", 2000, 0},
		{"advancing a traversal", 4000, 0},
		{"comparing with the end", 2000, 0},
		{"copying an iterator", 2000, 0},
		{"rendering a view", 8000, 500},
		{"encoding a stream", 12000, 800},
		{"final with a long output", 40000, 80},
	};

	uint64_t calibration[kinds][2]; // largest constant part, largest per unit (in thousandths)
	const bool calibrate = getenv("SIM_COST_CALIBRATE") != nullptr;
	FILE * calfile() {
		static FILE * const f = fopen(getenv("SIM_COST_CALIBRATE"), "a");
		setvbuf(f, nullptr, _IOLBF, 4096);
		return f;
	}

	template <typename F> uint64_t steps_of(F && f) {
		hooks::bulk = 0;
		hooks::event = nullptr;
		hooks::countdown = INT64_MAX;
		struct Off {
			~Off() { hooks::active = false; }
		} off;
		hooks::active = true;
		f();
		hooks::active = false;
		return static_cast<uint64_t>(INT64_MAX - hooks::countdown) + hooks::bulk / 8;
	}
	template <typename F> uint64_t measured(Ctx & ctx, Kind k, const char * whose, uint64_t units, F && f) {
		uint64_t n = 0;
		bool failed = false;
		hooks::bulk = 0;
		const uint64_t granted = heap::granted;
		try {
			n = steps_of(f);
		} catch (...) {
			n = static_cast<uint64_t>(INT64_MAX - hooks::countdown) + hooks::bulk / 8;
			failed = true;
		}
		if (failed) ctx.count(p_failed_call);
		ctx.count(p_ops);
		ctx.ev(mix(k, n));
		n += (heap::granted - granted) / 8; // memory asked for is memory to be filled. Not recorded: libstdc++ allocates now and then at first use
		ctx.state(mix(mix(k, mix(static_cast<uint64_t>(whose[0]) * 256 + static_cast<uint64_t>(whose[1]), strlen(whose))), mix(units < 2 ? units : 64 - static_cast<unsigned>(__builtin_clzll(units)), failed)));
		if (calibrate) {
			if (units < 16) calibration[k][0] = std::max(calibration[k][0], n);
			else calibration[k][1] = std::max(calibration[k][1], n * 1000 / units);
		}
		if (!calibrate && n > limits[k].constant + limits[k].per_unit * units)
			ctx.fail("too-much-work", "%s (%s) with %llu bytes or characters took %llu steps (basic blocks and memory accesses), more than %llu + %llu for each", limits[k].what, whose, (unsigned long long)units, (unsigned long long)n,
			         (unsigned long long)limits[k].constant, (unsigned long long)limits[k].per_unit);
		return n;
	}

	uint8_t * arena() { // contents for fragments and sources
		static uint8_t * const a = [] {
			auto * p = static_cast<uint8_t *>(malloc(size_t{1} << 24));
			for (uint64_t i = 0; i != 1u << 21; ++i) {
				const uint64_t m = mix(i);
				memcpy(p + i * 8, &m, 8);
			}
			return p;
		}();
		return a;
	}

	struct Device : std::streambuf {
		uint64_t left{~0ull};
		unsigned kind{0};
		int_type overflow(int_type c) override {
			if (left == 0) {
				if (kind % 2) raise(kind / 2 % raise_kinds);
				return traits_type::eof();
			}
			if (left != ~0ull) --left;
			return traits_type::not_eof(c);
		}
	};
	struct WDevice : std::wstreambuf {
		int_type overflow(int_type c) override { return traits_type::not_eof(c); }
	};
	struct Source : std::streambuf {
		const uint8_t * p;
		size_t n, piece, at{0};
		uint64_t fails_at;
		char c[64];
		Source(const uint8_t * d, size_t l, size_t pc, uint64_t f): p{d}, n{l}, piece{pc}, fails_at{f} { }
		int_type underflow() override {
			if (at >= fails_at) throw std::runtime_error("source");
			if (at == n) return traits_type::eof();
			const size_t k = std::min({piece, n - at, sizeof c});
			memcpy(c, p + at, k);
			at += k;
			setg(c, c, c + k);
			return traits_type::to_int_type(c[0]);
		}
	};

	enum Op : unsigned { OPEN, FEED, MANY, READ, COPY, ONESHOT, DIE, DIGEST, DIGESTS, VIEW, WALK, STREAMENC, HEAPFAIL, op_count };
	const char * const op_names[] = {"OPEN", "FEED", "MANY", "READ", "COPY", "ONESHOT", "DIE", "DIGEST", "DIGESTS", "VIEW", "WALK", "STREAMENC", "HEAPFAIL"};

	constexpr unsigned slots = 4;
	struct Slot {
		const Alg * alg{nullptr};
		alignas(64) uint8_t mem[1024];
		uint64_t total{0}, ops{0}, steps{0};
		void drop() {
			if (alg) alg->destroy(mem);
			alg = nullptr;
		}
		~Slot() { drop(); }
	};
	struct Traversal {
		const View * v{nullptr};
		Blob blob{};
		size_t length{0}; // characters
		alignas(64) uint8_t mem[512];
		alignas(64) uint8_t it[512];
		uint64_t position{0};
		bool walking{false};
		void drop() {
			if (!v) return;
			if (walking) v->it_destroy(it);
			v->destroy(mem);
			v = nullptr;
			walking = false;
		}
		~Traversal() { drop(); }
	};

	const ref::Encoding & E(unsigned i) { return ref::encodings[i % ref::encodings_count]; }

	void exec(const Plan & plan, Ctx & ctx) {
		static uint32_t text[700000];
		static uint8_t out[long_outputs[0]];
		arena(), algs(), digests(), views();
		auto S = std::make_unique<Slot[]>(slots);
		auto T = std::make_unique<Traversal[]>(3);
		unsigned last = 99;
		uint64_t mask = 0, from = ~0ull;
		auto slot = [&](uint64_t i) -> Slot & {
			Slot & s = S[i % slots];
			if (last != i % slots) ctx.count(f_interleave);
			last = i % slots;
			if (!s.alg) {
				const Alg & a = algs()[i * 7 % algs().size()];
				measured(ctx, k_make, a.name, 0, [&] { a.make(s.mem, i); });
				s.alg = &a;
				s.total = s.ops = s.steps = 0;
			}
			return s;
		};
		auto feed = [&](Slot & s, uint64_t n, unsigned entry) {
			s.steps += measured(ctx, k_update, s.alg->name, n, [&] { s.alg->update(s.mem, entry % 5, arena() + (s.total * 13) % 4096, n); });
			s.total += n;
			++s.ops;
			// many small fragments: the whole stream stays proportional, too
			if (!calibrate && s.steps > 40000 + 450 * s.total + 500 * s.ops)
				ctx.fail("too-much-work", "%s: %llu fragments of together %llu bytes took %llu steps (basic blocks and memory accesses)", s.alg->name, (unsigned long long)s.ops, (unsigned long long)s.total, (unsigned long long)s.steps);
			if (calibrate && s.total > 2000) {
				static uint64_t worst = 0;
				const uint64_t w = s.steps * 100 / (s.total + s.ops * 4);
				if (w > worst) fprintf(calfile(), "stream %s ops %llu total %llu steps %llu\n", s.alg->name, (unsigned long long)s.ops, (unsigned long long)s.total, (unsigned long long)(worst = w, s.steps));
			}
			if (s.total > 1u << 20) ctx.count(p_long_history);
			if (n >= 65536) ctx.count(p_large_fragment);
		};
		auto digest = [&](const Step & st) {
			const Digest & D = digests()[st.a[0] % digests().size()];
			alignas(64) uint8_t mem[256], other[256];
			uint8_t raw[256];
			fill_content(st.a[1], 5, 0, raw, sizeof raw);
			D.load(mem, raw);
			raw[st.a[1] % D.bytes] ^= static_cast<uint8_t>(st.a[2] % 2);
			D.load(other, raw);
			const unsigned enc = st.a[3] % (ref::encodings_count + 1) == ref::encodings_count ? default_enc : static_cast<unsigned>(st.a[3] % (ref::encodings_count + 1));
			const unsigned ck = st.a[4] % 2;
			const uint64_t chars = ref::encode(enc == default_enc ? E(6) : E(enc), raw, D.bytes).size();
			switch (st.a[5] % 8) {
				case 0: measured(ctx, k_compare, D.name, D.bytes, [&] { D.eq(mem, other); D.cmp(mem, other); }); break;
				case 1: {
					const std::string hex = ref::encode(E(6), raw, D.bytes);
					measured(ctx, k_parse, D.name, hex.size(), [&] { D.parse(other, hex.c_str(), c_char); });
					break;
				}
				case 2:
					if (D.slices) measured(ctx, k_slice, D.name, D.bytes, [&] { D.prefix(mem, st.a[6] % D.slices, out); D.suffix(mem, st.a[6] % D.slices, out); });
					break;
				case 3: measured(ctx, k_to_string, D.name, chars, [&] { D.to_string(mem, enc, enc == default_enc ? 0 : ck, text); }); break;
				case 4: measured(ctx, k_fixed, D.name, chars, [&] { D.to_fixed(mem, enc, enc == default_enc ? 0 : ck, text); }); break;
				case 5: measured(ctx, k_format, D.name, chars, [&] { D.format(mem, enc, ck, text); }); break;
				case 6: measured(ctx, k_buffer, D.name, chars, [&] { D.format_to_buffer(mem, enc, ck, text); }); break;
				default: {
					Device dev;
					if (st.a[6] % 3) {
						dev.left = st.a[6] / 8 % 200;
						dev.kind = static_cast<unsigned>(st.a[6] / 1600);
						ctx.count(f_sink);
					}
					std::ostream os(&dev);
					if (st.a[6] % 5 == 0) os.exceptions(std::ios_base::badbit);
					measured(ctx, k_print, D.name, chars, [&] { D.print(mem, enc, os); });
				}
			}
		};
		for (auto & st: plan.steps) {
			heap::begin(mask, from);
			switch (st.op) {
				case HEAPFAIL: // from now on, until changed
					mask = st.a[0] % 3 == 1 ? st.a[1] : 0;
					from = st.a[0] % 3 == 2 ? st.a[1] % 8 : ~0ull;
					if (st.a[0] % 3) ctx.count(f_heap);
					break;
				case OPEN: {
					Slot & s = S[st.a[0] % slots];
					if (s.alg) ctx.count(f_abandon);
					s.drop();
					const Alg & a = algs()[st.a[1] % algs().size()];
					measured(ctx, k_make, a.name, 0, [&] { a.make(s.mem, st.a[2]); });
					s.alg = &a;
					s.total = s.ops = s.steps = 0;
					break;
				}
				case FEED: feed(slot(st.a[0]), st.a[1] % (1u << 23), static_cast<unsigned>(st.a[2])); break;
				case MANY: {
					Slot & s = slot(st.a[0]);
					ctx.count(p_many_small);
					for (uint64_t i = 0, n = st.a[1] % 4000; i != n; ++i) feed(s, st.a[2] % 40, static_cast<unsigned>(st.a[3]));
					break;
				}
				case READ: {
					Slot & s = slot(st.a[0]);
					if (s.alg->has_size) measured(ctx, k_size, s.alg->name, 0, [&] { s.alg->total(s.mem); });
					const unsigned form = static_cast<unsigned>(st.a[1]);
					if (s.alg->final_long && st.a[2] % 16 == 0) {
						alignas(64) uint8_t tmp[1024];
						s.alg->copy(tmp, s.mem);
						measured(ctx, k_long_output, s.alg->name, long_outputs[form % 2], [&] { s.alg->final_long(tmp, form, out); });
						s.alg->destroy(tmp);
						break;
					}
					const uint64_t units = s.alg->digest_bytes ? s.alg->digest_bytes : s.alg->final_size(form);
					alignas(64) uint8_t tmp[1024];
					measured(ctx, k_copy, s.alg->name, 0, [&] { s.alg->copy(tmp, s.mem); });
					measured(ctx, k_final, s.alg->name, units, [&] { s.alg->final(tmp, form, out); });
					s.alg->destroy(tmp);
					break;
				}
				case COPY: {
					Slot &a = slot(st.a[0]), &b = S[st.a[1] % slots];
					if (&a == &b) break;
					b.drop();
					ctx.count(p_copy_live);
					measured(ctx, k_copy, a.alg->name, 0, [&] { st.a[2] % 2 && a.alg->assign ? (a.alg->make(b.mem, 1), a.alg->assign(b.mem, a.mem)) : a.alg->copy(b.mem, a.mem); });
					b.alg = a.alg;
					b.total = a.total;
					b.ops = a.ops;
					b.steps = a.steps;
					break;
				}
				case ONESHOT: {
					const Alg & a = algs()[st.a[0] % algs().size()];
					if (!a.oneshot) break;
					const uint64_t n = st.a[1] % (1u << 20);
					measured(ctx, k_oneshot, a.name, n + a.digest_bytes, [&] { a.oneshot(static_cast<unsigned>(st.a[2]) % 5, arena(), n, st.a[3], out); });
					break;
				}
				case DIE: { // a task dies in the middle of an operation on an object of its own
					Slot & s = slot(st.a[0]);
					struct Job {
						const Alg * alg;
						uint8_t * mem;
						uint64_t n;
						unsigned kind;
					};
					alignas(64) static uint8_t tmp[1024];
					s.alg->copy(tmp, s.mem);
					Job j{s.alg, tmp, st.a[2] % 5000, static_cast<unsigned>(st.a[3] % 2)};
					const int r = hooks::run_doomed([](void * p) {
						auto & j = *static_cast<Job *>(p);
						if (j.kind) j.alg->final(j.mem, 0, out);
						else j.alg->update(j.mem, 0, arena(), j.n);
					}, &j, st.a[1] % 20000, 1);
					if (r == 1) ctx.count(f_death);
					break;
				}
				case DIGEST: digest(st); break;
				case DIGESTS: { // many times, with other contents each time
					ctx.count(p_many_digests);
					auto one = st;
					for (uint64_t n = st.a[7] % 24000; n; --n) {
						one.a[1] += 17;
						one.a[6] = mix(one.a[6]);
						digest(one);
					}
					break;
				}
				case VIEW: {
					Traversal & t = T[st.a[0] % 3];
					if (t.v) ctx.count(f_abandon);
					t.drop();
					const View & v = views()[st.a[1] % views().size()];
					size_t len = st.a[2] % 66000;
					if (v.source == src_owned) len = std::min(len, owned_text_max);
					t.blob = {arena() + st.a[3] % 4096, len};
					chain_piece = 1 + st.a[3] % 5;
					measured(ctx, k_view, E(v.enc).name, v.source == src_owned ? len : 0, [&] { v.make(t.mem, &t.blob); });
					t.v = &v;
					t.length = (len * 8 + E(v.enc).bits - 1) / E(v.enc).bits;
					if (len > 10000) ctx.count(p_long_view);
					if (v.sized) measured(ctx, k_view_size, E(v.enc).name, 0, [&] { v.size(t.mem); });
					if (st.a[4] % 4 == 0 && v.sized) measured(ctx, k_whole, E(v.enc).name, t.length, [&] { v.to_string(t.mem, text, 700000); });
					if (st.a[4] % 4 == 1) measured(ctx, k_whole, E(v.enc).name, t.length, [&] { v.range_for(t.mem, text, 700000); });
					break;
				}
				case WALK: {
					Traversal & t = T[st.a[0] % 3];
					if (!t.v) break;
					const View & v = *t.v;
					const char * name = E(v.enc).name;
					if (!t.walking || st.a[3] % 8 == 0) {
						if (t.walking) v.it_destroy(t.it);
						measured(ctx, k_begin, name, 0, [&] { v.begin(t.mem, t.it, st.a[2] % 2); });
						t.walking = true;
						t.position = 0;
					}
					for (uint64_t i = 0, n = st.a[1] % 20000; i != n; ++i) {
						bool end = false;
						if (i % 64 == 0) measured(ctx, k_end, name, 0, [&] { end = v.at_end(t.mem, t.it); });
						else end = v.at_end(t.mem, t.it);
						if (end) break;
						if (i % 16 == 0) measured(ctx, k_deref, name, 0, [&] { v.deref(t.it); });
						measured(ctx, k_inc, name, 0, [&] { v.inc(t.it); });
						++t.position;
					}
					if (t.position > 20000) ctx.count(p_deep_position);
					if (st.a[2] / 2 % 2) {
						alignas(64) uint8_t other[512];
						measured(ctx, k_it_copy, name, 0, [&] { v.it_copy(other, t.it); });
						if (!v.at_end(t.mem, other)) measured(ctx, k_inc, name, 0, [&] { v.inc(other); });
						v.it_destroy(other);
					}
					break;
				}
				case STREAMENC: {
					const unsigned enc = st.a[0] % ref::encodings_count;
					const size_t len = st.a[1] % 20000;
					Source src(arena(), len, 1 + st.a[2] % 64, st.a[3] % 3 ? ~0ull : st.a[3] % 20000);
					if (src.fails_at < len) ctx.count(f_source);
					measured(ctx, k_stream, E(enc).name, (len * 8 + E(enc).bits - 1) / E(enc).bits, [&] { encode_stream(enc, &src, text, 700000); });
					break;
				}
			}
		}
		heap::begin(0, ~0ull);
		if (calibrate)
			for (unsigned k = 0; k != kinds; ++k) fprintf(calfile(), "cal %-32s %8llu %10.3f\n", limits[k].what, (unsigned long long)calibration[k][0], static_cast<double>(calibration[k][1]) / 1000);
	}

	void gen(Rng & r, Plan & p, uint64_t, int) {
		if (r.chance(1, 60)) { // one long traversal, with others in between
			const uint64_t t = r.below(3);
			p.add(VIEW, t, r.below(views().size()), 20000 + r.below(46000), r.below(8192), r.below(4));
			for (unsigned i = 0, n = 2 + static_cast<unsigned>(r.below(6)); i != n; ++i) {
				p.add(WALK, t, r.chance(1, 3) ? 19999 : r.below(20000), r.below(4), 1 + r.below(7));
				if (r.chance(1, 3)) p.add(VIEW, (t + 1) % 3, r.below(views().size()), r.below(2000), r.below(8192), r.below(4));
				if (r.chance(1, 3)) p.add(WALK, (t + 1) % 3, r.below(600), r.below(4), r.below(16));
				if (r.chance(1, 4)) p.add(HEAPFAIL, r.below(3), r.below(64));
			}
			return;
		}
		const unsigned flavour = static_cast<unsigned>(r.below(4)); // streams, streams and text, text, long history
		for (unsigned i = 0, n = 3 + static_cast<unsigned>(r.below(14)); i != n; ++i) {
			const uint64_t slot = r.below(slots);
			if (flavour == 2 || (flavour == 1 && r.chance(1, 2))) {
				switch (r.below(9)) {
					case 0:
					case 1: p.add(VIEW, r.below(3), r.below(views().size()), r.chance(1, 6) ? r.below(66000) : r.below(1ull << r.below(13)), r.below(8192), r.below(4)); break;
					case 2:
					case 3: p.add(WALK, r.below(3), r.chance(1, 6) ? r.below(20000) : r.below(600), r.below(4), r.below(16)); break;
					case 4: p.add(STREAMENC, r.below(ref::encodings_count), r.chance(1, 6) ? r.below(20000) : r.below(500), r.below(64), r.next() % 60000); break;
					case 6:
						if (r.chance(1, 10)) p.add(DIGESTS, r.below(digests().size()), r.below(100000), r.below(2), r.below(64), r.below(2), r.below(8), r.next(), r.below(r.chance(1, 8) ? 24000 : 3000));
						break;
					case 5: p.add(HEAPFAIL, r.below(3), r.below(64)); break;
					default: p.add(DIGEST, r.below(digests().size()), r.below(100000), r.below(2), r.below(64), r.below(2), r.below(8), r.below(1u << 20)); break;
				}
				continue;
			}
			switch (r.below(10)) {
				case 0: p.add(OPEN, slot, r.below(algs().size()), r.next()); break;
				case 1: p.add(MANY, slot, r.below(flavour == 3 ? 4000 : 400), r.below(40), r.below(5)); break;
				case 2:
				case 3: p.add(READ, slot, r.below(16), r.below(128)); break;
				case 4: p.add(COPY, slot, r.below(slots), r.below(2)); break;
				case 5: p.add(ONESHOT, r.below(algs().size()), r.chance(1, 6) ? r.below(1u << 18) : r.below(3000), r.below(5), r.next()); break;
				case 6: p.add(DIE, slot, r.chance(1, 2) ? r.below(20000) : r.below(600), r.below(5000), r.below(2)); break;
				default: p.add(FEED, slot, r.chance(1, 40) && flavour == 3 ? r.below(1u << 21) : r.chance(1, 8) ? r.below(200000) : r.below(1ull << r.below(13)), r.below(5)); break;
			}
		}
	}

} // namespace

const char * const counter_names[] = {
	"fault:task-dies-inside-an-operation", "fault:allocations-refused-from-here", "fault:sink-fails", "fault:source-throws", "fault:streams-interleaved", "fault:stream-or-traversal-abandoned",
	"probe:operations-measured", "probe:stream-beyond-1MiB", "probe:fragment>=64KiB", "probe:many-small-fragments", "probe:many-digests-one-after-another", "probe:traversal-beyond-20000-characters", "probe:view-of-10000-bytes", "probe:copied-in-progress", "probe:call-that-failed"};
const unsigned counter_count = c_count;
static_assert(sizeof(counter_names) / sizeof(counter_names[0]) == c_count);

const Scenario scenarios[] = {
	{"C15", gen, exec, op_names, op_count, 30, 100},
};
const unsigned scenario_count = sizeof(scenarios) / sizeof(scenarios[0]);

} // namespace sim
