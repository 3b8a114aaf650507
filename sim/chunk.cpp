// C14: chunk views over integers - traversals that are interleaved, copied, abandoned, restarted; sources that end or fail.
#include "chunk.hpp"
#include "raise.hpp"
#include "core.hpp"
#include <algorithm>
#include <memory>
#include <numeric>
#include <sys/mman.h>

namespace sim {
namespace {
	enum Counter : unsigned { f_interleave, f_copy, f_abandon, f_restart, f_source_ends, f_source_fails, f_original_gone, p_partial, p_padding, p_empty, p_wide_chunk, p_full_width, p_huge, p_two, c_count };
	enum Op : unsigned { NEWVIEW, COPYVIEW, BEGIN, NEXT, POSTNEXT, ITCOPY, ITASSIGN, ITDROP, RUNOUT, SIZE, STREAM, HUGE_, op_count };
	const char * const op_names[] = {"NEWVIEW", "COPYVIEW", "BEGIN", "NEXT", "POSTNEXT", "ITCOPY", "ITASSIGN", "ITDROP", "RUNOUT", "SIZE", "STREAM", "HUGE"};
	constexpr unsigned nv = 3, ni = 5;
	constexpr size_t max_source = 70000; // elements

	// most significant bit of the first element first
	std::vector<ChunkValue> expected(const Chunk & c, const uint8_t * raw, size_t n) {
		const size_t eb = c.width / 8, total = n * c.width;
		auto bit = [&](size_t i) -> uint64_t {
			if (i >= total) return 0;
			const size_t in = c.width - 1 - i % c.width; // from the element's low end
			return raw[i / c.width * eb + in / 8] >> (in % 8) & 1;
		};
		std::vector<ChunkValue> r;
		for (size_t at = 0; at < total; at += c.bits) {
			ChunkValue v{0, at + c.bits > total ? static_cast<unsigned>(at + c.bits - total) : 0, false};
			for (unsigned k = 0; k != c.bits; ++k) v.value = v.value << 1 | bit(at + k);
			r.push_back(v);
		}
		if (c.pad)
			while (r.size() * c.bits % std::lcm(c.bits, c.width)) r.push_back({0, c.bits, true});
		return r;
	}

	struct World {
		Ctx & ctx;
		const Plan & plan;
		struct V {
			bool used{false};
			unsigned type{0};
			std::vector<uint64_t> raw; // aligned for any element
			size_t n{0};
			std::vector<ChunkValue> want;
			alignas(64) uint8_t mem[512];
		} v[nv];
		struct I {
			bool used{false};
			unsigned view{0};
			size_t pos{0};
			alignas(64) uint8_t mem[256];
		} it[ni];
		unsigned last{~0u};

		World(Ctx & c, const Plan & p): ctx{c}, plan{p} { }
		~World() {
			for (unsigned k = 0; k != nv; ++k) drop_view(k);
		}
		const Chunk & C(unsigned k) const { return chunks()[v[k].type]; }
		const Chunk & C(const I & i) const { return C(i.view); }
		void drop(unsigned i) {
			if (!it[i].used) return;
			C(it[i]).it_destroy(it[i].mem);
			fill_garbage(i, it[i].mem, sizeof it[i].mem);
			it[i].used = false;
		}
		void drop_view(unsigned k) {
			for (unsigned i = 0; i != ni; ++i)
				if (it[i].used && it[i].view == k) {
					ctx.count(f_abandon);
					drop(i);
				}
			if (!v[k].used) return;
			C(k).destroy(v[k].mem);
			fill_garbage(k, v[k].mem, sizeof v[k].mem);
			v[k].used = false;
		}
		std::string name(const Chunk & c, size_t n) const { return "chunk_of_bits<" + std::to_string(c.bits) + (c.pad ? ", true>" : ">") + " of " + std::to_string(n) + " " + c.type + " (source " + std::to_string(c.source) + ")"; }
		void compare(const Chunk & c, size_t n, size_t pos, const ChunkValue & got, const ChunkValue & want, const char * when) {
			ctx.ev(mix(got.value, got.missing));
			if (!(got == want)) ctx.fail("wrong-chunk", "%s: position %zu is %llx with %u bits missing%s instead of %llx with %u missing%s (%s)", name(c, n).c_str(), pos, (unsigned long long)got.value, got.missing, got.padding ? ", padding" : "", (unsigned long long)want.value, want.missing, want.padding ? ", padding" : "", when);
		}
		void check(unsigned i, const char * when) {
			I & x = it[i];
			V & w = v[x.view];
			const Chunk & c = C(x);
			const bool end = c.at_end(w.mem, x.mem);
			ctx.ev(mix(i, mix(x.pos, end)));
			if (end != (x.pos == w.want.size())) ctx.fail("wrong-end", "%s: at position %zu of %zu the iterator says %s (%s)", name(c, w.n).c_str(), x.pos, w.want.size(), end ? "end" : "not the end", when);
			if (!end) compare(c, w.n, x.pos, c.deref(x.mem), w.want[x.pos], when);
			unsigned active = 0;
			for (auto & o: it) active += o.used && o.view == x.view;
			if (active > 1) ctx.count(p_two);
			if (last != ~0u && last != i) ctx.count(f_interleave);
			last = i;
			ctx.state(mix(mix(w.type, x.pos % 16), mix(std::min<size_t>(w.want.size() - x.pos, 9), active)));
		}
		void step(const Step & s) {
			switch (s.op) {
				case NEWVIEW: {
					const unsigned k = s.a[0] % nv;
					drop_view(k);
					V & w = v[k];
					w.type = s.a[1] % chunks().size();
					const Chunk & c = C(k);
					w.n = s.a[2] % (c.source == cs_owned ? owned_max + 1 : max_source);
					w.raw.assign(w.n * c.width / 64 + 1, 0);
					auto * bytes = reinterpret_cast<uint8_t *>(w.raw.data());
					fill_content(s.a[3], s.a[3] % 9, 0, bytes, w.n * c.width / 8);
					w.want = expected(c, bytes, w.n);
					const ElemBlob b{bytes, w.n, 1 + s.a[4] % 5};
					c.make(w.mem, &b);
					w.used = true;
					if (!w.n) ctx.count(p_empty);
					if (c.bits > c.width) ctx.count(p_wide_chunk);
					if (c.bits == 32 || c.bits == 64 || c.width >= 32) ctx.count(p_full_width);
					if (w.n && w.n * c.width % c.bits) ctx.count(p_partial);
					if (!w.want.empty() && w.want.back().padding) ctx.count(p_padding);
					if (c.source == cs_owned) { // nobody else has these bytes any more
						fill_garbage(s.a[3], bytes, w.n * c.width / 8);
						ctx.count(f_original_gone);
					}
					ctx.note("NEWVIEW %u: %s", k, name(c, w.n).c_str());
					break;
				}
				case COPYVIEW: { // the copy goes on, the original may disappear
					const unsigned from = s.a[0] % nv, to = s.a[1] % nv;
					if (!v[from].used || from == to || C(from).source != cs_owned) break;
					drop_view(to);
					v[to].type = v[from].type;
					v[to].n = v[from].n;
					v[to].want = v[from].want;
					C(from).copy(v[to].mem, v[from].mem);
					v[to].used = true;
					ctx.count(f_copy);
					if (s.a[2] % 2) drop_view(from);
					break;
				}
				case BEGIN: {
					const unsigned i = s.a[0] % ni, k = s.a[1] % nv;
					if (!v[k].used) break;
					if (it[i].used && it[i].view == k) ctx.count(f_restart);
					drop(i);
					it[i].used = true;
					it[i].view = k;
					it[i].pos = 0;
					C(k).begin(v[k].mem, it[i].mem, s.a[2] % 2);
					check(i, "begin");
					break;
				}
				case NEXT:
				case POSTNEXT:
				case RUNOUT: {
					const unsigned i = s.a[0] % ni;
					if (!it[i].used) break;
					const size_t size = v[it[i].view].want.size();
					for (uint64_t n = 0; (s.op == RUNOUT || n <= s.a[1] % 40) && it[i].pos < size; ++n) {
						const Chunk & c = C(it[i]);
						if (s.op == POSTNEXT) compare(c, v[it[i].view].n, it[i].pos, c.postinc(it[i].mem), v[it[i].view].want[it[i].pos], "post-increment");
						else c.inc(it[i].mem);
						++it[i].pos;
						check(i, op_names[s.op]);
					}
					break;
				}
				case ITCOPY: {
					const unsigned a = s.a[0] % ni, b = s.a[1] % ni;
					if (a == b || !it[a].used) break;
					drop(b);
					C(it[a]).it_copy(it[b].mem, it[a].mem);
					it[b].used = true;
					it[b].view = it[a].view;
					it[b].pos = it[a].pos;
					ctx.count(f_copy);
					check(b, "copy");
					check(a, "copied from");
					break;
				}
				case ITASSIGN: {
					const unsigned a = s.a[0] % ni, b = s.a[1] % ni;
					if (!it[a].used || !it[b].used || v[it[a].view].type != v[it[b].view].type || !C(it[a]).same_kind(it[a].mem, it[b].mem)) break;
					C(it[a]).it_assign(it[b].mem, it[a].mem);
					it[b].view = it[a].view;
					it[b].pos = it[a].pos;
					ctx.count(f_copy);
					check(b, "assignment");
					check(a, "assigned from");
					break;
				}
				case ITDROP: {
					const unsigned i = s.a[0] % ni;
					if (!it[i].used) break;
					ctx.count(f_abandon);
					drop(i);
					break;
				}
				case SIZE: {
					const unsigned k = s.a[0] % nv;
					if (!v[k].used || !C(k).sized) break;
					const size_t n = C(k).size(v[k].mem);
					ctx.ev(n);
					if (n != v[k].want.size()) ctx.fail("wrong-size", "%s: size() is %zu instead of %zu", name(C(k), v[k].n).c_str(), n, v[k].want.size());
					break;
				}
				case STREAM: {
					const Chunk & c = chunks()[s.a[0] % chunks().size()];
					if (!c.stream) break;
					const size_t n = s.a[1] % max_source;
					std::vector<uint64_t> raw(n * c.width / 64 + 1);
					auto * bytes = reinterpret_cast<uint8_t *>(raw.data());
					fill_content(s.a[2], s.a[2] % 9, 0, bytes, n * c.width / 8);
					const auto want = expected(c, bytes, n);
					const bool fails = s.a[3] % 2 && s.a[4] <= n;
					const size_t limit = s.a[3] % 4 == 2 ? std::min<size_t>(s.a[4], want.size()) : ~size_t{0};
					std::vector<ChunkValue> out(want.size() + 1);
					size_t got = 0, reads = 0;
					bool threw = false;
					const ElemBlob b{bytes, n, 1};
					chunk_exception = static_cast<unsigned>(s.a[5] % raise_kinds);
					try {
						c.stream(&b, fails ? s.a[4] : ~size_t{0}, std::min(limit, out.size()), out.data(), &got, &reads);
					} catch (...) {
						threw = true;
						const unsigned e = raised();
						if (fails && e != chunk_exception) ctx.fail("other-exception", "%s: the source threw %s, the caller got %s", name(c, n).c_str(), raise_names[chunk_exception], raise_names[e]);
					}
					ctx.ev(mix(got, threw));
					ctx.state(mix(mix(STREAM, s.a[0] % chunks().size()), mix(n % 16, threw)));
					ctx.note("STREAM %s: %zu chunks%s", name(c, n).c_str(), got, threw ? ", exception" : "");
					for (size_t i = 0; i != std::min(got, want.size()); ++i) compare(c, n, i, out[i], want[i], "single pass");
					if (fails && limit == ~size_t{0} && !threw) ctx.fail("fault-not-reported", "%s: the source fails at element %llu, nobody was told", name(c, n).c_str(), (unsigned long long)s.a[4]);
					if (threw && !fails) ctx.fail("fault-not-reported", "%s: an exception out of nowhere", name(c, n).c_str());
					if (threw) {
						ctx.count(f_source_fails);
						if (got > s.a[4] * c.width / c.bits) ctx.fail("wrong-chunk", "%s: %zu chunks from a source that failed at element %llu", name(c, n).c_str(), got, (unsigned long long)s.a[4]);
						break;
					}
					ctx.count(limit == ~size_t{0} ? f_source_ends : f_abandon);
					if (got != std::min(limit, want.size())) ctx.fail("wrong-end", "%s: a single pass over the source gives %zu chunks instead of %zu", name(c, n).c_str(), got, std::min(limit, want.size()));
					break;
				}
				case HUGE_: {
					static uint8_t * base = nullptr;
					if (!base) {
						void * p = mmap(nullptr, 1ull << 45, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
						if (p == MAP_FAILED) return;
						base = static_cast<uint8_t *>(p);
						mprotect(base, 4096, PROT_READ | PROT_WRITE);
					}
					const Chunk & c = chunks()[s.a[0] % chunks().size()];
					if (c.source != cs_span) break;
					const size_t n = std::max<size_t>(std::min<size_t>(s.a[1], 1ull << 45) * 8 / c.width, 512);
					fill_content(s.a[2], s.a[2] % 9, 0, base, 4096);
					const ElemBlob b{base, n, 1};
					alignas(64) uint8_t mem[512], iter[256];
					c.make(mem, &b);
					const size_t group = std::lcm(c.bits, c.width);
					const size_t want = c.pad ? (n * c.width + group - 1) / group * (group / c.bits) : (n * c.width + c.bits - 1) / c.bits;
					const size_t got = c.size(mem);
					ctx.ev(got);
					ctx.count(p_huge);
					if (got != want) ctx.fail("wrong-size", "%s: size() is %zu instead of %zu", name(c, n).c_str(), got, want);
					const auto first = expected(c, base, 64);
					c.begin(mem, iter, s.a[3] % 2);
					for (size_t i = 0, m = 64 * c.width / c.bits; i + 1 < m && i != s.a[3] / 2 % 60; ++i) {
						if (c.at_end(mem, iter)) ctx.fail("wrong-end", "%s: ends at position %zu", name(c, n).c_str(), i);
						compare(c, n, i, c.deref(iter), first[i], "beginning of a huge source");
						c.inc(iter);
					}
					c.it_destroy(iter);
					c.destroy(mem);
					break;
				}
			}
		}
		void run() {
			for (auto & s: plan.steps) step(s);
			for (unsigned i = 0; i != ni; ++i) step(Step::make(RUNOUT, i));
		}
	};
	void execute(const Plan & plan, Ctx & ctx) {
		auto w = std::make_unique<World>(ctx, plan);
		w->run();
	}
	void generate(Rng & r, Plan & p, uint64_t, int) {
		const unsigned used = 1 + static_cast<unsigned>(r.below(nv));
		const uint64_t type = r.below(chunks().size());
		const bool one = r.chance(1, 3);
		auto pick = [&] { return one ? type : r.below(chunks().size()); };
		const bool large = r.chance(1, 400);
		auto many = [&]() -> uint64_t { return r.chance(1, 12) ? 65536 + r.below(4000) - 200 : r.chance(1, 4) ? r.below(1ull << r.below(16)) : 200 + r.below(400); };
		auto fresh = [&](unsigned k) { p.add(NEWVIEW, k, pick(), large && r.chance(1, 2) ? many() : r.chance(1, 2) ? r.below(owned_max + 1) : r.below(8), r.below(100000), r.below(5)); };
		for (unsigned k = 0; k != used; ++k) fresh(k);
		if (r.chance(1, 20)) {
			const uint64_t near = 1ull << (20 + r.below(26));
			p.add(HUGE_, r.below(chunks().size()), r.chance(1, 2) ? near + r.below(33) - 16 : r.next() % near, r.below(100000), r.below(120));
		}
		const unsigned n = 4 + static_cast<unsigned>(r.below(r.chance(1, 4) ? 60 : 20));
		for (unsigned i = 0; i != n; ++i) {
			switch (r.below(16)) {
				case 0: fresh(static_cast<unsigned>(r.below(used))); break;
				case 1: p.add(COPYVIEW, r.below(nv), r.below(nv), r.below(2)); break;
				case 2:
				case 3:
				case 4: p.add(BEGIN, r.below(ni), r.below(used), r.below(2)); break;
				case 5:
				case 6:
				case 7: p.add(NEXT, r.below(ni), r.chance(1, 3) ? r.below(40) : r.below(5)); break;
				case 8: p.add(POSTNEXT, r.below(ni), r.below(5)); break;
				case 9:
				case 10: p.add(ITCOPY, r.below(ni), r.below(ni)); break;
				case 11: p.add(ITASSIGN, r.below(ni), r.below(ni)); break;
				case 12: p.add(r.chance(1, 2) ? ITDROP : RUNOUT, r.below(ni)); break;
				case 13: p.add(SIZE, r.below(used)); break;
				default: {
					const uint64_t l = large && r.chance(1, 3) ? many() : r.chance(1, 4) ? r.below(60) : r.below(12);
					p.add(STREAM, pick(), l, r.below(100000), r.below(4), r.below(l + 2), r.below(raise_kinds));
				}
			}
		}
	}
} // namespace

const char * const counter_names[] = {"fault:traversals-interleaved", "fault:copied-in-the-middle", "fault:abandoned", "fault:restarted", "fault:source-ends", "fault:source-fails", "fault:original-bytes-gone", "probe:partial-chunk", "probe:padding", "probe:empty-source", "probe:chunk-wider-than-element", "probe:full-width-shift", "probe:huge-source", "probe:two-traversals-of-one-view"};
const unsigned counter_count = c_count;
static_assert(sizeof(counter_names) / sizeof(counter_names[0]) == c_count);
const Scenario scenarios[] = {{"C14", generate, execute, op_names, op_count, 30, 400}};
const unsigned scenario_count = 1;

} // namespace sim
