// Simulated streams: several senders' byte streams are cut into fragments and delivered, interleaved,
// to the library's hash objects; objects are moved, copied, lost and restored; every digest, size and
// peeked value is compared with a reference model that received the same bytes.
#include "alg.hpp"
#include "core.hpp"
#include "hooks.hpp"
#include <algorithm>
#include <cstdlib>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

__attribute__((weak)) void register_sha2_32(std::vector<Alg> &);
__attribute__((weak)) void register_sha2_64(std::vector<Alg> &);
__attribute__((weak)) void register_sha512t(std::vector<Alg> &);
__attribute__((weak)) void register_sha3(std::vector<Alg> &);
__attribute__((weak)) void register_shake(std::vector<Alg> &);
__attribute__((weak)) void register_xxh(std::vector<Alg> &);

namespace hooks {
	// only in the binaries whose library code is instrumented
	__attribute__((weak)) int run_doomed(void (*fn)(void *), void * arg, uint64_t step, unsigned mode);
	__attribute__((weak)) void fence_begin(const Fence * f, unsigned n);
	__attribute__((weak)) Hit fence_end();
}

struct LongState {
	const char * alg;
	uint64_t total;
	const char * state;
};
static const LongState long_states[] = {
#include "long_states.inc"
	{nullptr, 0, nullptr}};

namespace {

	// C12 support, implemented next to the encodings
	enum Counter : unsigned {
		f_empty, f_reused, f_interleave, f_misaligned, f_moved, f_crash, f_restore_bytes, f_restore_copy, f_fork, f_guard_end, f_guard_start, f_unmapped, f_abandon, f_doom_killed, f_doom_abandoned, f_doom_update, f_doom_final, f_doom_copy,
		p_frag256, p_frag64k, p_fill_exact, p_cross, p_pad_overflow, p_close_boundary, p_close_empty, p_peek, p_oneshot, p_container, p_literal, p_size, p_shake_long, p_giant, p_total_2_29, p_total_2_32, p_giant_2_32, p_doom_completed, p_assigned, p_doom_source_survives, p_resume_after_doom, p_fenced, p_storm256, p_storm64k, p_self,
		c_count
	};

	const std::vector<Alg> & algs() {
		static const std::vector<Alg> v = [] {
			std::vector<Alg> r;
			if (register_sha2_32) register_sha2_32(r);
			if (register_sha2_64) register_sha2_64(r);
			if (register_sha512t) register_sha512t(r);
			if (register_sha3) register_sha3(r);
			if (register_shake) register_shake(r);
			if (register_xxh) register_xxh(r);
			return r;
		}();
		return v;
	}

	enum Op : unsigned { OPEN, DELIVER, SIZE, PEEK, SNAP, RESTORE, CRASH, FORK, MOVE, CLOSE, ONESHOT, DOOM, STORM, op_count };
	const char * const op_names[] = {"OPEN", "DELIVER", "SIZE", "PEEK", "SNAP", "RESTORE", "CRASH", "FORK", "MOVE", "CLOSE", "ONESHOT", "DOOM", "STORM"};

	constexpr uint64_t storm_kinds = 15;
	size_t storm_length(Rng & r, uint64_t kind) {
		static const size_t even[] = {1, 1, 1, 2, 3, 4, 8, 16, 64};
		return kind >= 6 ? even[kind - 6] : kind ? r.below(kind + 1) : 0;
	}
	constexpr unsigned nslots = 8, nsnaps = 4;
	constexpr size_t cell = 8192; // one object cell
	constexpr size_t max_frag = (1u << 17) + 512;
	constexpr size_t page = 4096;

	// memory the library works on; shared with processes that die in the middle of an operation
	struct Memory {
		uint8_t * cells;   // nslots * 2 cells, each followed by an inaccessible page
		uint8_t * snaps;   // nsnaps cells ("durable" copies)
		uint8_t * buffer;  // [guard][max_frag rounded + slack][guard]
		size_t buffer_len;
		uint8_t * output; // [guard][page][guard]
		static uint8_t * region(size_t len) {
			auto * p = static_cast<uint8_t *>(mmap(nullptr, len + 2 * page, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
			if (p == MAP_FAILED) _exit(98);
			mprotect(p, page, PROT_NONE);
			mprotect(p + page + len, page, PROT_NONE);
			return p + page;
		}
		Memory() {
			cells = static_cast<uint8_t *>(mmap(nullptr, nslots * 2 * (cell + page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
			if (cells == MAP_FAILED) _exit(98);
			for (unsigned i = 0; i != nslots * 2; ++i) mprotect(cells + i * (cell + page) + cell, page, PROT_NONE);
			snaps = region(nsnaps * cell);
			buffer_len = (max_frag + 2 * page) / page * page;
			buffer = region(buffer_len);
			output = region(page);
		}
		uint8_t * cell_at(unsigned slot, unsigned side) { return cells + (slot * 2 + side) * (cell + page); }
	};
	Memory & memory() {
		static Memory m;
		return m;
	}

	struct Stream {
		bool open{false};
		unsigned alg{0};
		unsigned side{0};
		uint8_t * mem{nullptr};
		uint64_t seed{0};
		uint64_t content{0}, pattern{0};
		uint64_t offset{0}; // of the content delivered
		uint64_t garbage{0};
		std::unique_ptr<ref::Model> model;
	};
	struct Snapshot {
		bool used{false};
		bool bytes{false};
		unsigned alg{0};
		uint64_t seed{0}, content{0}, pattern{0}, offset{0};
		std::unique_ptr<ref::Model> model;
	};

	struct World {
		Ctx & ctx;
		const Plan & plan;
		bool guarded, fences;
		uint64_t tick{0};
		Stream st[nslots];
		Snapshot sn[nsnaps];
		unsigned last_slot{~0u};

		World(Ctx & c, const Plan & p): ctx{c}, plan{p}, guarded{(p.param(0) & 1) != 0}, fences{(p.param(0) & 2) != 0} { }

		// calls the library while all of the simulated memory but the given parts is forbidden to it
		struct Part {
			const void * p;
			size_t n;
		};
		template <typename F> auto fenced(const char * name, const char * what, std::initializer_list<Part> allowed, F && f) {
			using R = decltype(f());
			if (!fences || !hooks::fence_begin) return f();
			Memory & m = memory();
			const Part arenas[] = {{m.cells, nslots * 2 * (cell + page)}, {m.snaps, nsnaps * cell}, {m.buffer, m.buffer_len}, {m.output, page}};
			hooks::Fence list[16];
			unsigned n = 0;
			for (auto & a: arenas) {
				auto * lo = static_cast<const uint8_t *>(a.p);
				auto * end = lo + a.n;
				const Part * in[2] = {};
				unsigned k = 0;
				for (auto & x: allowed) {
					auto * p = static_cast<const uint8_t *>(x.p);
					if (p >= lo && p <= end && k < 2) in[k++] = &x;
				}
				if (k == 2 && in[1]->p < in[0]->p) std::swap(in[0], in[1]);
				for (unsigned i = 0; i != k; ++i) {
					auto * p = static_cast<const uint8_t *>(in[i]->p);
					if (lo < p) list[n++] = {lo, p};
					lo = p + in[i]->n;
				}
				if (lo < end) list[n++] = {lo, end};
			}
			ctx.count(p_fenced);
			struct Up {
				Up(const hooks::Fence * l, unsigned k) { hooks::fence_begin(l, k); }
				hooks::Hit hit{};
				hooks::Hit & down() { return hit = hooks::fence_end(); }
			} up(list, n);
			auto judge = [&] {
				const hooks::Hit h = up.down();
				if (!h.at) return;
				const char * where = "?";
				long off = 0;
				static const char * const names[] = {"the objects' memory", "the snapshots", "the input buffer", "the output buffer"};
				for (unsigned i = 0; i != 4; ++i) {
					const auto base = reinterpret_cast<uintptr_t>(arenas[i].p);
					if (h.at + h.len > base && h.at < base + arenas[i].n) where = names[i];
				}
				for (auto & x: allowed) {
					const auto p = reinterpret_cast<uintptr_t>(x.p);
					const long d = h.at >= p ? static_cast<long>(h.at - p) : -static_cast<long>(p - h.at);
					if (!off || labs(d) < labs(off)) off = d;
				}
				ctx.fail(h.write ? "wrote-outside" : "read-outside", "%s: %s %s %zu bytes of %s it was not given (%ld bytes from the start of what it was)", name, what, h.write ? "wrote" : "read", h.len, where, off);
			};
			if constexpr (std::is_void_v<R>) {
				f();
				judge();
			} else {
				const R r = f();
				judge();
				return r;
			}
		}

		uint64_t garbage_seed() const { return mix(plan.param(1), tick); }

		const Alg & alg(const Stream & s) const { return algs()[s.alg]; }

		// place an object in its cell: flush to an inaccessible page, or somewhere inside with canaries
		uint8_t * place(unsigned slot, unsigned side, const Alg & a, uint64_t where) {
			uint8_t * c = memory().cell_at(slot, side);
			fill_garbage(garbage_seed(), c, cell);
			if (guarded && where % 4 != 0) {
				size_t off = cell - a.object_size;
				off -= off % a.object_align;
				return c + off;
			}
			const size_t slack = (cell - 128 - a.object_size) / a.object_align;
			return c + 64 + (64 % a.object_align ? a.object_align - 64 % a.object_align : 0) + (where / 4 % std::min<size_t>(slack, 64)) * a.object_align;
		}
		void check_canary(unsigned slot, const Stream & s, const char * when) {
			// the cell around the object still holds the garbage it was filled with
			uint8_t * c = memory().cell_at(slot, s.side);
			static uint8_t expect[cell];
			fill_garbage(s.garbage, expect, cell);
			const size_t off = static_cast<size_t>(s.mem - c), end = off + alg(s).object_size;
			const size_t lo = off > 256 ? off - 256 : 0, hi = std::min(cell, end + 256);
			if (memcmp(c + lo, expect + lo, off - lo) != 0 || memcmp(c + end, expect + end, hi - end) != 0) ctx.fail("wrote-outside-object", "%s: %s wrote outside the hash object", alg(s).name, when);
		}
		void start(unsigned slot, unsigned a, uint64_t seed, uint64_t content, uint64_t pattern) {
			Stream & s = st[slot];
			s.open = true;
			s.alg = a;
			s.seed = seed;
			s.content = content;
			s.pattern = pattern;
			s.offset = 0;
			s.garbage = garbage_seed();
		}
		ref::Spec spec(unsigned a, uint64_t seed) {
			ref::Spec sp = algs()[a].spec;
			sp.seed = algs()[a].digest_bytes == 4 ? static_cast<uint32_t>(seed) : seed;
			return sp;
		}
		unsigned block(const Stream & s) const { return s.model->block(); }
		void drop(unsigned slot, bool destroy) {
			Stream & s = st[slot];
			if (!s.open) return;
			if (destroy) {
				fenced(alg(s).name, "destruction", {{s.mem, alg(s).object_size}}, [&] { alg(s).destroy(s.mem); });
				check_canary(slot, s, "destruction");
			}
			fill_garbage(garbage_seed(), memory().cell_at(slot, s.side), cell);
			s.open = false;
			s.model.reset();
		}
		void signature(const Stream & s, unsigned op, uint64_t extra) {
			const unsigned b = block(s);
			ctx.state(mix(mix(s.alg, op), mix(mix(s.model->total % b, std::min<uint64_t>(s.model->total / b, 3)), extra)));
		}
		void check_size(const Stream & s, const char * when) {
			const Alg & a = alg(s);
			if (!a.has_size) return;
			const uint64_t t = fenced(a.name, "size", {{s.mem, a.object_size}}, [&] { return a.total(s.mem); });
			ctx.ev(t);
			if (t != s.model->total) ctx.fail("wrong-size", "%s: size() is %llu after %llu bytes (%s)", a.name, (unsigned long long)t, (unsigned long long)s.model->total, when);
		}

		void open(const Step & t) {
			const unsigned slot = t.a[0] % nslots;
			const unsigned a = t.a[1] % algs().size();
			drop(slot, true);
			start(slot, a, t.a[2], t.a[3], t.a[4]);
			Stream & s = st[slot];
			s.side = t.a[5] >> 8 & 1;
			s.mem = place(slot, s.side, algs()[a], t.a[5]);
			s.model = std::make_unique<ref::Model>(spec(a, s.seed));
			scribble_stack(garbage_seed());
			fenced(alg(s).name, "construction", {{s.mem, alg(s).object_size}}, [&] { alg(s).make(s.mem, s.seed); });
			check_canary(slot, s, "construction");
			check_size(s, "open");
			ctx.ev(mix(slot, a));
			ctx.note("OPEN slot %u %s seed %llu", slot, algs()[a].name, (unsigned long long)s.seed);
		}

		// hands a fragment over in a buffer that is scribbled or unmapped right after the call
		template <typename F> void with_fragment(uint64_t content, uint64_t pattern, uint64_t offset, size_t len, uint64_t align, F && f) {
			Memory & m = memory();
			if (!guarded) {
				uint8_t * p = m.buffer + 64 + align % 64;
				if (align % 8) ctx.count(f_misaligned);
				fill_garbage(garbage_seed() ^ 1, p - 64, 64);
				fill_garbage(garbage_seed() ^ 2, p + len, 64);
				fill_content(content, pattern, offset, p, len);
				std::vector<uint8_t> keep;
				f(p);
				fill_garbage(garbage_seed() ^ 3, p, len);
				ctx.count(f_reused);
				return;
			}
			const bool at_end = align % 8 != 0;
			uint8_t * p = at_end ? m.buffer + m.buffer_len - len : m.buffer;
			fill_content(content, pattern, offset, p, len);
			if (at_end) fill_garbage(garbage_seed() ^ 1, p - 64, 64);
			else fill_garbage(garbage_seed() ^ 2, p + len, 64);
			ctx.count(at_end ? f_guard_end : f_guard_start);
			mprotect(m.buffer, m.buffer_len, PROT_READ);
			f(p);
			mprotect(m.buffer, m.buffer_len, PROT_NONE); // the caller unmapped its buffer
			ctx.count(f_unmapped);
			// it becomes accessible again only for the next fragment, with other contents
			pending_unprotect = true;
		}
		bool pending_unprotect{false};
		void unprotect() {
			if (!pending_unprotect) return;
			Memory & m = memory();
			mprotect(m.buffer, m.buffer_len, PROT_READ | PROT_WRITE);
			fill_garbage(garbage_seed() ^ 4, m.buffer, 256);
			fill_garbage(garbage_seed() ^ 5, m.buffer + m.buffer_len - 256, 256);
			pending_unprotect = false;
		}

		void deliver(const Step & t) {
			const unsigned slot = t.a[0] % nslots;
			Stream & s = st[slot];
			if (!s.open) return;
			const Alg & a = alg(s);
			const size_t len = t.a[1] % (max_frag + 1);
			const unsigned entry = t.a[2] % entry_count;
			unprotect();
			const unsigned b = block(s);
			const uint64_t before = s.model->total % b;
			if (last_slot != slot && last_slot != ~0u) ctx.count(f_interleave);
			last_slot = slot;
			if (len == 0) ctx.count(f_empty);
			if (len >= 256) ctx.count(p_frag256);
			if (len >= 65536) ctx.count(p_frag64k);
			if (before && before + len == b) ctx.count(p_fill_exact);
			if (before && before + len > b) ctx.count(p_cross);
			if (entry >= cont_string && entry <= cont_array) ctx.count(p_container);
			if (entry >= literal_char) ctx.count(p_literal);
			with_fragment(s.content, s.pattern, s.offset, len, t.a[3], [&](uint8_t * p) {
				s.model->update(p, len);
				scribble_stack(garbage_seed());
				fenced(a.name, "update", {{s.mem, a.object_size}, {p, len}}, [&] { a.update(s.mem, entry, p, len); });
			});
			s.offset += len;
			check_canary(slot, s, "update");
			check_size(s, "update");
			signature(s, DELIVER, mix(before, std::min<uint64_t>(len / b, 3)));
			ctx.ev(mix(slot, len));
			ctx.note("DELIVER slot %u %s len %zu entry %u, total now %llu", slot, a.name, len, entry, (unsigned long long)s.model->total);
		}

		// a burst of tiny fragments, all of one size or of sizes up to a limit
		void storm(const Step & t) {
			const unsigned slot = t.a[0] % nslots;
			Stream & s = st[slot];
			if (!s.open) return;
			const Alg & a = alg(s);
			const uint64_t count = t.a[1] % 70000, longest = t.a[2] % storm_kinds;
			const unsigned entry = t.a[3] % entry_count;
			unprotect();
			Memory & m = memory();
			Rng r(t.a[4] + 1);
			last_slot = slot;
			if (count >= 256) ctx.count(p_storm256);
			if (count >= 65536) ctx.count(p_storm64k);
			uint64_t sum = 0;
			for (uint64_t i = 0; i != count; ++i) {
				const size_t len = storm_length(r, longest);
				uint8_t * p = m.buffer + 64 + i % 16;
				fill_content(s.content, s.pattern, s.offset, p, len);
				s.model->update(p, len);
				a.update(s.mem, entry, p, len);
				memset(p, static_cast<int>(i), len);
				s.offset += len;
				sum += len;
				if (a.reusable_final && t.a[5] && i % (t.a[5] * 64) == 0) {
					uint8_t out[16];
					a.final(s.mem, 0, out);
				}
			}
			check_canary(slot, s, "update");
			check_size(s, "a burst of updates");
			signature(s, STORM, mix(longest, std::min<uint64_t>(count / 256, 3)));
			ctx.ev(mix(mix(slot, count), sum));
			ctx.note("STORM slot %u %s %llu fragments, %llu bytes, entry %u, total now %llu", slot, a.name, (unsigned long long)count, (unsigned long long)sum, entry, (unsigned long long)s.model->total);
		}

		// output buffer with canaries or flush to an inaccessible page
		template <typename F> void output(const char * what, const Stream & s, size_t want, const ref::bytes & expect, F && f) {
			Memory & m = memory();
			uint8_t * out = guarded ? m.output + page - want : m.output + 512 + tick % 16;
			fill_garbage(garbage_seed() ^ 7, m.output, page);
			static uint8_t before[page];
			memcpy(before, m.output, page);
			scribble_stack(garbage_seed());
			const size_t got = f(out);
			const size_t off = static_cast<size_t>(out - m.output);
			if (got != want) ctx.fail("wrong-length", "%s: %s produced %zu bytes instead of %zu", alg(s).name, what, got, want);
			ctx.ev_bytes(out, want);
			if (memcmp(out, expect.data(), want) != 0) ctx.fail("wrong-digest", "%s: %s after %llu bytes gave %s instead of %s", alg(s).name, what, (unsigned long long)s.model->total, hexs(out, std::min<size_t>(want, 64)).c_str(), hexs(expect.data(), std::min<size_t>(want, 64)).c_str());
			if (memcmp(m.output, before, off) != 0 || memcmp(m.output + off + want, before + off + want, page - off - want) != 0) ctx.fail("wrote-outside-output", "%s: %s wrote outside the output", alg(s).name, what);
		}
		void read_digest(unsigned slot, unsigned form, uint8_t * mem, const char * what) {
			Stream & s = st[slot];
			const Alg & a = alg(s);
			const size_t want = a.final_size(form);
			if (a.digest_bytes == 0 && want > s.model->block()) ctx.count(p_shake_long);
			const ref::bytes expect = s.model->digest(want);
			output(what, s, want, expect, [&](uint8_t * out) { return fenced(a.name, what, {{mem, a.object_size}, {out, want}}, [&] { return a.final(mem, form, out); }); });
		}

		void peek(const Step & t) {
			const unsigned slot = t.a[0] % nslots;
			Stream & s = st[slot];
			if (!s.open) return;
			const Alg & a = alg(s);
			ctx.count(p_peek);
			if (a.reusable_final) {
				for (uint64_t i = 0; i <= t.a[2] % 3; ++i) read_digest(slot, static_cast<unsigned>(t.a[1] + i), s.mem, "reading the digest");
			} else { // finalising consumes: do it on a copy
				uint8_t * c = memory().cell_at(slot, s.side ^ 1);
				uint8_t * mem = c + (t.a[2] % 8) * a.object_align;
				fill_garbage(garbage_seed() ^ 9, c, cell);
				fenced(a.name, "a copy", {{s.mem, a.object_size}, {mem, a.object_size}}, [&] { a.copy(mem, s.mem); });
				read_digest(slot, static_cast<unsigned>(t.a[1]), mem, "finalising a copy");
				a.destroy(mem);
				fill_garbage(garbage_seed() ^ 10, c, cell);
			}
			check_canary(slot, s, "reading the digest");
			check_size(s, "peek");
			signature(s, PEEK, 0);
			ctx.note("PEEK slot %u", slot);
		}

		void close(const Step & t) {
			const unsigned slot = t.a[0] % nslots;
			Stream & s = st[slot];
			if (!s.open) return;
			const Alg & a = alg(s);
			const unsigned b = block(s);
			const uint64_t fill = s.model->total % b;
			if (s.model->total == 0) ctx.count(p_close_empty);
			else if (fill == 0) ctx.count(p_close_boundary);
			if (a.has_size && fill + 1 + (b == 64 ? 8 : 16) > b) ctx.count(p_pad_overflow);
			signature(s, CLOSE, t.a[1] % 32);
			read_digest(slot, static_cast<unsigned>(t.a[1]), s.mem, "final");
			check_canary(slot, s, "final");
			ctx.note("CLOSE slot %u %s after %llu bytes: ok", slot, a.name, (unsigned long long)s.model->total);
			drop(slot, true);
		}

		void snap(const Step & t) {
			const unsigned slot = t.a[0] % nslots, to = t.a[1] % nsnaps;
			Stream & s = st[slot];
			if (!s.open) return;
			const Alg & a = alg(s);
			Snapshot & n = sn[to];
			uint8_t * mem = memory().snaps + to * cell;
			if (n.used && !n.bytes) algs()[n.alg].destroy(mem);
			fill_garbage(garbage_seed(), mem, cell);
			n.used = true;
			n.bytes = a.trivially_copyable && t.a[2] % 2;
			n.alg = s.alg;
			n.seed = s.seed;
			n.content = s.content;
			n.pattern = s.pattern;
			n.offset = s.offset;
			n.model = std::make_unique<ref::Model>(*s.model);
			if (n.bytes) memcpy(mem, s.mem, a.object_size);
			else a.copy(mem, s.mem);
			signature(s, SNAP, n.bytes);
			ctx.note("SNAP slot %u -> %u (%s)", slot, to, n.bytes ? "bytes" : "copy");
		}
		void adopt(unsigned slot, const Step & t, unsigned from_alg, uint64_t seed, uint64_t content, uint64_t pattern, uint64_t offset, const ref::Model & m, uint8_t * from, bool bytes, uint64_t where) {
			(void)t;
			if (st[slot].open && st[slot].alg == from_alg && algs()[from_alg].assign && where % 3) {
				// over an object that is in use, or over its source itself
				Stream & s = st[slot];
				ctx.count(p_assigned);
				fenced(algs()[from_alg].name, "assignment", {{s.mem, algs()[from_alg].object_size}, {from, algs()[from_alg].object_size}}, [&] {
					if (where % 3 == 2 && algs()[from_alg].move_assign) algs()[from_alg].move_assign(s.mem, from);
					else algs()[from_alg].assign(s.mem, from);
				});
				s.seed = seed;
				s.content = content;
				s.pattern = pattern;
				s.offset = offset;
				s.model = std::make_unique<ref::Model>(m);
				check_canary(slot, s, "assignment");
				return;
			}
			drop(slot, true);
			start(slot, from_alg, seed, content, pattern);
			Stream & s = st[slot];
			s.offset = offset;
			s.side = where >> 8 & 1;
			s.mem = place(slot, s.side, algs()[from_alg], where);
			s.model = std::make_unique<ref::Model>(m);
			if (bytes) memcpy(s.mem, from, algs()[from_alg].object_size);
			else fenced(algs()[from_alg].name, "a copy", {{s.mem, algs()[from_alg].object_size}, {from, algs()[from_alg].object_size}}, [&] { algs()[from_alg].copy(s.mem, from); });
			check_canary(slot, s, "copy");
			check_size(s, "copy");
		}
		void restore(const Step & t) {
			const unsigned slot = t.a[0] % nslots, from = t.a[1] % nsnaps;
			Snapshot & n = sn[from];
			if (!n.used) return;
			uint8_t * mem = memory().snaps + from * cell;
			ctx.count(n.bytes ? f_restore_bytes : f_restore_copy);
			if (doomed_once) ctx.count(p_resume_after_doom);
			adopt(slot, t, n.alg, n.seed, t.a[2] % 2 ? n.content : t.a[4], n.pattern, n.offset, *n.model, mem, n.bytes, t.a[3]);
			signature(st[slot], RESTORE, n.bytes);
			ctx.note("RESTORE slot %u <- %u", slot, from);
		}
		void crash(const Step & t) {
			const unsigned slot = t.a[0] % nslots;
			if (!st[slot].open) return;
			ctx.count(f_crash);
			drop(slot, false);
			ctx.note("CRASH slot %u", slot);
		}
		void fork_stream(const Step & t) {
			const unsigned slot = t.a[0] % nslots, to = t.a[1] % nslots;
			if (!st[slot].open || slot == to) return;
			Stream & s = st[slot];
			ctx.count(f_fork);
			const ref::Model m = *s.model;
			adopt(to, t, s.alg, s.seed, t.a[2], s.pattern, s.offset, m, s.mem, false, t.a[3]);
			signature(s, FORK, 0);
			ctx.note("FORK slot %u -> %u", slot, to);
		}
		void move(const Step & t) {
			const unsigned slot = t.a[0] % nslots;
			Stream & s = st[slot];
			if (!s.open) return;
			const Alg & a = alg(s);
			uint8_t * from = s.mem;
			if (t.a[2] % 5 > 2 && a.assign && a.swap) {
				fenced(a.name, "assignment", {{s.mem, a.object_size}}, [&] {
					if (t.a[2] % 5 == 3) a.assign(s.mem, s.mem); // to itself
					else a.swap(s.mem, t.a[1] + t.a[2]);
				});
				check_canary(slot, s, "assignment");
				ctx.count(p_self);
				signature(s, MOVE, t.a[2] % 5);
				ctx.note("%s slot %u", t.a[2] % 5 == 3 ? "ASSIGN to itself" : "SWAP", slot);
				return;
			}
			const unsigned old_side = s.side;
			s.side ^= 1;
			uint8_t * to = place(slot, s.side, a, t.a[1]);
			if (t.a[2] % 3 == 2 && a.trivially_copyable) memcpy(to, from, a.object_size);
			else {
				fenced(a.name, "a copy", {{from, a.object_size}, {to, a.object_size}}, [&] {
					if (t.a[2] % 3 == 1) a.copy(to, from);
					else a.move(to, from);
				});
				fenced(a.name, "destruction", {{from, a.object_size}}, [&] { a.destroy(from); });
			}
			s.mem = to;
			s.garbage = garbage_seed();
			fill_garbage(garbage_seed() ^ 11, memory().cell_at(slot, old_side), cell);
			check_canary(slot, s, "move");
			check_size(s, "move");
			ctx.count(f_moved);
			signature(s, MOVE, t.a[2] % 3);
			ctx.note("MOVE slot %u", slot);
		}
		// an operation that dies somewhere in its middle
		struct Doomed {
			const Alg * a;
			unsigned what;
			uint8_t *mem, *p, *out;
			size_t len;
			unsigned entry;
		};
		static void doomed(void * arg) {
			Doomed & d = *static_cast<Doomed *>(arg);
			switch (d.what) {
				case 0: d.a->update(d.mem, d.entry, d.p, d.len); break;
				case 1: d.a->final(d.mem, d.entry, d.out); break;
				default: d.a->copy(d.out, d.mem); break;
			}
		}
		void doom(const Step & t) {
			const unsigned slot = t.a[0] % nslots;
			Stream & s = st[slot];
			if (!s.open || !hooks::run_doomed) return;
			const Alg & a = alg(s);
			static const unsigned whats[] = {0, 0, 0, 1, 2};
			Memory & m = memory();
			Doomed d{&a, whats[t.a[1] % 5], s.mem, m.buffer + 64 + t.a[6] % 16, m.output + 64, t.a[2] % (max_frag + 1), static_cast<unsigned>(t.a[5])};
			if (d.what == 0) {
				d.entry %= span_schar + 1;
				fill_content(s.content, s.pattern, s.offset, d.p, d.len);
			} else if (d.what == 2) {
				uint8_t * c = m.cell_at(slot, s.side ^ 1);
				fill_garbage(garbage_seed() ^ 9, c, cell);
				d.out = c + (t.a[6] % 8) * a.object_align;
			}
			const unsigned mode = t.a[3] % 4 == 0 ? 0 : 1;
			ctx.count(d.what == 0 ? f_doom_update : d.what == 1 ? f_doom_final : f_doom_copy);
			scribble_stack(garbage_seed());
			const int r = hooks::run_doomed(doomed, &d, t.a[4], mode);
			if (r < 0) ctx.fail("crash", "%s: an operation crashed", a.name);
			ctx.ev(mix(slot, d.what));
			if (r == 1) ctx.count(mode == 0 ? f_doom_killed : f_doom_abandoned);
			else ctx.count(p_doom_completed);
			ctx.note("DOOM slot %u %s %s len %zu mode %u step %llu: %s", slot, a.name, d.what == 0 ? "update" : d.what == 1 ? "final" : "copy", d.len, mode, (unsigned long long)t.a[4], r ? "died" : "completed");
			fill_garbage(garbage_seed() ^ 3, d.what == 0 ? d.p : m.output, d.what == 0 ? d.len : page);
			signature(s, DOOM, mix(d.what, mode));
			if (d.what == 2) {
				if (r == 0 && mode == 1) a.destroy(d.out);
				fill_garbage(garbage_seed() ^ 10, m.cell_at(slot, s.side ^ 1), cell);
			}
			const bool source_survives = d.what == 2 || (d.what == 1 && a.reusable_final);
			if (source_survives) {
				ctx.count(p_doom_source_survives);
				check_canary(slot, s, "a read-only operation");
				check_size(s, "an operation that died elsewhere");
				return;
			}
			// whatever was lost with the process; copies made before live on
			doomed_once = true;
			drop(slot, false);
		}
		bool doomed_once{false};
		void oneshot(const Step & t) {
			const unsigned ai = t.a[0] % algs().size();
			const Alg & a = algs()[ai];
			if (!a.oneshot) return;
			const size_t len = t.a[1] % (max_frag + 1);
			unprotect();
			ctx.count(p_oneshot);
			ref::Model m(spec(ai, t.a[4]));
			Stream fake;
			fake.alg = ai;
			with_fragment(t.a[5], t.a[6], 0, len, t.a[3], [&](uint8_t * p) {
				m.update(p, len);
				fake.model = std::make_unique<ref::Model>(m);
				output("one-shot", fake, a.final_size(0), m.digest(0), [&](uint8_t * out) { return fenced(a.name, "one-shot", {{p, len}, {out, a.final_size(0)}}, [&] { return a.oneshot(static_cast<unsigned>(t.a[2]), p, len, t.a[4], out); }); });
			});
			ctx.state(mix(mix(ai, ONESHOT), std::min<uint64_t>(len, 600)));
			ctx.note("ONESHOT %s len %zu", a.name, len);
		}

		void run() {
			for (const Step & t: plan.steps) {
				++tick;
				switch (t.op) {
					case OPEN: open(t); break;
					case DELIVER: deliver(t); break;
					case STORM: storm(t); break;
					case SIZE:
						if (st[t.a[0] % nslots].open && alg(st[t.a[0] % nslots]).has_size) {
							ctx.count(p_size);
							check_size(st[t.a[0] % nslots], "size");
						}
						break;
					case PEEK: peek(t); break;
					case SNAP: snap(t); break;
					case RESTORE: restore(t); break;
					case CRASH: crash(t); break;
					case FORK: fork_stream(t); break;
					case MOVE: move(t); break;
					case CLOSE: close(t); break;
					case ONESHOT: oneshot(t); break;
					case DOOM: doom(t); break;
				}
			}
			// faults have stopped: every stream still open must now end in its exact digest
			for (unsigned i = 0; i != nslots; ++i) {
				++tick;
				Step t = Step::make(CLOSE, i, plan.param(2) + i);
				close(t);
			}
		}
	};

	void execute(const Plan & plan, Ctx & ctx) {
		memory();
		World w(ctx, plan);
		struct Cleanup {
			World & w;
			~Cleanup() { w.unprotect(); }
		} c{w};
		w.run();
	}

	// ---- generation ----
	uint64_t place_arg(Rng & r) { return r.next() & 0xFFFF; }

	struct FragGen {
		unsigned profile;
		uint64_t operator()(Rng & r, const Alg & a, uint64_t total) const {
			static const unsigned edges[] = {16, 32, 64, 72, 104, 128, 136, 144, 168, 200, 256, 512, 1024, 4096};
			const unsigned b = ref::Model(a.spec).block();
			const uint64_t rem = b - total % b;
			switch (profile) {
				case 0: return r.below(4);
				case 1: return r.below(b + 2);
				case 2: return r.below(5 * b);
				case 3: return r.below(3000);
				case 4: return 1;
				default: break;
			}
			switch (r.below(16)) {
				case 0: return 0;
				case 1: return 1;
				case 2: return rem;
				case 3: return rem - 1;
				case 4: return rem + 1;
				case 5: return rem + b * r.below(4);
				case 6: return rem + b * r.below(4) + r.below(b);
				case 7: return b;
				case 8: return b * r.below(6);
				case 9: {
					const uint64_t e = r.pick(edges);
					return e + r.below(3) - 1;
				}
				case 10: // exactly a fixed-size entry
					return r.chance(1, 2) ? r.pick(literal_lengths) : r.pick(array_lengths);
				case 11: return r.below(b);
				case 12: return 255 + r.below(3);
				case 13: return r.chance(1, 40) ? 65536 + r.below(200) - 100 : 256 + r.below(800);
				case 14: return rem > 9 ? rem - 9 + r.below(3) - 1 : rem;
				default: return r.below(2 * b + 3);
			}
		}
	};

	struct Mix {
		unsigned deliver, size, peek, snap, restore, crash, fork, move, close, open, oneshot, doom;
	};

	void gen_common(Rng & r, Plan & p, const Mix & base, bool guarded, unsigned max_steps) {
		const auto & A = algs();
		p.params = {guarded ? 1u : 0u, r.next() & 0xFFFFFFFF, r.below(64)};
		const unsigned used = 1 + static_cast<unsigned>(r.below(4));
		const bool one_alg = r.chance(1, 2);
		const unsigned the_alg = static_cast<unsigned>(r.below(A.size()));
		const unsigned entry_mode = static_cast<unsigned>(r.below(4)); // 0: one entry only, 1: spans and views, else all
		const unsigned entry1 = static_cast<unsigned>(r.below(entry_count));
		const uint64_t pattern_mode = r.chance(1, 4) ? 5 : r.below(8);
		Mix m = base;
		// swarm: drop some operation kinds in some runs
		if (r.chance(1, 3)) m.size = 0;
		if (r.chance(1, 3)) m.peek = 0;
		if (r.chance(1, 3)) m.move = 0;
		if (r.chance(1, 4)) m.snap = m.restore = 0;
		if (r.chance(1, 3)) m.crash = 0;
		if (r.chance(1, 3)) m.fork = 0;
		if (r.chance(1, 2)) m.oneshot = 0;
		FragGen frag{static_cast<unsigned>(r.chance(1, 2) ? 9 : r.below(6))};
		const unsigned steps = 3 + static_cast<unsigned>(r.below(r.chance(1, 4) ? max_steps : max_steps / 4));
		struct {
			bool open = false;
			unsigned alg = 0;
			uint64_t total = 0;
		} t[nslots];
		auto seed = [&]() -> uint64_t {
			switch (r.below(5)) {
				case 0: return 0;
				case 1: return 1;
				case 2: return r.next() | 1ull << 63;
				case 3: return r.next() & 0xFFFFFFFF;
				default: return r.next();
			}
		};
		auto open = [&](unsigned s) {
			t[s].open = true;
			t[s].alg = one_alg ? the_alg : static_cast<unsigned>(r.below(A.size()));
			t[s].total = 0;
			p.add(OPEN, s, t[s].alg, A[t[s].alg].reusable_final ? seed() : 0, r.next() & 0xFFFFFF, pattern_mode, place_arg(r));
		};
		struct {
			bool used = false;
			unsigned alg = 0;
			uint64_t total = 0;
		} sn[nsnaps];
		for (unsigned s = 0; s != used; ++s) open(s);
		const unsigned sum = m.deliver + m.size + m.peek + m.snap + m.restore + m.crash + m.fork + m.move + m.close + m.open + m.oneshot + m.doom;
		for (unsigned i = 0; i != steps; ++i) {
			unsigned x = static_cast<unsigned>(r.below(sum));
			const unsigned s = static_cast<unsigned>(r.below(used));
			auto take = [&](unsigned w) {
				if (x < w) {
					x = ~0u;
					return true;
				}
				if (x != ~0u) x -= w;
				return false;
			};
			if (take(m.deliver)) {
				if (!t[s].open) {
					open(s);
				}
				const uint64_t len = frag(r, A[t[s].alg], t[s].total);
				const unsigned e = entry_mode == 0 ? entry1 : entry_mode == 1 ? static_cast<unsigned>(r.below(cont_string)) : static_cast<unsigned>(r.below(entry_count));
				if (!guarded && r.chance(1, 120)) {
					const uint64_t count = r.chance(1, 60) ? 65536 + r.below(300) : r.chance(1, 4) ? r.below(1500) : r.below(300), longest = r.below(storm_kinds), tiny = r.below(100000);
					p.add(STORM, s, count, longest, e, tiny, r.below(3));
					Rng lengths(tiny + 1);
					for (uint64_t i = 0; i != count; ++i) t[s].total += storm_length(lengths, longest);
					continue;
				}
				p.add(DELIVER, s, len, e, r.below(64));
				t[s].total += len;
			} else if (take(m.size)) p.add(SIZE, s);
			else if (take(m.peek)) p.add(PEEK, s, r.below(64), r.below(6));
			else if (take(m.snap)) {
				const unsigned k = static_cast<unsigned>(r.below(nsnaps));
				p.add(SNAP, s, k, r.below(2));
				if (t[s].open) sn[k] = {true, t[s].alg, t[s].total};
			} else if (take(m.restore)) {
				const unsigned k = static_cast<unsigned>(r.below(nsnaps));
				if (!sn[k].used) continue;
				p.add(RESTORE, s, k, r.below(2), place_arg(r), r.next() & 0xFFFFFF);
				t[s] = {true, sn[k].alg, sn[k].total};
			} else if (take(m.crash)) {
				p.add(CRASH, s);
				t[s].open = false;
			} else if (take(m.fork)) {
				const unsigned to = static_cast<unsigned>(r.below(used));
				if (to == s || !t[s].open) continue;
				p.add(FORK, s, to, r.next() & 0xFFFFFF, place_arg(r));
				t[to] = t[s];
			} else if (take(m.move)) p.add(MOVE, s, place_arg(r), r.below(1u << 16));
			else if (take(m.close)) {
				p.add(CLOSE, s, r.below(64));
				t[s].open = false;
			} else if (take(m.open)) open(s);
			else if (take(m.oneshot)) {
				const unsigned a = one_alg ? the_alg : static_cast<unsigned>(r.below(A.size()));
				p.add(ONESHOT, a, frag(r, A[a], 0), r.below(entry_count * 2), r.below(64), A[a].reusable_final ? seed() : 0, r.next() & 0xFFFFFF, r.below(6));
			} else if (take(m.doom)) {
				if (!t[s].open) open(s);
				const bool mostly_snapshot = r.chance(3, 4);
				const unsigned k = static_cast<unsigned>(r.below(nsnaps));
				if (mostly_snapshot) {
					p.add(SNAP, s, k, r.below(2));
					sn[k] = {true, t[s].alg, t[s].total};
				}
				const unsigned what = static_cast<unsigned>(r.below(5));
				p.add(DOOM, s, what, frag(r, A[t[s].alg], t[s].total), r.below(8), r.below(1ull << r.below(15)), r.below(64), r.below(64));
				if (what < 3 || (what == 3 && !A[t[s].alg].reusable_final)) t[s].open = false;
				if (!t[s].open && mostly_snapshot && r.chance(3, 4)) {
					p.add(RESTORE, s, k, r.below(2), place_arg(r), r.next() & 0xFFFFFF);
					t[s] = {true, sn[k].alg, sn[k].total};
				}
			}
		}
	}

	void gen_fragments(Rng & r, Plan & p, uint64_t, int) { gen_common(r, p, {40, 2, 4, 0, 0, 0, 1, 2, 3, 1, 4, 0}, false, 80); }
	void gen_xxh(Rng & r, Plan & p, uint64_t, int) { gen_common(r, p, {40, 0, 10, 0, 0, 0, 1, 1, 3, 1, 8, 0}, false, 80); }
	void gen_guarded(Rng & r, Plan & p, uint64_t, int) { gen_common(r, p, {40, 2, 8, 0, 0, 0, 2, 4, 4, 1, 8, 0}, true, 50); }
	void gen_fenced(Rng & r, Plan & p, uint64_t, int) {
		gen_common(r, p, {40, 2, 8, 2, 2, 0, 2, 4, 4, 1, 8, 0}, true, 50);
		p.params[0] = 2 + r.below(2);
	}
	void gen_single(Rng & r, Plan & p, uint64_t, int) { gen_common(r, p, {40, 2, 6, 4, 4, 2, 3, 3, 3, 1, 5, 0}, false, 80); }
	void gen_snapshots(Rng & r, Plan & p, uint64_t, int) { gen_common(r, p, {30, 0, 4, 8, 6, 3, 6, 6, 3, 1, 2, 5}, false, 80); }

	// ---- long hauls: totals and single fragments beyond 4 GiB ----
	enum LOp : unsigned { LDELIVER, LCOPY, lop_count };
	const char * const lop_names[] = {"LDELIVER", "LCOPY"};
	constexpr uint64_t pat_size = 1u << 20;
	constexpr uint64_t pat_maps = 4096 + 8;

	uint8_t * giant() { // 4 GiB + 8 MiB of address space showing the same 1 MiB
		static uint8_t * base = [] {
			const int fd = memfd_create("pattern", 0);
			std::vector<uint8_t> pat(pat_size);
			fill_content(0xC0FFEE, 4, 0, pat.data(), pat_size);
			if (fd < 0 || write(fd, pat.data(), pat_size) != static_cast<ssize_t>(pat_size)) _exit(97);
			auto * p = static_cast<uint8_t *>(mmap(nullptr, pat_size * pat_maps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
			if (p == MAP_FAILED) _exit(97);
			for (uint64_t i = 0; i != pat_maps; ++i)
				if (mmap(p + i * pat_size, pat_size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) _exit(97);
			::close(fd);
			return p;
		}();
		return base;
	}

	void execute_long(const Plan & plan, Ctx & ctx) {
		const unsigned ai = plan.param(0) % algs().size();
		const Alg & a = algs()[ai];
		ref::Spec spec = a.spec;
		spec.seed = a.digest_bytes == 4 ? static_cast<uint32_t>(plan.param(1)) : plan.param(1);
		uint8_t * g = giant();
		alignas(64) static uint8_t place[2][cell];
		fill_garbage(plan.param(1), place[0], sizeof place);
		uint8_t * mem = place[0];
		a.make(mem, plan.param(1));
		uint64_t total = 0;
		for (auto & s: plan.steps) {
			if (s.op == LCOPY) { // the stream goes on in a copy, the original gets something else and disappears
				uint8_t * to = mem == place[0] ? place[1] : place[0];
				fill_garbage(total, to, cell);
				if (s.a[0] % 3 == 0 && a.trivially_copyable) memcpy(to, mem, a.object_size);
				else if (s.a[0] % 3 == 1) a.move(to, mem);
				else a.copy(to, mem);
				if (s.a[0] % 3 != 1) a.update(mem, 0, g, s.a[1] % 5000);
				a.destroy(mem);
				fill_garbage(total + 1, mem, cell);
				mem = to;
				ctx.count(s.a[0] % 3 == 1 ? f_moved : f_fork);
				if (a.has_size && a.total(mem) != total) ctx.fail("wrong-size", "%s: size() of a copy is %llu after %llu bytes", a.name, (unsigned long long)a.total(mem), (unsigned long long)total);
				continue;
			}
			const uint64_t len = s.a[0] % (pat_size * (pat_maps - 2));
			if (len >> 32) ctx.count(p_giant_2_32);
			if (len >> 20) ctx.count(p_giant);
			a.update(mem, s.a[1] % (view_char8 + 1), g + total % pat_size, len);
			if ((total >> 29) != ((total + len) >> 29)) ctx.count(p_total_2_29);
			if ((total >> 32) != ((total + len) >> 32)) ctx.count(p_total_2_32);
			total += len;
			ctx.ev(len);
			ctx.state(mix(mix(ai, total % 200), total >> 29));
			if (a.has_size && a.total(mem) != total) ctx.fail("wrong-size", "%s: size() is %llu after %llu bytes", a.name, (unsigned long long)a.total(mem), (unsigned long long)total);
		}
		// the reference continues from the recorded state of this very pattern
		ref::Model m(spec);
		for (auto * l = long_states; l->alg; ++l)
			if (!strcmp(l->alg, a.name) && l->total <= total && l->total > m.total && spec.seed == 0) {
				if (!m.load(l->state)) ctx.fail("internal", "bad state table");
				m.total = l->total;
			}
		while (m.total < total) {
			const uint64_t n = std::min<uint64_t>(total - m.total, pat_size * 64);
			m.update(g + m.total % pat_size, n);
		}
		const unsigned form = static_cast<unsigned>(plan.param(2));
		if (a.final_long) { // outputs of hundreds of blocks
			static uint8_t longer[long_outputs[0] + 64];
			alignas(64) static uint8_t copy[8192];
			a.copy(copy, mem);
			memset(longer, 0x5A, sizeof longer);
			const size_t n = a.final_long(copy, form, longer);
			a.destroy(copy);
			const auto expect = m.digest(long_outputs[form % 2]);
			ctx.ev_bytes(longer, n);
			ctx.count(p_shake_long);
			if (n != expect.size()) ctx.fail("wrong-length", "%s: produced %zu bytes instead of %zu", a.name, n, expect.size());
			if (const auto at = static_cast<size_t>(std::mismatch(expect.begin(), expect.end(), longer).first - expect.begin()); at != n) ctx.fail("wrong-digest", "%s: %zu bytes of output after %llu bytes are wrong from byte %zu on", a.name, n, (unsigned long long)total, at);
			if (std::any_of(longer + n, longer + sizeof longer, [](uint8_t b) { return b != 0x5A; })) ctx.fail("wrote-outside-output", "%s: wrote behind %zu bytes of output", a.name, n);
		}
		uint8_t out[max_digest];
		for (unsigned reps = 0; reps <= (a.reusable_final ? 1u : 0u); ++reps) {
			const size_t n = a.final(mem, form + reps, out);
			const auto expect = m.digest(a.final_size(form));
			ctx.ev_bytes(out, n);
			if (n != expect.size() || memcmp(out, expect.data(), n)) ctx.fail("wrong-digest", "%s: final after %llu bytes gave %s instead of %s", a.name, (unsigned long long)total, hexs(out, std::min<size_t>(n, 64)).c_str(), hexs(expect.data(), std::min<size_t>(n, 64)).c_str());
		}
		a.destroy(mem);
		if (a.reusable_final) { // the one-shot form over the same bytes
			if (total < pat_size * (pat_maps - 2)) {
				const size_t n = a.oneshot(static_cast<unsigned>(plan.param(2) % (view_char8 + 1) + (form & 1) * entry_count), g, total, plan.param(1), out);
				const auto expect = m.digest(0);
				if (n != expect.size() || memcmp(out, expect.data(), n)) ctx.fail("wrong-digest", "%s: one-shot over %llu bytes gave %s instead of %s", a.name, (unsigned long long)total, hexs(out, n).c_str(), hexs(expect.data(), n).c_str());
				ctx.count(p_oneshot);
			}
		}
	}

	// fragments of 128 KiB to 16 MiB among small ones
	void gen_mid(Rng & r, Plan & p, uint64_t index, int) {
		const auto & A = algs();
		const unsigned ai = index % A.size();
		const Alg & a = A[ai];
		const unsigned b = ref::Model(a.spec).block();
		p.params = {ai, a.reusable_final && r.chance(1, 2) ? r.next() | 1 : 0, r.below(32)};
		uint64_t total = 0;
		auto d = [&](uint64_t n) {
			p.add(LDELIVER, n, r.below(view_char8 + 1));
			total += n;
		};
		auto small = [&] {
			for (uint64_t n = r.below(4); n; --n) d(r.chance(1, 3) ? b - total % b : r.below(2 * b));
		};
		for (unsigned n = 1 + static_cast<unsigned>(r.below(3)); n; --n) {
			small();
			if (r.chance(1, 4)) p.add(LCOPY, r.below(3), r.below(5000));
			const uint64_t size = 1ull << (17 + r.below(index / A.size() % 4 == 0 ? 8 : 4));
			// around whole numbers of blocks that no longer fit in 16 bits, or anything
			const uint64_t at = r.chance(1, 3) ? (65536ull * b) % (1ull << 24) : size;
			d(r.chance(1, 2) ? (b - total % b) + at / b * b + r.below(2 * b + 1) - b : at + r.below(size));
		}
		small();
	}
	// copies made of objects that have seen more than 4 GiB
	void gen_long_copies(Rng & r, Plan & p, uint64_t index, int) {
		const auto & A = algs();
		static const char * const names[] = {"xxhash32", "sha256", "sha512", "xxhash64", "sha224", "xxhash32", "sha512/256", "xxhash64", "sha384"};
		unsigned ai = 0;
		for (unsigned i = 0; i != A.size(); ++i)
			if (!strcmp(A[i].name, names[index % 9])) ai = i;
		const Alg & a = A[ai];
		const unsigned b = ref::Model(a.spec).block();
		p.params = {ai, a.reusable_final && index % 2 ? r.next() | 1 : 0, r.below(32)};
		if (r.chance(1, 2)) p.add(LDELIVER, r.below(3 * b), 0);
		p.add(LDELIVER, (1ull << 32) + r.below(3 * b), r.below(view_char8 + 1));
		p.add(LCOPY, r.below(3), r.below(5000));
		if (r.chance(1, 2)) p.add(LDELIVER, r.below(3 * b), 0);
		p.add(LCOPY, index % 3, r.below(5000));
		if (r.chance(1, 2)) p.add(LDELIVER, r.below(3 * b), 0);
	}

	// a few small fragments, the giant step, a few small fragments
	void gen_long(Rng & r, Plan & p, uint64_t index, int) {
		const auto & A = algs();
		std::vector<unsigned> which;
		for (unsigned i = 0; i != A.size(); ++i) {
			const std::string n = A[i].name;
			if (n.rfind("sha512/", 0) == 0 && n != "sha512/256") continue;
			which.push_back(i);
		}
		const unsigned ai = which[index % which.size()];
		const uint64_t shape = index / which.size();
		const Alg & a = A[ai];
		const unsigned b = ref::Model(a.spec).block();
		p.params = {ai, a.reusable_final && r.chance(1, 2) ? r.next() : 0, r.below(32)};
		uint64_t total = 0;
		auto d = [&](uint64_t n) {
			p.add(LDELIVER, n, r.below(view_char8 + 1));
			total += n;
		};
		auto small = [&] {
			for (uint64_t n = r.below(4); n; --n) d(r.below(2 * b));
		};
		const uint64_t edge = shape % 2 == 0 ? 1ull << 32 : 1ull << 29;
		small();
		if (shape % 2 == 0) {
			d((1ull << 32) + r.below(3 * b)); // a single fragment whose length needs 33 bits
		} else { // cross 2^29 bytes (2^32 bits) in several pieces
			const uint64_t first = (1ull << 28) + r.below(1000);
			d(first);
			d(edge - r.below(2 * b) - total);
			d(r.below(5 * b) + 2 * b);
		}
		small();
		if (a.reusable_final && shape % 4 >= 2) d((1ull << 32) - total % (1ull << 32) + r.below(2 * b)); // total small modulo 2^32
	}

} // namespace

const char * const counter_names[] = {
	"fault:empty-fragment", "fault:buffer-reused-after-call", "fault:interleaved-with-other-stream", "fault:misaligned-buffer", "fault:object-moved", "fault:crash-object-lost", "fault:restore-from-bytes", "fault:restore-from-copy", "fault:fork-continue-both", "fault:buffer-ends-at-guard-page", "fault:buffer-starts-at-guard-page", "fault:buffer-unmapped-after-call", "fault:stream-abandoned", "fault:killed-mid-operation(process)", "fault:abandoned-mid-operation(in-process)", "fault:death-during-update", "fault:death-during-final", "fault:death-during-copy",
	"probe:fragment>=256", "probe:fragment>=64KiB", "probe:fragment-fills-block-exactly", "probe:fragment-crosses-block", "probe:length-needs-extra-block", "probe:close-at-block-boundary", "probe:close-empty-stream", "probe:digest-read-midstream", "probe:one-shot", "probe:container-entry", "probe:literal-entry", "probe:size-read", "probe:shake-output>rate", "probe:fragment>=1MiB", "probe:total-crosses-2^29", "probe:total-crosses-2^32", "probe:single-fragment>=4GiB", "probe:doomed-operation-completed-first", "probe:assigned-over-object-in-use", "probe:source-survives-lost-copy", "probe:resumed-after-death", "probe:call-with-every-access-checked", "probe:burst-of-256-fragments", "probe:burst-of-64Ki-fragments", "probe:assigned-to-itself-or-swapped"};
const unsigned counter_count = c_count;

const Scenario scenarios[] = {
	{"C01", gen_fragments, execute, op_names, op_count, 20, 200},
	{"C02", gen_fragments, execute, op_names, op_count, 20, 200},
	{"C03", gen_xxh, execute, op_names, op_count, 20, 200},
	{"C04", gen_snapshots, execute, op_names, op_count, 20, 100},
	{"C12", gen_guarded, execute, op_names, op_count, 20, 200},
	{"C12.fences", gen_fenced, execute, op_names, op_count, 20, 200},
	{"C13", gen_single, execute, op_names, op_count, 20, 200},
	{"C01.long", gen_long, execute_long, lop_names, lop_count, 400, 1},
	{"C02.long", gen_long, execute_long, lop_names, lop_count, 400, 1},
	{"C03.long", gen_long, execute_long, lop_names, lop_count, 400, 1},
	{"C13.long", gen_long, execute_long, lop_names, lop_count, 400, 1},
	{"C04.long", gen_long_copies, execute_long, lop_names, lop_count, 400, 1},
	{"C01.mid", gen_mid, execute_long, lop_names, lop_count, 100, 1},
	{"C02.mid", gen_mid, execute_long, lop_names, lop_count, 100, 1},
	{"C03.mid", gen_mid, execute_long, lop_names, lop_count, 100, 1},
	{"C13.mid", gen_mid, execute_long, lop_names, lop_count, 100, 1},
};
const unsigned scenario_count = sizeof(scenarios) / sizeof(scenarios[0]);

} // namespace sim
