// Simulated tasks: real threads of which exactly one runs at a time. The library (compiled with
// memory-access callbacks, see hooks.cpp) gives control back at any access; the plan says where.
#include "alg.hpp"
#include "core.hpp"
#include "heap.hpp"
#include "hooks.hpp"
#include "text.hpp"
#include <algorithm>
#include <cstdlib>
#include <memory>
#include <ostream>
#include <pthread.h>
#include <semaphore.h>
#include <streambuf>
#include <unistd.h>

namespace sim {
namespace {

	enum Counter : unsigned {
		f_preempt, f_stall, f_handover, f_blocked, f_two_in_same_alg, f_two_in_same_object, f_heap_refusing,
		p_update, p_read, p_move, p_close, p_own, p_oneshot, p_text, p_cmp, p_parse, p_slice, p_view, p_own_view, p_stream, p_shake_pair, p_first_use, p_forced,
		c_count
	};

	const std::vector<Alg> & algs() {
		static const std::vector<Alg> v = [] {
			std::vector<Alg> r;
			register_sha2_32(r);
			register_sha2_64(r);
			register_sha512t(r);
			register_sha3(r);
			register_shake(r);
			register_xxh(r);
			return r;
		}();
		return v;
	}

	constexpr unsigned walks = 9; // ways of reading a view
	enum Op : unsigned { PREEMPT, UPDATE, READ, MOVE, CLOSE, OWN, ONESHOT, TEXT, CMP, PARSE, SLICE, VIEW, OWNVIEW, STREAM, SHAKECMP, op_count };
	const char * const op_names[] = {"PREEMPT", "UPDATE", "READ", "MOVE", "CLOSE", "OWN", "ONESHOT", "TEXT", "CMP", "PARSE", "SLICE", "VIEW", "OWNVIEW", "STREAM", "SHAKECMP"};

	constexpr unsigned max_tasks = 4, npool = 3, ndigests = 5, nviews = 4;
	constexpr size_t max_len = 70000, max_view = 2000, max_chars = 8 * max_view + 64;
	constexpr size_t cell = 1024;
	constexpr int64_t forced_slice = 2000000;

	struct World;
	World * world = nullptr;

	struct Task {
		unsigned id{0};
		std::vector<Step> ops;
		size_t at{0};
		bool done{false};
		bool started{false};
		uint64_t stalled_until{0};
		sem_t sem;
		pthread_t thread;
		unsigned alg{~0u}, object{~0u}; // of the operation in progress
		unsigned kind{~0u};
		alignas(64) uint8_t arena[4096];
		uint8_t buffer[max_len + 128];
	};

	struct Shared {
		bool open{false};
		unsigned alg{0}, side{0};
		uint64_t seed{0}, content{0}, offset{0};
		std::unique_ptr<ref::Model> model;
		unsigned readers{0};
		bool writer{false};
		unsigned last_task{~0u};
		alignas(64) uint8_t cells[2][cell];
		uint8_t * mem() { return cells[side]; }
	};

	struct Lib { // library code runs here
		Lib() { hooks::active = true; }
		~Lib() { hooks::active = false; }
	};

	template <typename C> struct Sink : std::basic_streambuf<C> {
		uint32_t text[max_chars];
		size_t n{0};
		using base = std::basic_streambuf<C>;
		typename base::int_type overflow(typename base::int_type c) override {
			if (base::traits_type::eq_int_type(c, base::traits_type::eof())) return base::traits_type::not_eof(c);
			if (n != max_chars) text[n++] = static_cast<uint32_t>(base::traits_type::to_char_type(c));
			return c;
		}
	};
	struct Collect : CharSink {
		uint32_t text[max_chars];
		size_t n{0};
		static void take(CharSink * s, uint32_t c) {
			auto * me = static_cast<Collect *>(s);
			if (me->n != max_chars) me->text[me->n++] = c;
		}
		Collect() { put = take; }
	};
	struct Pieces : std::streambuf {
		char * data;
		size_t n, piece, at{0};
		Pieces(uint8_t * d, size_t len, size_t p): data{reinterpret_cast<char *>(d)}, n{len}, piece{p ? p : 1} { }
		int_type underflow() override {
			at = static_cast<size_t>(egptr() ? egptr() - data : 0);
			if (at == n) return traits_type::eof();
			const size_t k = std::min(piece, n - at);
			setg(data + at, data + at, data + at + k);
			return traits_type::to_int_type(*gptr());
		}
	};

	struct World {
		Ctx & ctx;
		const Plan & plan;
		unsigned ntasks;
		std::vector<Task> tasks;
		unsigned current{0};
		sem_t main_sem;
		std::vector<Step> preempts;
		size_t next_preempt{0};
		uint64_t switches{0}, blocked_in_a_row{0};
		bool failed{false};
		std::string cls, msg;
		const bool no_heap; // C06: the heap refuses everything from the given operation on
		const uint64_t refuse_after;
		uint64_t ops_done{0};

		Shared pool[npool];
		struct {
			unsigned type;
			uint8_t raw[256];
			alignas(64) uint8_t mem[256];
		} dig[ndigests];
		struct {
			unsigned type;
			Blob blob;
			uint8_t data[64];
			size_t piece;
			alignas(64) uint8_t mem[512];
		} vw[nviews];

		World(Ctx & c, const Plan & p): ctx{c}, plan{p}, ntasks{2 + static_cast<unsigned>(p.param(0) % (max_tasks - 1))}, tasks(ntasks), no_heap{p.param(6) != 0}, refuse_after{p.param(6) - 1} { sem_init(&main_sem, 0, 0); }
		~World() {
			sem_destroy(&main_sem);
			for (auto & t: tasks) sem_destroy(&t.sem);
		}

		void problem(const char * c, std::string m) {
			if (failed) return;
			failed = true;
			cls = c;
			msg = std::move(m);
			next_preempt = preempts.size();
			hooks::countdown = INT64_MAX;
		}

		// ---- scheduling ----
		void arm() {
			if (failed) hooks::countdown = INT64_MAX;
			else if (next_preempt < preempts.size()) hooks::countdown = static_cast<int64_t>(1 + preempts[next_preempt].a[0] % 1000000);
			else hooks::countdown = forced_slice;
		}
		int choose(unsigned self, uint64_t pick) { // another task that can run
			unsigned c[max_tasks], n = 0;
			for (unsigned i = 0; i != ntasks; ++i)
				if (i != self && !tasks[i].done && tasks[i].stalled_until <= switches) c[n++] = i;
			if (!n)
				for (unsigned i = 0; i != ntasks; ++i)
					if (i != self && !tasks[i].done) c[n++] = i;
			return n ? static_cast<int>(c[pick % n]) : -1;
		}
		void hand_over(unsigned self, unsigned to) {
			++switches;
			Task &a = tasks[self], &b = tasks[to];
			ctx.ev(mix(mix(self, to), mix(a.at, b.at)));
			if (a.alg != ~0u && a.alg == b.alg) ctx.count(f_two_in_same_alg);
			if (a.object != ~0u && a.object == b.object) ctx.count(f_two_in_same_object);
			ctx.state(mix(mix(a.kind, b.kind), mix(mix(a.alg, b.alg), hooks::held)));
			current = to;
			sem_post(&b.sem);
			while (sem_wait(&a.sem)) { }
		}
		void event() {
			const unsigned self = current;
			uint64_t pick = switches;
			if (next_preempt < preempts.size()) {
				const Step & s = preempts[next_preempt++];
				pick = s.a[1];
				ctx.count(f_preempt);
				if (s.a[2] % 16) {
					ctx.count(f_stall);
					tasks[self].stalled_until = switches + s.a[2] % 16;
				}
			} else {
				ctx.count(p_forced);
			}
			arm();
			const int to = choose(self, pick);
			if (to < 0) return;
			if (ctx.verbose) ctx.note("  task %u preempted in operation %zu (%s), task %d continues", self, tasks[self].at, tasks[self].kind == ~0u ? "-" : op_names[tasks[self].kind], to);
			hand_over(self, static_cast<unsigned>(to));
		}
		void blocked() {
			const unsigned self = current;
			ctx.count(f_blocked);
			const int to = choose(self, mix(blocked_in_a_row) >> 8);
			if (to < 0 || ++blocked_in_a_row > 100000) _exit(96); // nobody can make progress
			hand_over(self, static_cast<unsigned>(to));
		}
		void finish(unsigned self) {
			tasks[self].done = true;
			const int to = choose(self, switches);
			ctx.ev(mix(self, 77));
			if (to < 0) {
				sem_post(&main_sem);
				return;
			}
			++switches;
			current = static_cast<unsigned>(to);
			sem_post(&tasks[static_cast<unsigned>(to)].sem);
		}
		void boundary() {
			blocked_in_a_row = 0;
			if (--hooks::countdown <= 0) event();
		}

		struct Guard { // the tasks' own discipline: one writer or many readers of a shared object
			World & w;
			Shared & s;
			bool write;
			Guard(World & world, Shared & sh, unsigned task, bool wr): w{world}, s{sh}, write{wr} {
				while (s.writer || (write && s.readers)) w.blocked();
				if (write) s.writer = true;
				else ++s.readers;
				if (s.last_task != ~0u && s.last_task != task) w.ctx.count(f_handover);
				s.last_task = task;
			}
			~Guard() {
				if (write) s.writer = false;
				else --s.readers;
			}
		};

		// ---- checks ----
		void same(const Task & t, const char * what, const char * name, const uint8_t * got, size_t n, const ref::bytes & expect) {
			ctx.ev_bytes(got, n);
			if (n == expect.size() && !memcmp(got, expect.data(), n)) return;
			problem("wrong-result", std::string("task ") + std::to_string(t.id) + ", " + name + ", " + what + ": " + hexs(got, std::min<size_t>(n, 64)) + " instead of " + hexs(expect.data(), std::min<size_t>(expect.size(), 64)));
		}
		void same_text(const Task & t, const char * what, const char * name, const uint32_t * got, size_t n, const std::string & expect) {
			std::string g;
			for (size_t i = 0; i != n; ++i) g += got[i] < 128 ? static_cast<char>(got[i]) : '?';
			ctx.ev_bytes(g.data(), g.size());
			if (g != expect) problem("wrong-text", std::string("task ") + std::to_string(t.id) + ", " + name + ", " + what + ": '" + g.substr(0, 80) + "' instead of '" + expect.substr(0, 80) + "'");
		}
		void is(const Task & t, bool ok, const char * what) {
			if (!ok) problem("wrong-result", std::string("task ") + std::to_string(t.id) + ": " + what);
		}
		static ref::Spec spec(unsigned a, uint64_t seed) {
			ref::Spec sp = algs()[a].spec;
			sp.seed = algs()[a].digest_bytes == 4 ? static_cast<uint32_t>(seed) : seed;
			return sp;
		}

		// ---- operations ----
		void open(unsigned i, unsigned a, uint64_t seed, uint64_t content) {
			Shared & s = pool[i];
			s.alg = a;
			s.seed = algs()[a].reusable_final ? seed : 0;
			s.content = content;
			s.offset = 0;
			s.model = std::make_unique<ref::Model>(spec(a, s.seed));
			s.open = true;
			fill_garbage(seed, s.cells[0], cell);
			fill_garbage(seed + 1, s.cells[1], cell);
		}
		void feed(Shared & s, Task & t, size_t len, unsigned entry, uint64_t align) {
			uint8_t * p = t.buffer + align % 64;
			fill_content(s.content, 5, s.offset, p, len);
			s.model->update(p, len);
			{
				Lib l;
				algs()[s.alg].update(s.mem(), entry, p, len);
			}
			s.offset += len;
			fill_garbage(align, p, len);
		}
		void op_update(Task & t, const Step & st) {
			Shared & s = pool[st.a[1] % npool];
			if (!s.open) return;
			Guard g(*this, s, t.id, true);
			t.alg = s.alg;
			t.object = static_cast<unsigned>(st.a[1] % npool);
			ctx.count(p_update);
			feed(s, t, st.a[2] % max_len, static_cast<unsigned>(st.a[3]), st.a[4]);
			if (algs()[s.alg].has_size) {
				uint64_t n;
				{
					Lib l;
					n = algs()[s.alg].total(s.mem());
				}
				is(t, n == s.model->total, "wrong size() of a shared hash");
			}
		}
		void op_read(Task & t, const Step & st) {
			Shared & s = pool[st.a[1] % npool];
			if (!s.open) return;
			Guard g(*this, s, t.id, false);
			const Alg & a = algs()[s.alg];
			t.alg = s.alg;
			t.object = static_cast<unsigned>(st.a[1] % npool);
			ctx.count(p_read);
			const unsigned form = static_cast<unsigned>(st.a[2]);
			uint8_t out[max_digest];
			size_t n;
			if (a.reusable_final && st.a[3] % 4) {
				Lib l;
				n = a.final(s.mem(), form, out);
			} else {
				uint8_t * c = t.arena + (st.a[3] % 16) * a.object_align;
				fill_garbage(st.a[3], t.arena, sizeof t.arena);
				Lib l;
				a.copy(c, s.mem());
				n = a.final(c, form, out);
				a.destroy(c);
			}
			same(t, "digest of a shared hash", a.name, out, n, s.model->digest(a.final_size(form)));
		}
		void op_move(Task & t, const Step & st) {
			Shared & s = pool[st.a[1] % npool];
			if (!s.open) return;
			Guard g(*this, s, t.id, true);
			const Alg & a = algs()[s.alg];
			t.alg = s.alg;
			ctx.count(p_move);
			uint8_t * from = s.mem();
			uint8_t * to = s.cells[s.side ^ 1];
			{
				Lib l;
				if (st.a[2] % 2) a.move(to, from);
				else a.copy(to, from);
				a.destroy(from);
			}
			fill_garbage(st.a[2], from, cell);
			s.side ^= 1;
		}
		void op_close(Task & t, const Step & st) {
			Shared & s = pool[st.a[1] % npool];
			if (!s.open) return;
			Guard g(*this, s, t.id, true);
			const Alg & a = algs()[s.alg];
			t.alg = s.alg;
			t.object = static_cast<unsigned>(st.a[1] % npool);
			ctx.count(p_close);
			uint8_t out[max_digest];
			const unsigned form = static_cast<unsigned>(st.a[2]);
			size_t n;
			{
				Lib l;
				n = a.final(s.mem(), form, out);
				a.destroy(s.mem());
			}
			same(t, "final digest of a shared hash", a.name, out, n, s.model->digest(a.final_size(form)));
			open(static_cast<unsigned>(st.a[1] % npool), s.alg, st.a[3], st.a[4]);
			Lib l;
			a.make(s.mem(), s.seed);
		}
		void op_own(Task & t, const Step & st) {
			const unsigned ai = st.a[1] % algs().size();
			const Alg & a = algs()[ai];
			t.alg = ai;
			ctx.count(p_own);
			const uint64_t seed = a.reusable_final ? st.a[4] : 0;
			ref::Model m(spec(ai, seed));
			uint8_t * mem = t.arena;
			fill_garbage(st.a[4], t.arena, sizeof t.arena);
			{
				Lib l;
				a.make(mem, seed);
			}
			size_t len = st.a[2] % max_len, off = 0;
			const size_t parts = 1 + st.a[3] % 4;
			for (size_t i = 0; i != parts; ++i) {
				const size_t n = i + 1 == parts ? len - off : (len - off) * (mix(st.a[3], i) % 100) / 100;
				uint8_t * p = t.buffer + mix(st.a[5], i) % 64;
				fill_content(st.a[5], 5, off, p, n);
				m.update(p, n);
				{
					Lib l;
					a.update(mem, static_cast<unsigned>(st.a[6]), p, n);
				}
				fill_garbage(i, p, n);
				off += n;
			}
			uint8_t out[max_digest];
			const unsigned form = static_cast<unsigned>(st.a[6] / 16);
			size_t n;
			{
				Lib l;
				n = a.final(mem, form, out);
				a.destroy(mem);
			}
			same(t, "digest of a hash of its own", a.name, out, n, m.digest(a.final_size(form)));
		}
		void op_oneshot(Task & t, const Step & st) {
			const unsigned ai = st.a[1] % algs().size();
			const Alg & a = algs()[ai];
			if (!a.oneshot) return;
			t.alg = ai;
			ctx.count(p_oneshot);
			const uint64_t seed = a.reusable_final ? st.a[4] : 0;
			const size_t len = st.a[2] % max_len;
			uint8_t * p = t.buffer + st.a[5] % 64;
			fill_content(st.a[5], 5, 0, p, len);
			ref::Model m(spec(ai, seed));
			m.update(p, len);
			uint8_t out[max_digest];
			size_t n;
			{
				Lib l;
				n = a.oneshot(static_cast<unsigned>(st.a[3]), p, len, seed, out);
			}
			same(t, "one-shot digest", a.name, out, n, m.digest(a.final_size(0)));
		}
		void op_text(Task & t, const Step & st) {
			const auto & d = dig[st.a[1] % ndigests];
			const Digest & D = digests()[d.type];
			t.object = 100 + static_cast<unsigned>(st.a[1] % ndigests);
			ctx.count(p_text);
			const unsigned how = st.a[2] % 6;
			const unsigned enc = st.a[3] % (ref::encodings_count + 1) == ref::encodings_count ? default_enc : static_cast<unsigned>(st.a[3] % (2 * ref::encodings_count + 2));
			unsigned ck = st.a[4] % char_kinds;
			if (enc == default_enc || how >= 2) ck %= 2;
			const unsigned e = enc == default_enc ? 6 : enc % ref::encodings_count;
			if (e == 6 && enc == default_enc && how < 2) ck = c_char;
			uint32_t out[max_chars];
			size_t n = 0;
			const uint32_t * got = out;
			Sink<char> sink;
			Sink<wchar_t> wsink;
			Collect collect;
			switch (how) {
				case 0: {
					Lib l;
					n = D.to_string(d.mem, enc, ck, out);
					break;
				}
				case 1: {
					Lib l;
					n = D.to_fixed(d.mem, enc, ck, out);
					break;
				}
				case 2: {
					Lib l;
					n = D.format(d.mem, enc, ck, out);
					break;
				}
				case 3: {
					wchar_t raw[max_chars];
					{
						Lib l;
						n = D.format_to_buffer(d.mem, enc, ck, raw);
					}
					for (size_t i = 0; i != n; ++i) out[i] = ck == c_wchar ? static_cast<uint32_t>(raw[i]) : static_cast<uint32_t>(reinterpret_cast<unsigned char *>(raw)[i]);
					break;
				}
				case 4: {
					{
						Lib l;
						D.format_to_sink(d.mem, enc, ck, &collect, 1);
					}
					got = collect.text;
					n = collect.n;
					break;
				}
				case 5:
					if (ck == c_wchar) {
						std::wostream os(&wsink);
						{
							Lib l;
							D.wprint(d.mem, enc, os);
						}
						got = wsink.text;
						n = wsink.n;
					} else {
						std::ostream os(&sink);
						{
							Lib l;
							D.print(d.mem, enc, os);
						}
						got = sink.text;
						n = sink.n;
					}
					break;
			}
			static const char * const names[] = {"to_string", "to_fixed_string", "format", "format_to buffer", "format_to iterator", "print"};
			same_text(t, names[how], D.name, got, n, ref::encode(ref::encodings[e], d.raw, D.bytes));
		}
		void op_cmp(Task & t, const Step & st) {
			const auto & a = dig[st.a[1] % ndigests];
			const auto & b = dig[st.a[2] % ndigests];
			ctx.count(p_cmp);
			const Digest & D = digests()[a.type];
			t.object = 100 + static_cast<unsigned>(st.a[1] % ndigests);
			alignas(64) uint8_t mem[256];
			const void * other = b.mem;
			uint8_t raw[256];
			memcpy(raw, b.raw, sizeof raw);
			if (a.type != b.type || st.a[3] % 4 == 0) { // compare with a changed one of its own
				memcpy(raw, a.raw, sizeof raw);
				if (st.a[3] % 3) raw[st.a[4] % D.bytes] ^= static_cast<uint8_t>(1u << (st.a[5] % 8));
				Lib l;
				D.load(mem, raw);
				other = mem;
			}
			const int c = memcmp(a.raw, raw, D.bytes);
			bool eq;
			int cmp;
			unsigned rel;
			{
				Lib l;
				eq = D.eq(a.mem, other);
				cmp = D.cmp(a.mem, other);
				rel = D.relations(a.mem, other);
			}
			const int s = c < 0 ? -1 : c > 0 ? 1 : 0;
			ctx.ev(mix(static_cast<uint64_t>(s + 5), rel));
			is(t, eq == (s == 0) && cmp == s && rel == (unsigned(s < 0) | unsigned(s <= 0) << 1 | unsigned(s > 0) << 2 | unsigned(s >= 0) << 3 | unsigned(s == 0) << 4 | unsigned(s != 0) << 5), "wrong comparison");
		}
		void op_shake_pair(Task & t, const Step & st) {
			const ShakePair & p = shake_pairs()[st.a[1] % shake_pairs().size()];
			ctx.count(p_shake_pair);
			uint8_t a[512], b[512];
			const size_t n = std::min(p.a_bytes, p.b_bytes);
			fill_content(st.a[2], 5, 0, a, p.a_bytes);
			fill_content(st.a[2] + 1, 5, 0, b, p.b_bytes);
			memcpy(b, a, n);
			if (st.a[3] % 3) b[st.a[3] % n] ^= static_cast<uint8_t>(1u << (st.a[4] % 8));
			const int c0 = memcmp(a, b, n), c = c0 < 0 ? -1 : c0 > 0;
			bool eq;
			int cmp;
			{
				Lib l;
				eq = p.eq(a, b);
				cmp = p.cmp(a, b);
			}
			ctx.ev(mix(eq, static_cast<uint64_t>(cmp + 4)));
			is(t, eq == (c == 0) && cmp == c, "wrong comparison of SHAKE digests");
		}
		void op_parse(Task & t, const Step & st) {
			const unsigned type = st.a[1] % digests().size();
			const Digest & D = digests()[type];
			ctx.count(p_parse);
			uint8_t raw[256], got[256];
			fill_garbage(st.a[2], raw, D.bytes);
			const std::string hex = ref::encode(ref::encodings[6 + st.a[3] % 2], raw, D.bytes);
			char c8[600];
			wchar_t cw[600];
			char16_t c16[600];
			char32_t c32[600];
			for (size_t i = 0; i <= hex.size(); ++i) {
				c8[i] = hex.c_str()[i];
				cw[i] = static_cast<wchar_t>(c8[i]);
				c16[i] = static_cast<char16_t>(c8[i]);
				c32[i] = static_cast<char32_t>(c8[i]);
			}
			const unsigned ck = st.a[4] % char_kinds;
			const void * text = ck == c_wchar ? static_cast<void *>(cw) : ck == c_char16 ? static_cast<void *>(c16) : ck == c_char32 ? static_cast<void *>(c32) : static_cast<void *>(c8);
			alignas(64) uint8_t mem[256];
			{
				Lib l;
				D.parse(mem, text, ck);
				D.get(mem, got);
			}
			same(t, "parsed digest", D.name, got, D.bytes, ref::bytes(raw, raw + D.bytes));
		}
		void op_slice(Task & t, const Step & st) {
			const auto & a = dig[st.a[1] % ndigests];
			const Digest & D = digests()[a.type];
			ctx.count(p_slice);
			uint8_t out[256];
			const unsigned k = static_cast<unsigned>(st.a[2]);
			const size_t n = D.slice_size(k);
			{
				Lib l;
				if (st.a[3] % 2) D.prefix(a.mem, k, out);
				else D.suffix(a.mem, k, out);
			}
			const uint8_t * from = st.a[3] % 2 ? a.raw : a.raw + D.bytes - n;
			same(t, "prefix or suffix", D.name, out, n, ref::bytes(from, from + n));
		}
		void walk(Task & t, const Step & st, const View & V, const void * view, const uint8_t * data, size_t len) {
			uint32_t out[max_chars];
			size_t n = 0;
			const uint32_t * got = out;
			Sink<char> sink;
			Sink<wchar_t> wsink;
			Collect collect;
			const unsigned how = st.a[2] % walks;
			const std::string expect = ref::encode(ref::encodings[V.enc], data, len);
			static const char * const names[] = {"iterators", "iterators and a copy", "range for", "to_string", "format", "print", "format_to iterator", "size", "a copy of the view"};
			auto size = [&] {
				if (!V.sized) return;
				size_t s;
				{
					Lib l;
					s = V.size(view);
				}
				is(t, s == expect.size(), "wrong size of a view");
			};
			if (st.a[3] % 3) size();
			switch (how) {
				case 7: {
					for (unsigned again = 0; again != 1 + st.a[3] % 4; ++again) size();
					if (V.sized) return;
					[[fallthrough]];
				}
				case 8: {
					alignas(16) uint8_t copy[512];
					Lib l;
					V.copy(copy, view);
					n = V.range_for(copy, out, max_chars);
					V.destroy(copy);
					break;
				}
				case 0: {
					alignas(16) uint8_t it[512];
					Lib l;
					V.begin(const_cast<void *>(view), it, true);
					while (!V.at_end(view, it) && n != max_chars) {
						out[n++] = V.deref(it);
						V.inc(it);
					}
					V.it_destroy(it);
					break;
				}
				case 1: {
					alignas(16) uint8_t it[512], other[512];
					Lib l;
					V.begin(const_cast<void *>(view), it, true);
					for (size_t skip = 0; !V.at_end(view, it) && n != max_chars; ++skip) {
						if (skip == st.a[3] % 20) {
							V.it_copy(other, it);
							V.it_destroy(it);
							V.it_copy(it, other);
							V.it_destroy(other);
						}
						out[n++] = V.postinc(it);
					}
					V.it_destroy(it);
					break;
				}
				case 2: {
					Lib l;
					n = V.range_for(view, out, max_chars);
					break;
				}
				case 3:
					if (V.sized) {
						Lib l;
						n = V.to_string(view, out, max_chars);
						break;
					}
					[[fallthrough]];
				case 4: {
					Lib l;
					n = V.format(view, out, max_chars);
					break;
				}
				case 5: {
					std::ostream os(&sink);
					std::wostream wos(&wsink);
					{
						Lib l;
						V.print(view, &os, &wos);
					}
					got = V.ck == c_wchar ? wsink.text : sink.text;
					n = V.ck == c_wchar ? wsink.n : sink.n;
					break;
				}
				case 6: {
					{
						Lib l;
						V.format_to_sink(view, &collect, 1);
					}
					got = collect.text;
					n = collect.n;
					break;
				}
			}
			same_text(t, names[how], ref::encodings[V.enc].name, got, n, expect);
		}
		void op_view(Task & t, const Step & st) {
			const unsigned k = st.a[1] % nviews;
			t.object = 200 + k;
			ctx.count(p_view);
			walk(t, st, views()[vw[k].type], vw[k].mem, vw[k].data, vw[k].blob.n);
		}
		void op_own_view(Task & t, const Step & st) {
			const View & V = views()[st.a[1] % views().size()];
			ctx.count(p_own_view);
			const size_t len = std::min<size_t>(st.a[4] % max_view, V.source == src_owned ? owned_text_max : max_view);
			fill_content(st.a[5], 5, 0, t.buffer, len);
			Blob b{t.buffer, len};
			alignas(16) uint8_t mem[512];
			{
				Lib l;
				V.make(mem, &b);
			}
			walk(t, st, V, mem, t.buffer, len);
			Lib l;
			V.destroy(mem);
		}
		void op_stream(Task & t, const Step & st) {
			const unsigned enc = st.a[1] % ref::encodings_count;
			ctx.count(p_stream);
			const size_t len = st.a[2] % max_view;
			fill_content(st.a[3], 5, 0, t.buffer, len);
			Pieces sb(t.buffer, len, st.a[4] % 9);
			uint32_t out[max_chars];
			size_t n;
			{
				Lib l;
				n = encode_stream(enc, &sb, out, max_chars);
			}
			same_text(t, "stream source", ref::encodings[enc].name, out, n, ref::encode(ref::encodings[enc], t.buffer, len));
		}

		void body(Task & t) {
			while (sem_wait(&t.sem)) { }
			for (; t.at != t.ops.size() && !failed; ++t.at) {
				const Step & st = t.ops[t.at];
				t.kind = st.op;
				t.alg = t.object = ~0u;
				if (no_heap && ops_done++ == refuse_after) {
					heap::begin(0, 0);
					ctx.note("the heap refuses everything from now on");
				}
				if (no_heap && ops_done > refuse_after) ctx.count(f_heap_refusing);
				try {
					switch (st.op) {
						case UPDATE: op_update(t, st); break;
						case READ: op_read(t, st); break;
						case MOVE: op_move(t, st); break;
						case CLOSE: op_close(t, st); break;
						case OWN: op_own(t, st); break;
						case ONESHOT: op_oneshot(t, st); break;
						case TEXT: op_text(t, st); break;
						case CMP: op_cmp(t, st); break;
						case PARSE: op_parse(t, st); break;
						case SLICE: op_slice(t, st); break;
						case VIEW: op_view(t, st); break;
						case OWNVIEW: op_own_view(t, st); break;
						case STREAM: op_stream(t, st); break;
						case SHAKECMP: op_shake_pair(t, st); break;
						default: break;
					}
				} catch (const std::exception & e) {
					hooks::active = false;
					problem("exception", std::string("task ") + std::to_string(t.id) + ", " + op_names[st.op] + ": " + e.what());
				}
				if (ctx.verbose) ctx.note("task %u: %s done%s", t.id, op_names[st.op], failed ? " (wrong)" : "");
				if (no_heap && heap::attempts && !failed) problem("heap-allocation", std::string("an operation used the heap; completed last: ") + op_names[st.op] + " of task " + std::to_string(t.id));
				ctx.state(mix(mix(st.op, t.alg), mix(st.op >= TEXT ? st.a[2] % 8 : 0, mix(st.op >= TEXT ? st.a[3] % 24 : 0, no_heap && ops_done > refuse_after))));
				t.kind = t.alg = t.object = ~0u;
				boundary();
			}
			finish(t.id);
		}

		void run() {
			const auto & A = algs();
			// what all tasks share; in some runs nothing has touched the library before the tasks start
			const uint64_t setup = plan.param(1);
			const bool primed = setup % 4 != 0;
			if (!primed) ctx.count(p_first_use);
			for (unsigned i = 0; i != npool && primed; ++i) {
				open(i, static_cast<unsigned>(mix(plan.param(2), i % (1 + setup / 4 % 3)) % A.size()), mix(setup, i), i + 1);
				A[pool[i].alg].make(pool[i].mem(), pool[i].seed);
				if (i) feed(pool[i], tasks[0], mix(setup, i + 50) % 300, 0, 3);
			}
			for (unsigned i = 0; i != ndigests; ++i) {
				auto & d = dig[i];
				d.type = static_cast<unsigned>(mix(plan.param(3), i < 3 ? 0 : i) % digests().size());
				fill_garbage(plan.param(4) + (i == 2 ? 1 : i), d.raw, sizeof d.raw);
				if (i == 0) d.raw[0] ^= 1;
				digests()[d.type].load(d.mem, d.raw);
			}
			for (unsigned i = 0; i != nviews; ++i) {
				auto & v = vw[i];
				v.type = static_cast<unsigned>(mix(plan.param(5), i) % views().size());
				const size_t len = mix(plan.param(5), i + 9) % 48;
				fill_content(plan.param(4) + i, 5, 0, v.data, len);
				v.blob = {v.data, len};
				chain_piece = 1 + plan.param(5) % 7;
				views()[v.type].make(v.mem, &v.blob);
			}
			for (auto & s: plan.steps) {
				if (s.op == PREEMPT) preempts.push_back(s);
				else tasks[s.a[0] % ntasks].ops.push_back(s);
			}
			if (no_heap) heap::begin(0, ~0ull);
			world = this;
			hooks::event = [] { world->event(); };
			hooks::blocked = [] { world->blocked(); };
			arm();
			for (unsigned i = 0; i != ntasks; ++i) {
				tasks[i].id = i;
				sem_init(&tasks[i].sem, 0, 0);
			}
			for (auto & t: tasks) {
				if (pthread_create(&t.thread, nullptr, [](void * p) -> void * {
						world->body(*static_cast<Task *>(p));
						return nullptr;
					}, &t)) _exit(95);
			}
			sem_post(&tasks[0].sem);
			while (sem_wait(&main_sem)) { }
			for (auto & t: tasks) pthread_join(t.thread, nullptr);
			hooks::event = hooks::blocked = nullptr;
			hooks::countdown = INT64_MAX;
			ctx.ev(switches);
			if (failed) throw Fail{cls, msg};
			// the schedule is over: shared hashes hold exactly what they were given
			for (auto & s: pool) {
				if (!s.open) continue;
				uint8_t out[max_digest];
				const size_t n = A[s.alg].final(s.mem(), 0, out);
				same(tasks[0], "final digest after the run", A[s.alg].name, out, n, s.model->digest(A[s.alg].final_size(0)));
				A[s.alg].destroy(s.mem());
			}
			for (unsigned i = 0; i != ndigests; ++i) {
				uint8_t got[256];
				digests()[dig[i].type].get(dig[i].mem, got);
				is(tasks[0], !memcmp(got, dig[i].raw, digests()[dig[i].type].bytes), "a shared digest changed");
			}
			if (failed) throw Fail{cls, msg};
		}
	};

	void execute(const Plan & plan, Ctx & ctx) {
		auto w = std::make_unique<World>(ctx, plan);
		w->run();
	}

	void generate(Rng & r, Plan & p, bool no_heap) {
		const auto & A = algs();
		const unsigned ntasks = 2 + static_cast<unsigned>(r.below(3));
		p.params = {ntasks - 2, r.below(1000), r.next() & 0xFFFF, r.next() & 0xFFFF, r.next() & 0xFFFF, r.next() & 0xFFFF};
		if (no_heap) p.params.push_back(1 + r.below(12));
		static const uint64_t quiet_text[] = {1, 3, 4, 5}, quiet_walk[] = {0, 1, 2, 5, 6, 7, 8};
		static const unsigned quiet_entries[] = {span_byte, span_uchar, span_char, span_char8, span_schar, mutable_span_byte, view_char, view_char8, cont_array, literal_char, literal_char8};
		const unsigned per_task = 1 + static_cast<unsigned>(r.below(6));
		const bool focus = r.chance(1, 2); // everybody does the same kind of thing
		const unsigned the_alg = static_cast<unsigned>(r.below(A.size()));
		const unsigned the_kind = 1 + static_cast<unsigned>(r.below(op_count - 1));
		const uint64_t the_enc = r.below(22), the_how = r.below(walks), the_obj = r.below(8), the_view = r.below(views().size());
		auto entry = [&]() -> uint64_t { return no_heap ? r.pick(quiet_entries) : r.below(entry_count); };
		const bool large = r.chance(1, 150);
		auto view_len = [&]() -> uint64_t { return large ? 200 + r.below(1700) : r.below(48); };
		auto len = [&]() -> uint64_t {
			if (large && r.chance(1, 3)) return r.chance(1, 4) ? 65536 + r.below(4000) - 200 : r.below(1ull << r.below(17));
			switch (r.below(5)) {
				case 0: return r.below(4);
				case 1: return r.below(300);
				case 2: return 200 + r.below(800);
				default: return r.below(140);
			}
		};
		auto kind = [&]() -> unsigned {
			if (focus && r.chance(4, 5)) return the_kind;
			static const unsigned k[] = {UPDATE, UPDATE, READ, READ, READ, MOVE, CLOSE, OWN, OWN, OWN, OWN, ONESHOT, ONESHOT, TEXT, TEXT, TEXT, CMP, PARSE, SLICE, VIEW, VIEW, VIEW, OWNVIEW, OWNVIEW, STREAM, SHAKECMP};
			return r.pick(k);
		};
		uint64_t work = 1;
		for (unsigned t = 0; t != ntasks; ++t)
			for (unsigned i = 0; i != per_task; ++i) {
				const unsigned k = kind();
				const uint64_t alg = focus || r.chance(1, 2) ? the_alg : r.below(A.size());
				const uint64_t obj = focus ? the_obj : r.below(8);
				const uint64_t enc = focus ? the_enc : r.below(24);
				uint64_t how = focus && r.chance(3, 4) ? the_how : r.below(walks);
				if (no_heap) how = k == TEXT ? quiet_text[how % 4] : quiet_walk[how % 7];
				const uint64_t n = len();
				work += 200 + n * 10;
				switch (k) {
					case UPDATE: p.add(k, t, obj, n, entry(), r.below(64)); break;
					case READ: p.add(k, t, obj, r.below(64), r.below(64)); break;
					case MOVE: p.add(k, t, obj, r.below(2)); break;
					case CLOSE: p.add(k, t, obj, r.below(64), r.below(1000), r.below(1000)); break;
					case OWN: p.add(k, t, alg, n, r.below(1000), r.below(4) ? r.next() & 0xFFFFFF : 0, r.below(100000), no_heap ? r.below(72) / 16 * 16 * entry_count + entry() : r.below(1000)); break;
					case ONESHOT: p.add(k, t, alg, n, entry() + r.below(2) * entry_count, r.below(4) ? r.next() & 0xFFFFFF : 0, r.below(100000)); break;
					case TEXT: p.add(k, t, obj, how, enc, r.below(char_kinds)); break;
					case CMP: p.add(k, t, obj, r.below(8), r.below(100), r.below(256), r.below(8)); break;
					case PARSE: p.add(k, t, obj, r.below(100000), r.below(2), r.below(char_kinds)); break;
					case SLICE: p.add(k, t, obj, r.below(4), r.below(2)); break;
					case VIEW: p.add(k, t, obj, how, r.below(20)); break;
					case OWNVIEW: p.add(k, t, focus ? the_view : r.below(views().size()), how, r.below(20), view_len(), r.below(100000)); break;
					case STREAM: p.add(k, t, enc, view_len(), r.below(100000), r.below(9)); break;
					case SHAKECMP: p.add(k, t, r.below(1000), r.below(100000), r.below(10000), r.below(8)); break;
				}
			}
		// where tasks are preempted
		const unsigned profile = static_cast<unsigned>(r.below(4));
		const unsigned n = profile == 0 ? 1 + static_cast<unsigned>(r.below(3)) : static_cast<unsigned>(r.below(profile == 3 ? 300 : 60));
		for (unsigned i = 0; i != n; ++i) {
			uint64_t gap;
			switch (profile) {
				case 0: gap = r.below(work); break;
				case 1: gap = r.below(1ull << r.below(12)); break;
				case 2: gap = r.below(2 * work / n + 2); break;
				default: gap = r.below(20); break;
			}
			p.add(PREEMPT, gap, r.below(4), r.chance(1, 5) ? 1 + r.below(15) : 0);
		}
	}

	void generate_tasks(Rng & r, Plan & p, uint64_t, int) { generate(r, p, false); }
	void generate_no_heap(Rng & r, Plan & p, uint64_t, int) { generate(r, p, true); }

} // namespace

const char * const counter_names[] = {"fault:preempted-inside-an-operation", "fault:task-stalled", "fault:object-handed-to-another-task", "fault:task-waited-for-object", "fault:preempted-into-same-algorithm", "fault:preempted-into-same-object", "fault:operation-while-heap-refuses",
	"probe:shared-update", "probe:shared-read", "probe:shared-move", "probe:shared-close", "probe:own-stream", "probe:one-shot", "probe:digest-text", "probe:comparison", "probe:parse", "probe:slice", "probe:shared-view", "probe:own-view", "probe:stream-source", "probe:shake-pair", "probe:first-use-by-tasks", "probe:forced-switch"};
const unsigned counter_count = c_count;

const Scenario scenarios[] = {
	{"C05", generate_tasks, execute, op_names, op_count, 20, 1},
	{"C06", generate_no_heap, execute, op_names, op_count, 20, 20},
};
const unsigned scenario_count = 2;

} // namespace sim
