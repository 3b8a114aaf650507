// Text, views and stored digests under faults: C07 (failing allocations), C08 (failing sinks),
// C09 (interleaved traversals, failing sources), C10 (storage faults).
#include "alg.hpp"
#include "core.hpp"
#include "heap.hpp"
#include "hooks.hpp"
#include "raise.hpp"
#include "text.hpp"
#include <algorithm>
#include <cstdlib>
#include <memory>
#include <new>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
namespace {

	enum Counter : unsigned {
		f_alloc_single, f_alloc_from, f_alloc_refused, f_alloc_mask,
		f_sink_error, f_sink_throw, f_sink_badalloc, f_sink_accept_and_error, f_sink_transient, f_sink_full, f_sync_fail, f_already_failed, f_sink_recovered, f_iterator_throw, f_iterator_throw_once,
		f_interleave, f_copy, f_abandon, f_restart, f_fragmented, f_source_ends, f_source_throws, f_move,
		f_flip_digest, f_flip_data, f_torn, f_lost, f_misplaced, f_stale, f_truncated, f_extended, f_digit, f_case, f_bad_line, f_reordered, f_compensated,
		p_alloc_failed_cleanly, p_alloc_text_despite, p_retry_ok, p_no_alloc_needed, p_wide, p_padding, p_partial_text, p_full_text, p_exception_from_stream, p_mask_set, p_buffered, p_width_padded, p_width_unused,
		p_two_iterators, p_empty_source, p_chain, p_to_string, p_end_mid_group, p_equal, p_unequal, p_one_bit, p_order, p_slice, p_shake_pair, p_hex, p_binary,
		f_guard_end, f_guard_start, f_read_only, p_parse, p_huge, p_fenced, p_owned_survives,
		f_name_cut, f_name_extended, f_name_flip, f_name_case, f_name_lost, f_name_twice, f_name_swap, f_name_wide, f_name_zero, f_name_source_throws, p_name_accepted, p_name_rejected, p_name_default, p_selection_used_later,
		c_count
	};

	struct Lib {
		Lib() { hooks::active = true; }
		~Lib() { hooks::active = false; }
	};

	const std::vector<Alg> & algs() {
		static const std::vector<Alg> v = [] {
			std::vector<Alg> r;
			register_sha2_32(r);
			register_sha2_64(r);
			register_sha512t(r);
			register_sha3(r);
			register_shake(r);
			register_xxh(r);
			return r;
		}();
		return v;
	}

	constexpr size_t max_source = 70000, max_long = 8 * max_source + 64; // longest source, characters of its text
	uint32_t long_text[max_long];
	// mostly short; sometimes beyond 8-bit, seldom beyond 16-bit counters
	uint64_t long_length(Rng & r, uint64_t most) {
		const uint64_t l = r.chance(1, 12) ? 65536 + r.below(4000) - 200 : r.chance(1, 4) ? r.below(1ull << r.below(16)) : 200 + r.below(400);
		return std::min(l, most);
	}

	std::string narrow(const uint32_t * p, size_t n) {
		std::string s;
		for (size_t i = 0; i != n; ++i) s += p[i] < 128 ? static_cast<char>(p[i]) : '?';
		return s;
	}
	std::string shown(const std::string & s) { return s.size() > 90 ? s.substr(0, 90) + "..." : s; }

	const ref::Encoding & E(unsigned i) { return ref::encodings[i % ref::encodings_count]; }

	struct Value { // a digest and its bytes
		unsigned type;
		uint8_t raw[256];
		alignas(64) uint8_t mem[256];
		const Digest & d() const { return digests()[type]; }
		void load(unsigned t, uint64_t content) {
			type = t % digests().size();
			fill_content(content, content % 9, 0, raw, sizeof raw);
			digests()[type].load(mem, raw);
		}
		std::string text(unsigned enc) const { return ref::encode(enc == default_enc ? E(6) : E(enc), raw, d().bytes); }
		bool intact() const {
			uint8_t now[256];
			d().get(mem, now);
			return !memcmp(now, raw, d().bytes);
		}
	};
	unsigned enc_arg(uint64_t v) {
		v %= 2 * ref::encodings_count + 2;
		return v == ref::encodings_count || v == 2 * ref::encodings_count + 1 ? default_enc : static_cast<unsigned>(v);
	}

	struct ViewData {
		unsigned type;
		struct Bytes : std::vector<uint8_t> {
			Blob blob{};
		};
		std::shared_ptr<Bytes> bytes{std::make_shared<Bytes>()}; // shared with copies of the view
		std::string expected;
		alignas(64) uint8_t mem[512];
		bool made{false};
		const View & v() const { return views()[type]; }
		void make(unsigned t, size_t len, uint64_t content, size_t piece) {
			drop();
			type = t % views().size();
			if (v().source == src_owned) len = std::min(len, owned_text_max);
			bytes = std::make_shared<Bytes>();
			bytes->resize(len);
			fill_content(content, content % 9, 0, bytes->data(), len);
			bytes->blob = {bytes->data(), len};
			chain_piece = piece ? piece : 1;
			expected = ref::encode(E(v().enc), bytes->data(), bytes->size());
			v().make(mem, &bytes->blob);
			if (v().source == src_owned) fill_garbage(content, bytes->data(), len); // nobody else has these bytes any more
			made = true;
		}
		void drop() {
			if (!made) return;
			v().destroy(mem);
			fill_garbage(type, mem, sizeof mem);
			made = false;
		}
		const std::string & text() const { return expected; }
		~ViewData() { drop(); }
	};

	// ============================== C07 ==============================
	enum Op7 : unsigned { RENDER, RENDERVIEW, op7_count };
	const char * const op7_names[] = {"RENDER", "RENDERVIEW"};

	void exec7(const Plan & plan, Ctx & ctx) {
		for (auto & s: plan.steps) {
			uint32_t * const out = long_text;
			std::string expect, what;
			Value val;
			ViewData vd;
			unsigned enc = 0, ck = 0, how = 0;
			if (s.op == RENDER) {
				val.load(static_cast<unsigned>(s.a[0]), s.a[1]);
				enc = enc_arg(s.a[2]);
				ck = s.a[3] % char_kinds;
				how = s.a[4] % 2;
				if (how == 1) ck %= 2;
				if (how == 0 && enc == default_enc) ck = c_char;
				expect = val.text(enc);
				what = std::string(how ? "format of " : "to_string of ") + val.d().name + " as " + (enc == default_enc ? "default" : E(enc).name);
			} else {
				vd.make(static_cast<unsigned>(s.a[0]), s.a[2] % max_source, s.a[1], 1 + s.a[3] % 5);
				how = s.a[4] % 2;
				if (!vd.v().sized) how = 1;
				ck = vd.v().ck;
				expect = vd.text();
				what = std::string(how ? "format of a " : "to_string of a ") + E(vd.v().enc).name + " view of " + std::to_string(vd.bytes->size()) + " bytes";
			}
			if (ck == c_wchar) ctx.count(p_wide);
			if (expect.find('=') != std::string::npos) ctx.count(p_padding);
			auto attempt = [&](size_t & n) -> bool { // whether a text came back
				try {
					Lib l;
					if (s.op == RENDER) n = how ? val.d().format(val.mem, enc, ck, out) : val.d().to_string(val.mem, enc, ck, out);
					else n = how ? vd.v().format(vd.mem, out, max_long) : vd.v().to_string(vd.mem, out, max_long);
					return true;
				} catch (const std::exception &) {
					return false;
				}
			};
			auto check = [&](size_t n, const char * when) {
				ctx.ev_bytes(out, n * 4);
				if (narrow(out, n) != expect) ctx.fail("wrong-text", "%s %s: '%s' instead of '%s'", what.c_str(), when, shown(narrow(out, n)).c_str(), shown(expect).c_str());
			};
			uint64_t mask = 0, from = ~0ull;
			switch (s.a[5] % 4) {
				case 0: mask = 1ull << (s.a[6] % 64); ctx.count(f_alloc_single); break;
				case 1: from = s.a[6] % 24; ctx.count(f_alloc_from); break;
				case 2: mask = s.a[6]; ctx.count(f_alloc_mask); break;
				default: break;
			}
			heap::begin(mask, from);
			size_t n = 0;
			const bool ok = attempt(n);
			const uint64_t attempts = heap::attempts, refused = heap::refused, live = heap::live();
			ctx.count(f_alloc_refused, refused);
			ctx.ev(mix(ok, attempts));
			ctx.state(mix(mix(s.op * 2 + how, s.op == RENDER ? val.type : vd.type), mix(mix(enc, ck), mix(std::min<uint64_t>(attempts, 9), refused * 2 + ok))));
			ctx.note("%s: %llu allocations, %llu refused: %s", what.c_str(), (unsigned long long)attempts, (unsigned long long)refused, ok ? "text" : "exception");
			if (live) ctx.fail("leak", "%s: %llu blocks left behind after %s", what.c_str(), (unsigned long long)live, ok ? "success" : "failure");
			if (ok) {
				check(n, refused ? "although an allocation was refused" : "");
				if (refused) ctx.count(p_alloc_text_despite);
				if (!attempts) ctx.count(p_no_alloc_needed);
			} else {
				if (!refused) ctx.fail("false-failure", "%s: reported that memory is exhausted, but no allocation failed", what.c_str());
				ctx.count(p_alloc_failed_cleanly);
			}
			if (s.op == RENDER && !val.intact()) ctx.fail("digest-changed", "%s changed the digest", what.c_str());
			// memory is available again
			heap::begin(0, ~0ull);
			if (!attempt(n)) ctx.fail("false-failure", "%s: still fails after memory became available", what.c_str());
			check(n, "after memory became available again");
			if (!ok) ctx.count(p_retry_ok);
			if (heap::live()) ctx.fail("leak", "%s: %llu blocks left behind by the repetition", what.c_str(), (unsigned long long)heap::live());
			heap::begin(0, ~0ull);
		}
	}
	void gen7(Rng & r, Plan & p, uint64_t, int) {
		for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(6)); i != n; ++i) {
			const uint64_t mask = r.chance(1, 2) ? 1ull << r.below(12) | 1ull << r.below(12) : r.next() & r.next();
			const uint64_t kind = r.below(8) == 0 ? 3 : r.below(3);
			const uint64_t arg = kind == 2 ? mask : r.below(r.chance(1, 2) ? 4 : 16);
			if (r.chance(1, 2)) p.add(RENDER, r.below(digests().size()), r.below(100000), r.below(24), r.below(char_kinds), r.below(2), kind, arg);
			else p.add(RENDERVIEW, r.below(views().size()), r.below(100000), r.chance(1, 300) ? long_length(r, max_source - 1) : r.chance(1, 3) ? r.below(200) : r.below(40), r.below(5), r.below(2), kind, arg);
		}
	}

	// ============================== C08 ==============================
	enum FaultKind : unsigned { fk_error, fk_throw, fk_badalloc, fk_accept_and_error, fk_count };

	// a device behind a stream buffer with or without a put area
	template <typename C> struct Device : std::basic_streambuf<C> {
		using base = std::basic_streambuf<C>;
		using traits = typename base::traits_type;
		std::vector<C> got; // what the device accepted
		C area[64];
		size_t area_size;
		uint64_t countdown{~0ull}; // characters until the next fault
		unsigned kind{fk_error}, exception{0};
		bool permanent{false}, broken{false};
		bool sync_fails{false};
		uint64_t fired{0}, fired_kind[fk_count]{};
		bool in_sync{false};
		uint64_t sync_errors{0};

		explicit Device(size_t buffered): area_size{std::min<size_t>(buffered, 64)} {
			if (area_size) this->setp(area, area + area_size);
		}
		// false: refused; may throw
		bool accept(C c) {
			if (broken || countdown == 0) {
				if (!broken) countdown = ~0ull;
				broken = permanent;
				++fired;
				++fired_kind[kind];
				if (kind == fk_throw) raise(exception);
				if (kind == fk_badalloc) throw std::bad_alloc{};
				if (kind == fk_accept_and_error && !permanent) got.push_back(c);
				return false;
			}
			if (countdown != ~0ull) --countdown;
			got.push_back(c);
			return true;
		}
		bool drain() {
			while (this->pptr() != this->pbase()) {
				const C c = *this->pbase();
				const size_t before = got.size();
				auto shift = [&] {
					const size_t left = static_cast<size_t>(this->pptr() - this->pbase());
					std::char_traits<C>::move(area, area + 1, left - 1);
					this->setp(area, area + area_size);
					this->pbump(static_cast<int>(left - 1));
				};
				const bool ok = accept(c); // a throw keeps the put area as it is
				if (ok || got.size() != before) shift();
				if (!ok) return false;
			}
			return true;
		}
		typename base::int_type overflow(typename base::int_type c) override {
			if (area_size) {
				if (!drain()) return traits::eof();
				if (!traits::eq_int_type(c, traits::eof())) {
					*this->pptr() = traits::to_char_type(c);
					this->pbump(1);
				}
				return traits::not_eof(c);
			}
			if (traits::eq_int_type(c, traits::eof())) return traits::not_eof(c);
			return accept(traits::to_char_type(c)) ? c : traits::eof();
		}
		int sync() override {
			if (sync_fails) {
				++sync_errors;
				return -1;
			}
			if (area_size && !drain()) return -1;
			return 0;
		}
		// everything the stream has taken over so far
		std::string taken() const {
			std::string s;
			for (C c: got) s += static_cast<uint32_t>(c) < 128 ? static_cast<char>(c) : '?';
			for (C * p = this->pbase(); p != this->pptr(); ++p) s += static_cast<uint32_t>(*p) < 128 ? static_cast<char>(*p) : '?';
			return s;
		}
	};

	enum Op8 : unsigned { PRINT, PRINTVIEW, FAULT, CLEAR, FLUSH, MASK, FORMATTO, FORMATVIEWTO, FAILBEFORE, SETWIDTH, op8_count };
	const char * const op8_names[] = {"PRINT", "PRINTVIEW", "FAULT", "CLEAR", "FLUSH", "MASK", "FORMATTO", "FORMATVIEWTO", "FAILBEFORE", "WIDTH"};

	struct ThrowingSink : CharSink {
		std::string got;
		uint64_t limit;
		unsigned exception;
		bool once; // it recovers after the exception
		uint64_t thrown{0};
		ThrowingSink(uint64_t l, uint64_t e, bool o): limit{l}, exception{static_cast<unsigned>(e % raise_kinds)}, once{o} {
			put = [](CharSink * s, uint32_t c) {
				auto * me = static_cast<ThrowingSink *>(s);
				if (me->got.size() >= me->limit && !(me->once && me->thrown)) {
					++me->thrown;
					raise(me->exception);
				}
				me->got += c < 128 ? static_cast<char>(c) : '?';
			};
		}
	};

	template <typename C> void exec8_as(const Plan & plan, Ctx & ctx) {
		constexpr bool wide = std::is_same_v<C, wchar_t>;
		Device<C> dev(plan.param(1) % 33);
		if (dev.area_size) ctx.count(p_buffered);
		if (wide) ctx.count(p_wide);
		std::basic_ostream<C> os(&dev);
		std::string model; // what the device and the put area must hold together
		for (auto & s: plan.steps) {
			switch (s.op) {
				case FAULT:
					dev.countdown = s.a[0] % 600000;
					dev.kind = s.a[1] % fk_count;
					dev.exception = static_cast<unsigned>(s.a[1] / fk_count % raise_kinds);
					dev.permanent = s.a[2] % 3 == 0;
					dev.broken = false;
					ctx.note("FAULT kind %u after %llu characters%s", dev.kind, (unsigned long long)dev.countdown, dev.permanent ? ", permanent" : "");
					break;
				case CLEAR: // the sink recovers
					if (dev.broken || dev.fired) ctx.count(f_sink_recovered);
					dev.broken = false;
					dev.countdown = ~0ull;
					dev.sync_fails = false;
					try {
						os.clear();
					} catch (...) { }
					ctx.note("CLEAR");
					break;
				case MASK:
					ctx.count(p_mask_set);
					try {
						static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit};
						os.exceptions(masks[s.a[0] % 4]);
					} catch (const std::ios_base::failure &) { }
					ctx.note("MASK %llu", (unsigned long long)(s.a[0] % 4));
					break;
				case FAILBEFORE:
					ctx.count(f_already_failed);
					try {
						os.setstate(s.a[0] % 2 ? std::ios_base::badbit : std::ios_base::failbit);
					} catch (const std::ios_base::failure &) { }
					break;
				case SETWIDTH: { // for the next print only; where to pad and with what stays
					static const std::ios_base::fmtflags adjust[] = {std::ios_base::fmtflags{}, std::ios_base::left, std::ios_base::right, std::ios_base::internal};
					os.width(static_cast<std::streamsize>(s.a[0] % 1200));
					os.setf(adjust[s.a[1] % 4], std::ios_base::adjustfield);
					os.fill(static_cast<C>(" *0#z="[s.a[2] % 6]));
					ctx.note("WIDTH %llu, adjusted %llu, filled with '%c'", (unsigned long long)(s.a[0] % 1200), (unsigned long long)(s.a[1] % 4), " *0#z="[s.a[2] % 6]);
					break;
				}
				case FLUSH: {
					if (s.a[0] % 4 == 0) {
						dev.sync_fails = true;
						ctx.count(f_sync_fail);
					}
					try {
						os.flush();
					} catch (...) { }
					if (dev.taken() != model && dev.fired_kind[fk_accept_and_error] == 0) ctx.fail("sink-mismatch", "internal: device model");
					model = dev.taken();
					break;
				}
				case PRINT:
				case PRINTVIEW: {
					Value val;
					ViewData vd;
					std::string text, what;
					unsigned enc = 0;
					if (s.op == PRINT) {
						val.load(static_cast<unsigned>(s.a[0]), s.a[1]);
						enc = enc_arg(s.a[2]);
						text = val.text(enc);
						what = std::string("printing ") + val.d().name + " as " + (enc == default_enc ? "default" : E(enc).name);
					} else {
						unsigned t = static_cast<unsigned>(s.a[0] % views().size());
						while ((views()[t].ck == c_wchar) != wide) t = (t + 1) % static_cast<unsigned>(views().size());
						vd.make(t, s.a[2] % max_source, s.a[1], 1 + s.a[3] % 5);
						text = vd.text();
						what = std::string("printing a ") + E(vd.v().enc).name + " view";
					}
					const bool bad_before = !os.good();
					// the field takes the text as a whole (if its length is known beforehand)
					const auto width = static_cast<size_t>(os.width());
					if (width > text.size() && (s.op == PRINT || vd.v().pads)) {
						const std::string padding(width - text.size(), static_cast<char>(os.fill()));
						if ((os.flags() & std::ios_base::adjustfield) == std::ios_base::left) text += padding;
						else text = padding + text;
						ctx.count(p_width_padded);
					} else if (width) ctx.count(p_width_unused);
					const uint64_t fired = dev.fired;
					uint64_t fired_kind[fk_count];
					memcpy(fired_kind, dev.fired_kind, sizeof fired_kind);
					bool threw = false, same_stream = true;
					try {
						if constexpr (wide) same_stream = s.op == PRINT ? val.d().wprint(val.mem, enc, os) : vd.v().print(vd.mem, nullptr, &os);
						else same_stream = s.op == PRINT ? val.d().print(val.mem, enc, os) : vd.v().print(vd.mem, &os, nullptr);
					} catch (...) {
						threw = true;
						ctx.count(p_exception_from_stream);
					}
					const bool fault = dev.fired != fired;
					if (fault) {
						static const unsigned ids[] = {f_sink_error, f_sink_throw, f_sink_badalloc, f_sink_accept_and_error};
						for (unsigned k = 0; k != fk_count; ++k)
							if (dev.fired_kind[k] != fired_kind[k]) ctx.count(ids[k]);
						ctx.count(dev.permanent ? f_sink_full : f_sink_transient);
					}
					const std::string now = dev.taken();
					if (now.size() < model.size() || now.compare(0, model.size(), model) != 0) ctx.fail("sink-disturbed", "%s: changed what had been printed before", what.c_str());
					const std::string added = now.substr(model.size());
					model = now;
					ctx.ev_bytes(added.data(), added.size());
					ctx.ev(static_cast<uint64_t>(os.rdstate()) * 2 + threw);
					ctx.state(mix(mix(s.op, enc), mix(mix(dev.area_size, fault ? dev.kind + 1 : 0), mix(static_cast<uint64_t>(os.rdstate()), mix(static_cast<uint64_t>(os.exceptions()), std::min<size_t>(added.size(), 40))))));
					ctx.note("%s: %zu of %zu characters, state %d%s", what.c_str(), added.size(), text.size(), static_cast<int>(os.rdstate()), threw ? ", exception" : "");
					if (added.size() > text.size() || text.compare(0, added.size(), added) != 0) ctx.fail("not-a-prefix", "%s: the sink received '%s', which is no prefix of '%s'", what.c_str(), shown(added).c_str(), shown(text).c_str());
					if (added.size() == text.size()) ctx.count(p_full_text);
					else ctx.count(p_partial_text);
					if (added.size() != text.size() && os.good() && !threw) ctx.fail("silent-truncation", "%s: %zu of %zu characters arrived, but the stream is still good and nothing was thrown", what.c_str(), added.size(), text.size());
					if (!bad_before && !fault && (threw || !os.good())) ctx.fail("false-failure", "%s: no fault happened, but the stream failed", what.c_str());
					if (!bad_before && !fault && added.size() != text.size()) ctx.fail("truncated", "%s: no fault happened, but only %zu of %zu characters arrived", what.c_str(), added.size(), text.size());
					if (bad_before && !added.empty()) ctx.fail("printed-after-failure", "%s: the stream had failed before and was not cleared, but the sink received '%s'", what.c_str(), shown(added).c_str());
					if (!bad_before && !fault && os.width() != 0) ctx.fail("width-kept", "%s: the width of the stream is still %lld afterwards", what.c_str(), static_cast<long long>(os.width()));
					os.width(0); // what a failure does to it is nobody's business
					if (!threw && !same_stream) ctx.fail("other-stream", "%s returned another stream", what.c_str());
					if (s.op == PRINT && !val.intact()) ctx.fail("digest-changed", "%s changed the digest", what.c_str());
					break;
				}
				case FORMATTO:
				case FORMATVIEWTO: {
					Value val;
					ViewData vd;
					std::string text;
					const bool limited = s.a[4] % 4 != 0;
					const unsigned times = 1 + static_cast<unsigned>(s.a[6] % 4);
					ThrowingSink sink(limited ? s.a[5] % 2000000 : ~0ull, s.a[4] / 4, s.a[6] / 4 % 2);
					unsigned enc = 0;
					bool threw = false;
					if (s.op == FORMATTO) {
						val.load(static_cast<unsigned>(s.a[0]), s.a[1]);
						enc = enc_arg(s.a[2]);
						text = val.text(enc);
					} else {
						vd.make(static_cast<unsigned>(s.a[0]), s.a[2] % max_source, s.a[1], 1 + s.a[3] % 5);
						text = vd.text();
					}
					const std::string field = text;
					for (unsigned i = 1; i < times; ++i) text += "|" + field;
					try {
						if (s.op == FORMATTO) val.d().format_to_sink(val.mem, enc, wide, &sink, times);
						else vd.v().format_to_sink(vd.mem, &sink, times);
					} catch (...) {
						threw = true;
						const unsigned got = raised();
						if (limited && got != sink.exception) ctx.fail("other-exception", "format_to: the iterator threw %s, the caller got %s", raise_names[sink.exception], raise_names[got]);
					}
					if (threw) ctx.count(sink.once ? f_iterator_throw_once : f_iterator_throw);
					ctx.ev_bytes(sink.got.data(), sink.got.size());
					ctx.ev(threw);
					ctx.state(mix(mix(s.op, enc), mix(std::min<size_t>(sink.got.size(), 300), threw)));
					ctx.note("format_to: %zu of %zu characters%s", sink.got.size(), text.size(), threw ? ", exception" : "");
					if (sink.got.size() > text.size() || text.compare(0, sink.got.size(), sink.got) != 0) ctx.fail("not-a-prefix", "format_to: the iterator received '%s', which is no prefix of '%s'", shown(sink.got).c_str(), shown(text).c_str());
					if (!threw && sink.got != text) ctx.fail("silent-truncation", "format_to: %zu of %zu characters, no exception", sink.got.size(), text.size());
					if (threw && !sink.thrown) ctx.fail("false-failure", "format_to: an exception without a fault");
					if (!threw && sink.thrown) ctx.fail("swallowed", "format_to: the iterator threw, the caller did not get the exception");
					break;
				}
			}
		}
	}
	void exec8(const Plan & plan, Ctx & ctx) {
		if (plan.param(0) % 2) exec8_as<wchar_t>(plan, ctx);
		else exec8_as<char>(plan, ctx);
	}
	void gen8(Rng & r, Plan & p, uint64_t, int) {
		p.params = {r.below(2), r.chance(1, 2) ? 0 : r.below(33)};
		const bool large = r.chance(1, 300);
		for (unsigned i = 0, n = 2 + static_cast<unsigned>(r.below(r.chance(1, 4) ? 24 : 8)); i != n; ++i) {
			switch (r.below(14)) {
				case 0:
				case 1:
				case 2:
				case 3: p.add(PRINT, r.below(digests().size()), r.below(100000), r.below(24)); break;
				case 4:
				case 5: p.add(PRINTVIEW, r.below(views().size()), r.below(100000), large ? long_length(r, max_source - 1) : r.chance(1, 4) ? r.below(150) : r.below(24), r.below(5)); break;
				case 6:
				case 7:
				case 8: p.add(FAULT, r.below(large && r.chance(1, 2) ? 1ull << r.below(20) : r.chance(1, 3) ? 600 : r.chance(1, 2) ? 130 : 20), r.below(fk_count * raise_kinds), r.below(3)); break;
				case 9: p.add(CLEAR); break;
				case 10:
					if (r.chance(1, 2)) p.add(FLUSH, r.below(4));
					else p.add(SETWIDTH, r.chance(1, 4) ? r.below(1200) : r.below(150), r.below(4), r.below(6));
					break;
				case 11: p.add(MASK, r.below(4)); break;
				case 12:
					if (r.chance(1, 3)) p.add(FAILBEFORE, r.below(2));
					else p.add(CLEAR);
					break;
				case 13:
					if (r.chance(1, 2)) p.add(FORMATTO, r.below(digests().size()), r.below(100000), r.below(24), 0, r.below(4 * raise_kinds), r.below(r.chance(1, 4) ? 2400 : r.chance(1, 2) ? 600 : 70), r.below(8));
					else p.add(FORMATVIEWTO, r.below(views().size()), r.below(100000), large ? long_length(r, max_source - 1) : r.chance(1, 4) ? r.below(150) : r.below(24), r.below(5), r.below(4 * raise_kinds), r.below(large ? 1ull << r.below(21) : r.chance(1, 4) ? 2400 : r.chance(1, 2) ? 600 : 70), r.below(8));
					break;
			}
		}
		// the sink recovers: everything is delivered in full again
		p.add(CLEAR);
		if (r.chance(1, 4)) p.add(SETWIDTH, r.below(150), r.below(4), r.below(6));
		p.add(PRINT, r.below(digests().size()), r.below(100000), r.below(24));
		p.add(PRINTVIEW, r.below(views().size()), r.below(100000), r.below(30), r.below(5));
	}

	// ============================== C09 ==============================
	struct Source : std::streambuf {
		std::vector<char> data;
		uint64_t seed;
		uint64_t throws_at; // bytes delivered before the fault
		unsigned exception;
		size_t at{0};
		uint64_t calls{0};
		bool threw{false};
		Source(const std::vector<uint8_t> & d, uint64_t s, uint64_t t, uint64_t e): data(d.begin(), d.end()), seed{s}, throws_at{t}, exception{static_cast<unsigned>(e % raise_kinds)} { }
		int_type underflow() override {
			if (gptr() && gptr() < egptr()) return traits_type::to_int_type(*gptr());
			at = static_cast<size_t>(egptr() ? egptr() - data.data() : 0);
			if (at == throws_at) {
				threw = true;
				raise(exception);
			}
			if (at == data.size()) return traits_type::eof();
			size_t k = 1 + mix(seed, calls++) % (seed % 3 == 0 ? 1 : seed % 3 == 1 ? 5 : 64);
			k = std::min(k, data.size() - at);
			if (throws_at > at) k = std::min<size_t>(k, throws_at - at);
			setg(data.data() + at, data.data() + at, data.data() + at + k);
			return traits_type::to_int_type(*gptr());
		}
	};

	enum Op9 : unsigned { NEWVIEW, COPYVIEW, BEGIN, NEXT, POSTNEXT, ITCOPY, ITASSIGN, ITDROP, RUNOUT, WHOLE, STREAM9, HUGE9, op9_count };
	const char * const op9_names[] = {"NEWVIEW", "COPYVIEW", "BEGIN", "NEXT", "POSTNEXT", "ITCOPY", "ITASSIGN", "ITDROP", "RUNOUT", "WHOLE", "STREAM", "HUGE"};
	constexpr unsigned nv = 3, ni = 5;

	struct World9 {
		Ctx & ctx;
		const Plan & plan;
		struct {
			bool used{false};
			ViewData vd;
			std::string text;
			uint64_t generation{0};
		} v[nv];
		struct Iter {
			bool used{false};
			unsigned view;
			size_t pos;
			alignas(64) uint8_t mem[512];
		} it[ni];
		unsigned last{~0u};

		World9(Ctx & c, const Plan & p): ctx{c}, plan{p} { }
		~World9() {
			for (unsigned i = 0; i != ni; ++i) drop(i);
		}
		const View & V(const Iter & i) { return v[i.view].vd.v(); }
		void drop(unsigned i) {
			if (!it[i].used) return;
			V(it[i]).it_destroy(it[i].mem);
			fill_garbage(i, it[i].mem, sizeof it[i].mem);
			it[i].used = false;
		}
		void drop_view(unsigned k) {
			for (unsigned i = 0; i != ni; ++i)
				if (it[i].used && it[i].view == k) {
					ctx.count(f_abandon);
					drop(i);
				}
			v[k].vd.drop();
			v[k].used = false;
		}
		// what an iterator shows must be the character at its position
		void check(unsigned i, const char * when) {
			Iter & x = it[i];
			const std::string & t = v[x.view].text;
			const View & d = V(x);
			const bool end = d.at_end(v[x.view].vd.mem, x.mem);
			ctx.ev(mix(i, mix(x.pos, end)));
			if (end != (x.pos == t.size())) ctx.fail("wrong-end", "%s view of %zu bytes: at position %zu of %zu the iterator says %s (%s)", E(d.enc).name, v[x.view].vd.bytes->size(), x.pos, t.size(), end ? "end" : "not the end", when);
			if (!end) {
				const uint32_t c = d.deref(x.mem);
				ctx.ev(c);
				if (c != static_cast<unsigned char>(t[x.pos])) ctx.fail("wrong-character", "%s view of %zu bytes: position %zu shows '%c' instead of '%c' (%s)", E(d.enc).name, v[x.view].vd.bytes->size(), x.pos, c < 128 ? static_cast<int>(c) : '?', t[x.pos], when);
			}
			unsigned active = 0;
			for (auto & o: it) active += o.used && o.view == x.view;
			if (active > 1) ctx.count(p_two_iterators);
			if (last != ~0u && last != i) ctx.count(f_interleave);
			last = i;
			ctx.state(mix(mix(v[x.view].vd.type, x.pos % 17), mix(v[x.view].vd.bytes->size() % 8, mix(std::min<size_t>(t.size() - x.pos, 10), active))));
		}
		void step(const Step & s) {
			switch (s.op) {
				case NEWVIEW: {
					const unsigned k = s.a[0] % nv;
					drop_view(k);
					v[k].vd.make(static_cast<unsigned>(s.a[1]), s.a[2] % max_source, s.a[3], 1 + s.a[4] % 7);
					v[k].text = v[k].vd.text();
					v[k].used = true;
					if (v[k].vd.bytes->empty()) ctx.count(p_empty_source);
					if (v[k].vd.v().source == src_chain) ctx.count(p_chain);
					if (v[k].text.find('=') != std::string::npos) ctx.count(p_padding);
					if (v[k].vd.v().ck == c_wchar) ctx.count(p_wide);
					ctx.note("NEWVIEW %u: %s of %zu bytes, source kind %u", k, E(v[k].vd.v().enc).name, v[k].vd.bytes->size(), v[k].vd.v().source);
					break;
				}
				case COPYVIEW: {
					const unsigned from = s.a[0] % nv, to = s.a[1] % nv;
					if (!v[from].used || from == to) break;
					drop_view(to);
					ViewData & a = v[from].vd;
					ViewData & b = v[to].vd;
					b.type = a.type;
					b.bytes = a.bytes; // a copy refers to the same source
					b.expected = a.expected;
					if (s.a[2] / 2 % 2) {
						for (unsigned i = 0; i != ni; ++i)
							if (it[i].used && it[i].view == from) drop(i);
						b.v().move(b.mem, a.mem);
						ctx.count(f_move);
					} else b.v().copy(b.mem, a.mem);
					b.made = true;
					v[to].text = v[from].text;
					v[to].used = true;
					ctx.count(f_copy);
					ctx.note("COPYVIEW %u -> %u%s", from, to, s.a[2] / 2 % 2 ? " (move)" : s.a[2] % 2 ? ", the original disappears" : "");
					if (s.a[2] % 4) { // the copy goes on, the original is gone
						drop_view(from);
						if (b.v().source == src_owned) ctx.count(p_owned_survives);
					}
					break;
				}
				case BEGIN: {
					const unsigned i = s.a[0] % ni, k = s.a[1] % nv;
					if (!v[k].used) break;
					if (it[i].used && it[i].view == k) ctx.count(f_restart);
					drop(i);
					it[i].used = true;
					it[i].view = k;
					it[i].pos = 0;
					V(it[i]).begin(v[k].vd.mem, it[i].mem, s.a[2] % 2);
					check(i, "begin");
					break;
				}
				case NEXT:
				case POSTNEXT: {
					const unsigned i = s.a[0] % ni;
					if (!it[i].used) break;
					for (uint64_t n = 0; n <= s.a[1] % 40 && it[i].pos < v[it[i].view].text.size(); ++n) {
						if (s.op == NEXT) V(it[i]).inc(it[i].mem);
						else {
							const uint32_t c = V(it[i]).postinc(it[i].mem);
							if (c != static_cast<unsigned char>(v[it[i].view].text[it[i].pos])) ctx.fail("wrong-character", "%s view: post-increment at %zu gave '%c'", E(V(it[i]).enc).name, it[i].pos, c < 128 ? static_cast<int>(c) : '?');
						}
						++it[i].pos;
						check(i, op9_names[s.op]);
					}
					break;
				}
				case ITCOPY: {
					const unsigned a = s.a[0] % ni, b = s.a[1] % ni;
					if (a == b || !it[a].used) break;
					drop(b);
					V(it[a]).it_copy(it[b].mem, it[a].mem);
					it[b].used = true;
					it[b].view = it[a].view;
					it[b].pos = it[a].pos;
					ctx.count(f_copy);
					check(b, "copy");
					check(a, "copied from");
					break;
				}
				case ITASSIGN: {
					const unsigned a = s.a[0] % ni, b = s.a[1] % ni;
					if (!it[a].used || !it[b].used || v[it[a].view].vd.type != v[it[b].view].vd.type || !V(it[a]).same_kind(it[a].mem, it[b].mem)) break;
					V(it[a]).it_assign(it[b].mem, it[a].mem);
					it[b].view = it[a].view;
					it[b].pos = it[a].pos;
					ctx.count(f_copy);
					check(b, "assignment");
					check(a, "assigned from");
					break;
				}
				case ITDROP: {
					const unsigned i = s.a[0] % ni;
					if (!it[i].used) break;
					ctx.count(f_abandon);
					drop(i);
					break;
				}
				case RUNOUT: {
					const unsigned i = s.a[0] % ni;
					if (!it[i].used) break;
					while (it[i].pos < v[it[i].view].text.size()) {
						V(it[i]).inc(it[i].mem);
						++it[i].pos;
						check(i, "running to the end");
					}
					break;
				}
				case WHOLE: {
					const unsigned k = s.a[0] % nv;
					if (!v[k].used) break;
					const View & d = v[k].vd.v();
					uint32_t * const out = long_text;
					size_t n = 0;
					const char * what = "range for";
					if (d.sized && d.size(v[k].vd.mem) != v[k].text.size()) ctx.fail("wrong-size", "%s view of %zu bytes: size() is %zu, the text has %zu characters", E(d.enc).name, v[k].vd.bytes->size(), d.size(v[k].vd.mem), v[k].text.size());
					switch (s.a[1] % 4) {
						case 0: n = d.range_for(v[k].vd.mem, out, max_long); break;
						case 1:
							if (d.sized) {
								n = d.to_string(v[k].vd.mem, out, max_long);
								what = "to_string";
								ctx.count(p_to_string);
								break;
							}
							[[fallthrough]];
						default:
							n = d.format(v[k].vd.mem, out, max_long);
							what = "format";
							break;
					}
					ctx.ev_bytes(out, n * 4);
					if (narrow(out, n) != v[k].text) ctx.fail("wrong-text", "%s of a %s view of %zu bytes: '%s' instead of '%s'", what, E(d.enc).name, v[k].vd.bytes->size(), shown(narrow(out, n)).c_str(), shown(v[k].text).c_str());
					ctx.note("WHOLE view %u (%s): ok", k, what);
					break;
				}
				case HUGE9: huge(s); break;
				case STREAM9: {
					const unsigned enc = s.a[0] % ref::encodings_count;
					std::vector<uint8_t> data(s.a[1] % max_source);
					fill_content(s.a[2], s.a[2] % 9, 0, data.data(), data.size());
					const bool faulty = s.a[4] % 3 == 0 && s.a[5] <= data.size();
					Source src(data, s.a[3], faulty ? s.a[5] : ~0ull, s.a[6]);
					uint32_t * const out = long_text;
					const size_t most_text = data.size() * 8 + 64;
					const size_t limit = s.a[4] % 3 == 1 ? s.a[5] : most_text;
					bool threw = false;
					size_t n = 0;
					// the text arrives character by character: keep what came before an exception
					std::fill(out, out + most_text, 0xFFFF);
					try {
						n = encode_stream(enc, &src, out, std::min<size_t>(limit, most_text));
					} catch (...) {
						threw = true;
						const unsigned e = raised();
						if (src.threw && e != src.exception) ctx.fail("other-exception", "%s of a stream: the source threw %s, the caller got %s", E(enc).name, raise_names[src.exception], raise_names[e]);
					}
					if (threw)
						while (n != most_text && out[n] != 0xFFFF) ++n;
					ctx.count(f_fragmented);
					const std::string got = narrow(out, n);
					ctx.ev_bytes(got.data(), got.size());
					ctx.ev(threw);
					ctx.state(mix(mix(STREAM9, enc), mix(mix(data.size() % 8, faulty ? 1 + s.a[5] % 8 : 0), threw * 4 + (limit != most_text))));
					ctx.note("STREAM %s of %zu bytes: %zu characters%s", E(enc).name, data.size(), n, threw ? ", exception" : "");
					if (threw != src.threw) ctx.fail("fault-not-reported", "%s of a stream: the source failed, but no exception came through", E(enc).name);
					if (faulty && !threw && limit == most_text) ctx.fail("fault-not-reported", "%s of a stream: the failing source was never asked", E(enc).name);
					if (threw) {
						ctx.count(f_source_throws);
						const std::string part = ref::encode(E(enc), data.data(), data.size()); // a prefix of the full text, from whole symbols only
						const size_t most = s.a[5] * 8 / E(enc).bits;
						if (got.size() > most || part.compare(0, got.size(), got) != 0) ctx.fail("not-a-prefix", "%s of a stream that failed after %llu bytes delivered '%s'", E(enc).name, (unsigned long long)s.a[5], shown(got).c_str());
						break;
					}
					ctx.count(f_source_ends);
					if (data.size() * 8 % E(enc).bits) ctx.count(p_end_mid_group);
					std::string text = ref::encode(E(enc), data.data(), data.size());
					if (limit < text.size()) {
						text.resize(limit);
						ctx.count(f_abandon);
					}
					if (text.size() > most_text) text.resize(most_text);
					if (got != text) ctx.fail("wrong-text", "%s of a stream of %zu bytes: '%s' instead of '%s'", E(enc).name, data.size(), shown(got).c_str(), shown(text).c_str());
					break;
				}
			}
		}
		// a source of gigabytes to terabytes: only its beginning is ever read, everything behind is inaccessible
		void huge(const Step & s) {
			static uint8_t * base = nullptr;
			if (!base) {
				void * p = mmap(nullptr, 1ull << 45, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (p == MAP_FAILED) return;
				base = static_cast<uint8_t *>(p);
				mprotect(base, 4096, PROT_READ | PROT_WRITE);
			}
			const View & d = views()[s.a[0] % views().size()];
			if (d.source == src_owned) return;
			const auto & e = E(d.enc);
			const Blob b{base, std::min<size_t>(s.a[1] | 1u << 20, 1ull << 45)};
			fill_content(s.a[2], s.a[2] % 9, 0, base, 4096);
			const std::string text = ref::encode(e, base, 64); // the first characters of it
			chain_piece = 1 + s.a[3] % 5;
			alignas(16) uint8_t v[512], it[512];
			d.make(v, &b);
			unsigned group = 8;
			while (group % e.bits) group += 8;
			const size_t want = e.pad ? (b.n + group / 8 - 1) / (group / 8) * (group / e.bits) : (b.n * 8 + e.bits - 1) / e.bits;
			const size_t got = d.sized ? d.size(v) : want;
			ctx.ev(got);
			ctx.count(p_huge);
			ctx.state(mix(mix(HUGE9, d.enc), mix(d.source, static_cast<uint64_t>(63 - __builtin_clzll(b.n)))));
			ctx.note("HUGE %s of %zu bytes: size %zu", e.name, b.n, got);
			if (got != want) ctx.fail("wrong-size", "%s view of %zu bytes: size() is %zu instead of %zu", e.name, b.n, got, want);
			d.begin(v, it, s.a[3] / 8 % 2);
			for (size_t i = 0, n = s.a[3] / 16 % 60; i != n; ++i) {
				if (d.at_end(v, it)) ctx.fail("wrong-end", "%s view of %zu bytes: ends at position %zu", e.name, b.n, i);
				const uint32_t c = d.deref(it);
				ctx.ev(c);
				if (c != static_cast<unsigned char>(text[i])) ctx.fail("wrong-character", "%s view of %zu bytes: position %zu shows '%c' instead of '%c'", e.name, b.n, i, c < 128 ? static_cast<int>(c) : '?', text[i]);
				d.inc(it);
			}
			d.it_destroy(it);
			d.destroy(v);
		}
		void run() {
			for (auto & s: plan.steps) step(s);
			// every traversal still under way ends correctly
			for (unsigned i = 0; i != ni; ++i) step(Step::make(RUNOUT, i));
		}
	};
	void exec9(const Plan & plan, Ctx & ctx) {
		auto w = std::make_unique<World9>(ctx, plan);
		w->run();
	}
	void gen9(Rng & r, Plan & p, uint64_t, int) {
		const unsigned used = 1 + static_cast<unsigned>(r.below(nv));
		const bool large = r.chance(1, 400);
		auto len = [&]() -> uint64_t { return large && r.chance(1, 2) ? long_length(r, max_source - 1) : r.chance(1, 8) ? r.below(64) : r.below(18); };
		auto fresh = [&](unsigned k) { p.add(NEWVIEW, k, r.below(views().size()), len(), r.below(100000), r.below(7)); };
		for (unsigned k = 0; k != used; ++k) fresh(k);
		const unsigned n = 4 + static_cast<unsigned>(r.below(r.chance(1, 4) ? 80 : 24));
		const bool streams = r.chance(1, 2);
		if (r.chance(1, 20)) {
			const uint64_t bits = 20 + r.below(26), near = 1ull << bits;
			p.add(HUGE9, r.below(views().size()), r.chance(1, 2) ? near + r.below(17) - 8 : r.next() % near, r.below(100000), r.below(16 * 60));
		}
		for (unsigned i = 0; i != n; ++i) {
			switch (r.below(16)) {
				case 0: fresh(static_cast<unsigned>(r.below(used))); break;
				case 1: p.add(COPYVIEW, r.below(nv), r.below(nv), r.below(4)); break;
				case 2:
				case 3:
				case 4: p.add(BEGIN, r.below(ni), r.below(used), r.below(2)); break;
				case 5:
				case 6:
				case 7: p.add(NEXT, r.below(ni), r.chance(1, 3) ? r.below(40) : r.below(5)); break;
				case 8: p.add(POSTNEXT, r.below(ni), r.below(5)); break;
				case 9:
				case 10: p.add(ITCOPY, r.below(ni), r.below(ni)); break;
				case 11: p.add(ITASSIGN, r.below(ni), r.below(ni)); break;
				case 12: p.add(r.chance(1, 2) ? ITDROP : RUNOUT, r.below(ni)); break;
				case 13: p.add(WHOLE, r.below(used), r.below(4)); break;
				default:
					if (streams) {
						const uint64_t l = large && r.chance(1, 3) ? long_length(r, max_source - 1) : r.chance(1, 4) ? r.below(200) : r.below(24);
						p.add(STREAM9, r.below(ref::encodings_count), l, r.below(100000), r.below(1000), r.below(3), r.below(l + 2), r.below(raise_kinds));
					} else p.add(NEXT, r.below(ni), r.below(3));
			}
		}
	}

	// ============================== C10 ==============================
	// a store of records: some data, and its digest in binary or hexadecimal form
	enum Op10 : unsigned { STORE, FLIPDATA, FLIPDIGEST, TORN, LOST, MISPLACE, STALE, TRUNCATE, EXTEND, DIGIT, LETTERCASE, VERIFY, ORDER, SLICE10, SHAKE, BADLINE, REORDER, COMPENSATE, op10_count };
	const char * const op10_names[] = {"STORE", "FLIPDATA", "FLIPDIGEST", "TORN", "LOST", "MISPLACE", "STALE", "TRUNCATE", "EXTEND", "DIGIT", "LETTERCASE", "VERIFY", "ORDER", "SLICE", "SHAKE", "BADLINE", "REORDER", "COMPENSATE"};
	constexpr unsigned nrec = 4;

	// a faulty data line flips the same bits of every n-th word; words come back in another order; errors that cancel out in a sum
	void spread_damage(unsigned kind, uint64_t at, uint64_t shape, uint8_t * p, size_t n) {
		static constexpr size_t strides[] = {1, 2, 4, 8, 16, 32, 3, 5};
		const size_t stride = strides[shape % 8], times = 2 + shape / 8 % 3;
		const auto mask = static_cast<uint8_t>(shape / 32 % 3 ? 1u << (shape / 128 % 8) : shape / 128);
		if (!n) return;
		at %= n;
		if (kind == BADLINE) {
			for (size_t k = 0; k != times && at + k * stride < n; ++k) p[at + k * stride] ^= mask;
		} else if (kind == REORDER) { // two words of stride bytes change places
			const size_t words = n / stride;
			if (words < 2) return;
			const size_t a = at % words, b = (a + 1 + shape / 8 % (words - 1)) % words;
			for (size_t k = 0; k != stride; ++k) std::swap(p[a * stride + k], p[b * stride + k]);
		} else if (at + stride < n) {
			p[at] = static_cast<uint8_t>(p[at] + mask);
			p[at + stride] = static_cast<uint8_t>(p[at + stride] - mask);
		}
	}

	struct World10 {
		Ctx & ctx;
		const Plan & plan;
		struct Record {
			bool used{false};
			unsigned alg{0}, type{0}, form{0};
			uint64_t seed{0};
			bool hex{false};
			std::vector<uint8_t> data, digest;          // as on disk now
			std::vector<uint8_t> old_data, old_digest;  // the record written before
		} rec[nrec];

		World10(Ctx & c, const Plan & p): ctx{c}, plan{p} { }

		// the digest type for the algorithm: types with equally many bytes
		static int type_for(size_t bytes, uint64_t pick) {
			std::vector<unsigned> c;
			for (unsigned i = 0; i != digests().size(); ++i)
				if (digests()[i].bytes == bytes) c.push_back(i);
			return c.empty() ? -1 : static_cast<int>(c[pick % c.size()]);
		}
		std::vector<uint8_t> hash(const Record & r) {
			const Alg & a = algs()[r.alg];
			alignas(64) uint8_t mem[2048];
			fill_garbage(1, mem, sizeof mem);
			uint8_t out[max_digest];
			a.make(mem, r.seed);
			std::vector<uint8_t> d = r.data;
			a.update(mem, 0, d.data(), d.size());
			const size_t n = a.final(mem, r.form, out);
			a.destroy(mem);
			return {out, out + n};
		}
		std::vector<uint8_t> expected(const Record & r) {
			ref::Spec sp = algs()[r.alg].spec;
			sp.seed = algs()[r.alg].digest_bytes == 4 ? static_cast<uint32_t>(r.seed) : r.seed;
			return ref::digest(sp, r.data.data(), r.data.size(), algs()[r.alg].final_size(r.form));
		}
		static int nibble(unsigned c) {
			if (c >= '0' && c <= '9') return static_cast<int>(c - '0');
			if (c >= 'a' && c <= 'f') return static_cast<int>(c - 'a' + 10);
			if (c >= 'A' && c <= 'F') return static_cast<int>(c - 'A' + 10);
			return -1;
		}
		// bytes the stored digest stands for; empty: not a digest any more
		static std::vector<uint8_t> meaning(const Record & r, size_t bytes) {
			if (!r.hex) return r.digest.size() == bytes ? r.digest : std::vector<uint8_t>{};
			if (r.digest.size() != 2 * bytes) return {};
			std::vector<uint8_t> v;
			for (size_t i = 0; i != bytes; ++i) {
				const int a = nibble(r.digest[2 * i]), b = nibble(r.digest[2 * i + 1]);
				if (a < 0 || b < 0) return {};
				v.push_back(static_cast<uint8_t>(a * 16 + b));
			}
			return v;
		}
		void store(const Step & s) {
			Record & r = rec[s.a[0] % nrec];
			Record n;
			n.alg = static_cast<unsigned>(s.a[1] % algs().size());
			n.form = static_cast<unsigned>(s.a[6]);
			n.seed = algs()[n.alg].reusable_final ? s.a[2] : 0;
			int t = type_for(algs()[n.alg].final_size(n.form), s.a[2]);
			for (unsigned k = 0; k != 32 && t < 0; ++k) t = type_for(algs()[n.alg].final_size(++n.form), s.a[2]);
			if (t < 0) return;
			n.type = static_cast<unsigned>(t);
			n.hex = s.a[5] % 2;
			n.data.resize(s.a[3] % 700);
			fill_content(s.a[4], s.a[4] % 9, 0, n.data.data(), n.data.size());
			n.digest = hash(n);
			if (n.hex) {
				const std::string h = ref::encode(E(6 + s.a[5] / 2 % 2), n.digest.data(), n.digest.size());
				n.digest.assign(h.begin(), h.end());
			}
			n.old_data = r.used && r.alg == n.alg ? r.data : std::vector<uint8_t>{};
			n.old_digest = r.used && r.type == n.type && r.hex == n.hex ? r.digest : std::vector<uint8_t>(n.digest.size(), n.hex ? '0' : 0);
			n.used = true;
			r = n;
			ctx.note("STORE %llu %s %zu bytes", (unsigned long long)(s.a[0] % nrec), algs()[n.alg].name, n.data.size());
		}
		void fault(const Step & s) {
			Record & r = rec[s.a[0] % nrec];
			if (!r.used) return;
			switch (s.op) {
				case FLIPDATA:
					if (r.data.empty()) return;
					r.data[s.a[1] % r.data.size()] ^= static_cast<uint8_t>(1u << (s.a[2] % 8));
					ctx.count(f_flip_data);
					break;
				case FLIPDIGEST: // a bit of the stored form
					r.digest[s.a[1] % r.digest.size()] ^= static_cast<uint8_t>(1u << (s.a[2] % 8));
					ctx.count(f_flip_digest);
					break;
				case TORN: { // only the first part of the new digest reached the disk
					const size_t n = s.a[1] % (r.digest.size() + 1);
					for (size_t i = n; i != r.digest.size(); ++i) r.digest[i] = i < r.old_digest.size() ? r.old_digest[i] : r.digest[i];
					ctx.count(f_torn);
					break;
				}
				case LOST: r.digest = r.old_digest; ctx.count(f_lost); break;
				case STALE: r.data = r.old_data; ctx.count(f_stale); break;
				case MISPLACE: {
					Record & o = rec[s.a[1] % nrec];
					if (!o.used || &o == &r || o.type != r.type || o.hex != r.hex) return;
					if (s.a[2] % 2) std::swap(o.digest, r.digest);
					else r.digest = o.digest;
					ctx.count(f_misplaced);
					break;
				}
				case TRUNCATE:
					r.data.resize(r.data.size() - s.a[1] % (r.data.size() + 1));
					ctx.count(f_truncated);
					break;
				case EXTEND:
					for (uint64_t i = 0; i <= s.a[1] % 20; ++i) r.data.push_back(static_cast<uint8_t>(s.a[2]));
					ctx.count(f_extended);
					break;
				case DIGIT:
					if (!r.hex) return;
					r.digest[s.a[1] % r.digest.size()] = static_cast<uint8_t>("0123456789abcdefABCDEF"[s.a[2] % 22]);
					ctx.count(f_digit);
					break;
				case BADLINE:
				case REORDER:
				case COMPENSATE: {
					if (r.hex && s.op != REORDER) { // the digest was damaged before it was written as text
						auto m = meaning(r, r.digest.size() / 2);
						if (m.empty()) return;
						spread_damage(s.op, s.a[1], s.a[2], m.data(), m.size());
						const std::string h = ref::encode(E(6 + s.a[1] % 2), m.data(), m.size());
						r.digest.assign(h.begin(), h.end());
					} else spread_damage(s.op, s.a[1], s.a[2], r.digest.data(), r.digest.size());
					ctx.count(s.op == BADLINE ? f_bad_line : s.op == REORDER ? f_reordered : f_compensated);
					break;
				}
				case LETTERCASE:
					if (!r.hex) return;
					for (auto & c: r.digest)
						if (c >= 'A' && mix(s.a[1], static_cast<uint64_t>(&c - r.digest.data())) % 2) c ^= 0x20;
					ctx.count(f_case);
					break;
			}
			ctx.note("%s record %llu", op10_names[s.op], (unsigned long long)(s.a[0] % nrec));
		}
		static unsigned relations(int c) { return unsigned(c < 0) | unsigned(c <= 0) << 1 | unsigned(c > 0) << 2 | unsigned(c >= 0) << 3 | unsigned(c == 0) << 4 | unsigned(c != 0) << 5; }

		void load_stored(const Record & r, const Digest & D, uint8_t * mem, const std::vector<uint8_t> & m, unsigned ck, bool fixed) {
			if (!r.hex) {
				ctx.count(p_binary);
				D.load(mem, m.data());
				return;
			}
			ctx.count(p_hex);
			// exactly as long as the text: nothing valid behind the terminator
			const size_t n = r.digest.size();
			auto as = [&]<typename C>() {
				std::unique_ptr<C[]> t(new C[n + 1]);
				for (size_t i = 0; i != n; ++i) t[i] = static_cast<C>(r.digest[i]);
				t[n] = C{};
				D.parse(mem, t.get(), ck + (fixed ? char_kinds : 0));
			};
			switch (ck) {
				case c_wchar: as.template operator()<wchar_t>(); break;
				case c_char8: as.template operator()<char8_t>(); break;
				case c_char16: as.template operator()<char16_t>(); break;
				case c_char32: as.template operator()<char32_t>(); break;
				default: as.template operator()<char>(); break;
			}
		}
		void verify(const Step & s) {
			Record & r = rec[s.a[0] % nrec];
			if (!r.used) return;
			const Digest & D = digests()[r.type];
			const auto m = meaning(r, D.bytes);
			const auto want = expected(r);
			const auto fresh = hash(r);
			if (fresh != want) ctx.fail("wrong-digest", "%s of %zu bytes: %s", algs()[r.alg].name, r.data.size(), hexs(fresh.data(), fresh.size()).c_str());
			if (m.empty()) return; // no longer hexadecimal text: not the digest constructor's business
			alignas(64) uint8_t a[256], b[256];
			fill_garbage(7, a, sizeof a);
			fill_garbage(8, b, sizeof b);
			D.load(a, fresh.data());
			load_stored(r, D, b, m, static_cast<unsigned>(s.a[1] % char_kinds), s.a[2] % 2);
			uint8_t back[256];
			D.get(b, back);
			if (memcmp(back, m.data(), D.bytes)) ctx.fail("wrong-parse", "%s: '%.*s' was read as %s", D.name, static_cast<int>(r.digest.size()), reinterpret_cast<const char *>(r.digest.data()), hexs(back, D.bytes).c_str());
			compare(D, a, b, want.data(), m.data());
			ctx.note("VERIFY record %llu: %s", (unsigned long long)(s.a[0] % nrec), want == m ? "equal" : "unequal");
		}
		void compare(const Digest & D, const uint8_t * a, const uint8_t * b, const uint8_t * ra, const uint8_t * rb) {
			const int c0 = memcmp(ra, rb, D.bytes);
			const int c = c0 < 0 ? -1 : c0 > 0;
			size_t bits = 0, first = D.bytes;
			for (size_t i = 0; i != D.bytes; ++i) {
				bits += static_cast<size_t>(__builtin_popcount(ra[i] ^ rb[i]));
				if (ra[i] != rb[i] && first == D.bytes) first = i;
			}
			ctx.count(c == 0 ? p_equal : p_unequal);
			if (bits == 1) ctx.count(p_one_bit);
			const bool eq = D.eq(a, b);
			const int cmp = D.cmp(a, b);
			const unsigned rel = D.relations(a, b);
			ctx.ev(mix(mix(eq, static_cast<uint64_t>(cmp + 4)), rel));
			ctx.state(mix(mix(static_cast<uint64_t>(&D - digests().data()), first), mix(static_cast<uint64_t>(c + 4), std::min<size_t>(bits, 3))));
			if (eq != (c == 0)) ctx.fail("wrong-verdict", "%s: %s and %s compare as %s", D.name, hexs(ra, D.bytes).c_str(), hexs(rb, D.bytes).c_str(), eq ? "equal" : "unequal");
			if (cmp != c || rel != relations(c)) ctx.fail("wrong-order", "%s: %s <=> %s is %d (relations %02x) instead of %d", D.name, hexs(ra, D.bytes).c_str(), hexs(rb, D.bytes).c_str(), cmp, rel, c);
			if (D.cmp(b, a) != -c || D.eq(b, a) != eq) ctx.fail("wrong-order", "%s: comparison is not symmetric for %s and %s", D.name, hexs(ra, D.bytes).c_str(), hexs(rb, D.bytes).c_str());
		}
		// two arbitrary digests that agree up to some byte
		void order(const Step & s) {
			const Digest & D = digests()[s.a[0] % digests().size()];
			uint8_t ra[256], rb[256];
			fill_content(s.a[1], s.a[1] % 9, 0, ra, D.bytes);
			memcpy(rb, ra, D.bytes);
			const size_t at = s.a[2] % (D.bytes + 1);
			if (at < D.bytes) {
				rb[at] = static_cast<uint8_t>(s.a[3]);
				if (s.a[5] % 2) fill_content(s.a[4], 5, 0, rb + at + 1, D.bytes - at - 1); // the rest must not matter
				if (s.a[5] / 2) { // or they differ in a pattern
					memcpy(rb, ra, D.bytes);
					spread_damage(BADLINE + static_cast<unsigned>(s.a[5] / 2 % 3), s.a[2], s.a[4], rb, D.bytes);
				}
			}
			alignas(64) uint8_t a[256], b[256];
			D.load(a, ra);
			D.load(b, rb);
			ctx.count(p_order);
			compare(D, a, b, ra, rb);
		}
		void slice(const Step & s) {
			const Digest & D = digests()[s.a[0] % digests().size()];
			uint8_t raw[256], out[256];
			fill_content(s.a[1], 5, 0, raw, D.bytes);
			alignas(64) uint8_t a[256];
			D.load(a, raw);
			const unsigned k = static_cast<unsigned>(s.a[2] % D.slices);
			const size_t n = D.slice_size(k);
			D.prefix(a, k, out);
			ctx.count(p_slice);
			ctx.ev_bytes(out, n);
			if (memcmp(out, raw, n)) ctx.fail("wrong-slice", "%s: prefix of %zu bytes is %s", D.name, n, hexs(out, n).c_str());
			D.suffix(a, k, out);
			ctx.ev_bytes(out, n);
			if (memcmp(out, raw + D.bytes - n, n)) ctx.fail("wrong-slice", "%s: suffix of %zu bytes is %s", D.name, n, hexs(out, n).c_str());
		}
		void shake(const Step & s) {
			const ShakePair & p = shake_pairs()[s.a[0] % shake_pairs().size()];
			uint8_t a[512], b[512];
			fill_content(s.a[1], 5, 0, a, sizeof a);
			memcpy(b, a, sizeof b);
			const size_t n = std::min(p.a_bytes, p.b_bytes);
			const size_t at = s.a[2] % (n + 3);
			if (at < sizeof b && s.a[3] % 4) {
				b[at] ^= static_cast<uint8_t>(1u << (s.a[3] % 8));
				if (s.a[4] % 2) fill_content(s.a[4], 5, 0, b + at + 1, sizeof b - at - 1);
				else if (s.a[4] % 4 == 2) {
					memcpy(b, a, sizeof b);
					spread_damage(BADLINE + static_cast<unsigned>(s.a[4] / 4 % 3), at, s.a[4] / 12, b, n);
				}
			}
			const int c0 = memcmp(a, b, n);
			const int c = c0 < 0 ? -1 : c0 > 0;
			ctx.count(p_shake_pair);
			const bool eq = p.eq(a, b);
			const int cmp = p.cmp(a, b);
			ctx.ev(mix(eq, static_cast<uint64_t>(cmp + 4)));
			ctx.state(mix(mix(SHAKE, s.a[0] % shake_pairs().size()), mix(at, static_cast<uint64_t>(c + 4))));
			if (eq != (c == 0) || cmp != c) ctx.fail("wrong-verdict", "SHAKE digests of %zu and %zu bytes that %s on the first %zu: == is %d, <=> is %d", p.a_bytes, p.b_bytes, c ? "differ" : "agree", n, eq, cmp);
		}
		void run() {
			for (auto & s: plan.steps) {
				switch (s.op) {
					case STORE: store(s); break;
					case VERIFY: verify(s); break;
					case ORDER: order(s); break;
					case SLICE10: slice(s); break;
					case SHAKE: shake(s); break;
					default: fault(s); break;
				}
			}
			for (unsigned i = 0; i != nrec; ++i) verify(Step::make(VERIFY, i, plan.param(0) + i, plan.param(0) / 5));
		}
	};
	void exec10(const Plan & plan, Ctx & ctx) {
		World10 w(ctx, plan);
		w.run();
	}
	void gen10(Rng & r, Plan & p, uint64_t, int) {
		p.params = {r.below(1000)};
		const bool one = r.chance(1, 2);
		const uint64_t alg = r.below(algs().size()), content = r.below(1000);
		auto store = [&](uint64_t k) { p.add(STORE, k, one ? alg : r.below(algs().size()), r.chance(1, 2) ? 0 : r.next() & 0xFFFFFF, r.chance(1, 3) ? r.below(700) : r.below(70), r.chance(1, 3) ? content : r.below(100000), r.below(4), r.below(32)); };
		const unsigned n = 2 + static_cast<unsigned>(r.below(r.chance(1, 4) ? 40 : 12));
		store(0);
		for (unsigned i = 0; i != n; ++i) {
			const uint64_t k = r.below(r.chance(1, 2) ? 2 : nrec);
			switch (r.below(25)) {
				case 0:
				case 1:
				case 2: store(k); break;
				case 3: p.add(FLIPDATA, k, r.below(700), r.below(8)); break;
				case 4:
				case 5: p.add(FLIPDIGEST, k, r.below(r.chance(1, 4) ? 256 : 128), r.below(8)); break;
				case 6: p.add(TORN, k, r.below(r.chance(1, 4) ? 260 : 130)); break;
				case 7: p.add(LOST, k); break;
				case 8: p.add(MISPLACE, k, r.below(nrec), r.below(2)); break;
				case 9: p.add(STALE, k); break;
				case 10: p.add(TRUNCATE, k, r.below(10)); break;
				case 11: p.add(EXTEND, k, r.below(20), r.below(2)); break;
				case 12:
				case 13: p.add(DIGIT, k, r.below(r.chance(1, 4) ? 256 : 128), r.below(22)); break;
				case 14: p.add(LETTERCASE, k, r.below(1000)); break;
				case 15:
				case 16:
				case 17: p.add(VERIFY, k, r.below(char_kinds), r.below(2)); break;
				case 18:
				case 19: p.add(ORDER, r.below(digests().size()), r.below(100000), r.below(r.chance(1, 4) ? 130 : 65), r.below(256), r.below(100000), r.below(8)); break;
				case 20: p.add(SLICE10, r.below(digests().size()), r.below(100000), r.below(4)); break;
				case 21: p.add(SHAKE, r.below(shake_pairs().size()), r.below(100000), r.below(r.chance(1, 3) ? 600 : 200), r.below(64), r.below(100000)); break;
				case 22: p.add(BADLINE, k, r.below(256), r.below(32768)); break;
				case 23: p.add(REORDER, k, r.below(256), r.below(32768)); break;
				case 24: p.add(COMPENSATE, k, r.below(256), r.below(32768)); break;
			}
		}
	}

	// ============================== C12 (values and encodings) ==============================
	enum Op12 : unsigned { ENCODE, INTOBUFFER, FIXED, PARSE12, COMPARE, STREAM12, op12_count };
	const char * const op12_names[] = {"ENCODE", "INTOBUFFER", "FIXED", "PARSE", "COMPARE", "STREAM"};
	constexpr size_t page = 4096;

	struct Region { // a few pages between inaccessible ones
		uint8_t * base;
		size_t len;
		explicit Region(size_t pages): len{pages * page} {
			auto * p = static_cast<uint8_t *>(mmap(nullptr, len + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
			if (p == MAP_FAILED) _exit(98);
			mprotect(p, page, PROT_NONE);
			mprotect(p + page + len, page, PROT_NONE);
			base = p + page;
		}
		// n bytes flush with one of the ends (as far as alignment allows), garbage around them
		uint8_t * place(Ctx & ctx, size_t n, size_t align, bool end, uint64_t garbage) {
			mprotect(base, len, PROT_READ | PROT_WRITE);
			fill_garbage(garbage, base, len);
			ctx.count(end ? f_guard_end : f_guard_start);
			return end ? base + (len - n) / align * align : base;
		}
		void read_only(Ctx & ctx) {
			ctx.count(f_read_only);
			mprotect(base, len, PROT_READ);
		}
		// nothing but [p, p + n) changed
		bool kept(const uint8_t * p, size_t n, uint64_t garbage) {
			std::vector<uint8_t> g(len);
			fill_garbage(garbage, g.data(), len);
			const size_t off = static_cast<size_t>(p - base);
			return !memcmp(base, g.data(), off) && !memcmp(p + n, g.data() + off + n, len - off - n);
		}
	};
	Region & in_region() {
		static Region r(1);
		return r;
	}
	Region & in2_region() {
		static Region r(1);
		return r;
	}
	Region & out_region() {
		static Region r(2);
		return r;
	}
	Region & obj_region() {
		static Region r(1);
		return r;
	}

	struct Fenced { // all simulated memory but the given parts is forbidden to the library
		Fenced(std::initializer_list<std::pair<const void *, size_t>> allowed) {
			hooks::Fence list[16];
			unsigned n = 0;
			for (Region * r: {&in_region(), &in2_region(), &out_region(), &obj_region()}) {
				const uint8_t *lo = r->base, *end = r->base + r->len;
				for (auto & [q, k]: allowed) { // at most one in each region
					auto * p = static_cast<const uint8_t *>(q);
					if (p < lo || p > end) continue;
					list[n++] = {lo, p};
					lo = p + k;
				}
				list[n++] = {lo, end};
			}
			hooks::fence_begin(list, n);
		}
		~Fenced() {
			if (!done) hooks::fence_end();
		}
		bool done{false};
		void check(Ctx & ctx, const char * what, const char * name) {
			const hooks::Hit h = hooks::fence_end();
			done = true;
			ctx.count(p_fenced);
			if (!h.at) return;
			const char * const names[] = {"first input", "second input", "output", "object"};
			int i = 0;
			long off = 0;
			for (Region * r: {&in_region(), &in2_region(), &out_region(), &obj_region()}) {
				off = static_cast<long>(h.at - reinterpret_cast<uintptr_t>(r->base));
				if (off > -64 && off < static_cast<long>(r->len)) break;
				++i;
			}
			ctx.fail(h.write ? "wrote-outside" : "read-outside", "%s %s: %s %zu bytes outside of the memory it was given (near the %s, offset %ld of its pages)", what, name, h.write ? "wrote" : "read", h.len, names[i % 4], off);
		}
	};

	void exec12(const Plan & plan, Ctx & ctx) {
		uint64_t tick = plan.param(0);
		for (auto & s: plan.steps) {
			++tick;
			const bool end1 = s.a[5] % 4 != 0, end2 = s.a[5] / 4 % 4 != 0;
			Region &in = in_region(), &in2 = in2_region(), &outr = out_region(), &obj = obj_region();
			uint32_t * const text = long_text;
			size_t n = 0;
			std::string expect;
			const char * what = op12_names[s.op];
			const char * name = "";
			scribble_stack(tick);
			switch (s.op) {
				case ENCODE: {
					const View & V = views()[s.a[0] % views().size()];
					name = E(V.enc).name;
					const size_t len = V.source == src_owned ? s.a[2] % (owned_text_max + 1) : s.a[2] % 4000;
					uint8_t * data = in.place(ctx, len, 1, end1, tick);
					fill_content(s.a[1], s.a[1] % 9, 0, data, len);
					expect = ref::encode(E(V.enc), data, len);
					in.read_only(ctx);
					Blob blob{data, len};
					chain_piece = 1 + s.a[3] % 5;
					// the view between canaries
					const size_t size = V.view_size;
					uint8_t * v = obj.place(ctx, size, 16, end2, tick + 1);
					Fenced f1{{data, len}, {v, size}};
					V.make(v, &blob);
					f1.check(ctx, "creating a view", name);
					if (!obj.kept(v, size, tick + 1)) ctx.fail("wrote-outside-object", "%s view: construction wrote outside of the view", name);
					Fenced f2{{data, len}, {v, size}};
					switch (s.a[4] % 4) {
						case 0: n = V.range_for(v, text, max_long); break;
						case 1: n = V.sized ? V.to_string(v, text, max_long) : V.range_for(v, text, max_long); break;
						case 2: n = V.format(v, text, max_long); break;
						default: {
							alignas(16) uint8_t it[512];
							fill_garbage(tick, it, sizeof it);
							V.begin(v, it, s.a[4] / 4 % 2);
							while (!V.at_end(v, it) && n != max_long) {
								text[n++] = V.deref(it);
								V.inc(it);
							}
							V.it_destroy(it);
						}
					}
					V.destroy(v);
					f2.check(ctx, "traversing a view", name);
					if (!obj.kept(v, size, tick + 1)) ctx.fail("wrote-outside-object", "%s view: traversal wrote outside of the view", name);
					break;
				}
				case INTOBUFFER:
				case FIXED: {
					const Digest & D = digests()[s.a[0] % digests().size()];
					name = D.name;
					uint8_t * d = obj.place(ctx, D.object_size, D.object_align, end2, tick + 2);
					uint8_t raw[256];
					fill_content(s.a[1], s.a[1] % 9, 0, raw, D.bytes);
					D.load(d, raw);
					if (!obj.kept(d, D.object_size, tick + 2)) ctx.fail("wrote-outside-object", "%s: construction wrote outside of the digest", name);
					obj.read_only(ctx);
					const unsigned enc = enc_arg(s.a[2]);
					expect = ref::encode(enc == default_enc ? E(6) : E(enc), raw, D.bytes);
					if (s.op == FIXED) {
						const unsigned ck = enc == default_enc ? 0u : static_cast<unsigned>(s.a[3] % char_kinds);
						Fenced f3{{d, D.object_size}};
						n = D.to_fixed(d, enc, ck, text);
						f3.check(ctx, "rendering to a fixed string", name);
						break;
					}
					const unsigned ck = s.a[3] % 2;
					const size_t cs = ck == c_wchar ? sizeof(wchar_t) : 1;
					uint8_t * out = outr.place(ctx, expect.size() * cs, cs, end1, tick + 3);
					Fenced f4{{d, D.object_size}, {out, expect.size() * cs}};
					n = D.format_to_buffer(d, enc, ck, out);
					f4.check(ctx, "formatting into a buffer", name);
					if (n != expect.size()) ctx.fail("wrong-length", "%s: format_to stored %zu characters instead of %zu", name, n, expect.size());
					for (size_t i = 0; i != n; ++i) {
						if (ck == c_wchar) {
							wchar_t w;
							memcpy(&w, out + i * cs, cs);
							text[i] = static_cast<uint32_t>(w);
						} else text[i] = out[i];
					}
					if (!outr.kept(out, n * cs, tick + 3)) ctx.fail("wrote-outside-output", "%s: format_to wrote outside of the output", name);
					break;
				}
				case PARSE12: {
					const Digest & D = digests()[s.a[0] % digests().size()];
					name = D.name;
					uint8_t raw[256], got[256];
					fill_content(s.a[1], 5, 0, raw, D.bytes);
					const std::string hex = ref::encode(E(6 + s.a[2] % 2), raw, D.bytes);
					const unsigned ck = s.a[3] % char_kinds;
					static const size_t sizes[] = {1, sizeof(wchar_t), 1, 2, 4};
					const size_t cs = sizes[ck];
					uint8_t * t = in.place(ctx, (hex.size() + 1) * cs, cs, end1, tick + 4);
					for (size_t i = 0; i <= hex.size(); ++i) {
						const uint32_t c = static_cast<unsigned char>(hex.c_str()[i]);
						memset(t + i * cs, 0, cs);
						memcpy(t + i * cs, &c, std::min<size_t>(cs, 4));
					}
					in.read_only(ctx);
					uint8_t * d = obj.place(ctx, D.object_size, D.object_align, end2, tick + 5);
					Fenced f5{{t, (hex.size() + 1) * cs}, {d, D.object_size}};
					D.parse(d, t, ck);
					f5.check(ctx, "parsing", name);
					ctx.count(p_parse);
					if (!obj.kept(d, D.object_size, tick + 5)) ctx.fail("wrote-outside-object", "%s: parsing wrote outside of the digest", name);
					D.get(d, got);
					ctx.ev_bytes(got, D.bytes);
					if (memcmp(got, raw, D.bytes)) ctx.fail("wrong-parse", "%s: '%s' was read as %s", name, shown(hex).c_str(), hexs(got, D.bytes).c_str());
					continue;
				}
				case COMPARE: {
					const Digest & D = digests()[s.a[0] % digests().size()];
					name = D.name;
					uint8_t *a = obj.place(ctx, D.object_size, D.object_align, end1, tick + 6), *b = in2.place(ctx, D.object_size, D.object_align, end2, tick + 7);
					uint8_t ra[256], rb[256];
					fill_content(s.a[1], 5, 0, ra, D.bytes);
					memcpy(rb, ra, D.bytes);
					if (s.a[2] % 2) rb[s.a[3] % D.bytes] ^= 1;
					D.load(a, ra);
					D.load(b, rb);
					obj.read_only(ctx);
					in2.read_only(ctx);
					const int c = memcmp(ra, rb, D.bytes);
					Fenced f6{{a, D.object_size}, {b, D.object_size}};
					const bool eq = D.eq(a, b);
					const int cmp = D.cmp(a, b);
					f6.check(ctx, "comparing", name);
					ctx.ev(mix(eq, static_cast<uint64_t>(cmp + 4)));
					if (eq != (c == 0) || cmp != (c < 0 ? -1 : c > 0)) ctx.fail("wrong-verdict", "%s: wrong comparison", name);
					continue;
				}
				case STREAM12: {
					const unsigned enc = s.a[0] % ref::encodings_count;
					name = E(enc).name;
					const size_t len = s.a[2] % 4000;
					uint8_t * data = in.place(ctx, len, 1, end1, tick + 8);
					fill_content(s.a[1], 5, 0, data, len);
					expect = ref::encode(E(enc), data, len);
					in.read_only(ctx);
					struct Mem : std::streambuf {
						explicit Mem(uint8_t * d, size_t l) { setg(reinterpret_cast<char *>(d), reinterpret_cast<char *>(d), reinterpret_cast<char *>(d) + l); }
					} sb(data, len);
					Fenced f7{{data, len}};
					n = encode_stream(enc, &sb, text, max_long);
					f7.check(ctx, "encoding a stream", name);
					break;
				}
			}
			ctx.ev_bytes(text, n * 4);
			ctx.state(mix(mix(s.op, s.a[0] % 64), mix(mix(end1, end2), expect.size() % 64)));
			ctx.note("%s %s: '%s'", what, name, shown(narrow(text, n)).c_str());
			if (narrow(text, n) != expect) ctx.fail("wrong-text", "%s %s: '%s' instead of '%s'", what, name, shown(narrow(text, n)).c_str(), shown(expect).c_str());
		}
	}
	void gen12(Rng & r, Plan & p, uint64_t, int) {
		p.params = {r.next() & 0xFFFFFF};
		for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(8)); i != n; ++i) {
			const uint64_t place = r.below(16), content = r.below(100000);
			switch (r.below(8)) {
				case 0: p.add(INTOBUFFER, r.below(digests().size()), content, r.below(24), r.below(2), 0, place); break;
				case 1: p.add(FIXED, r.below(digests().size()), content, r.below(24), r.below(char_kinds), 0, place); break;
				case 2: p.add(PARSE12, r.below(digests().size()), content, r.below(2), r.below(char_kinds), 0, place); break;
				case 3: p.add(COMPARE, r.below(digests().size()), content, r.below(2), r.below(64), 0, place); break;
				case 4: p.add(STREAM12, r.below(ref::encodings_count), content, r.chance(1, 60) ? long_length(r, 3999) : r.chance(1, 3) ? r.below(96) : r.below(20), 0, 0, place); break;
				default: p.add(ENCODE, r.below(views().size()), content, r.chance(1, 60) ? long_length(r, 3999) : r.chance(1, 3) ? r.below(96) : r.below(20), r.below(5), r.below(8), place); break;
			}
		}
	}

	// ============================== C21 ==============================
	// names of encodings come from outside (a configuration, a message) and may be damaged on the way
	enum Op21 : unsigned { SELECT, FORMATNAMED, USE, op21_count };
	const char * const op21_names[] = {"SELECT", "FORMATNAMED", "USE"};

	struct Name {
		const char * text;
		unsigned enc;
	};
	const Name documented[] = {{"base64", 0}, {"base64_no_padding", 1}, {"base64url", 2}, {"base64_url", 2}, {"base32", 3}, {"base32_no_padding", 4}, {"z_base32", 5}, {"zbase32", 5}, {"base16", 6}, {"hexdec", 6}, {"BASE16", 7}, {"HEXDEC", 7}, {"base8", 8}, {"octal", 8}, {"base4", 9}, {"base2", 10}, {"binary", 10}};
	constexpr unsigned documented_count = sizeof documented / sizeof documented[0];

	unsigned meaning(const std::u32string & n) { // 99: no such name
		for (const auto & d: documented)
			if (n.size() == strlen(d.text) && std::equal(n.begin(), n.end(), d.text, [](char32_t a, char b) { return a == static_cast<unsigned char>(b); })) return d.enc;
		return 99;
	}
	std::u32string damaged(Ctx & ctx, uint64_t which, uint64_t damage, uint64_t x, unsigned width) {
		std::u32string n;
		if (which % (documented_count + 1) != documented_count)
			for (const char * p = documented[which % (documented_count + 1)].text; *p; ++p) n += static_cast<unsigned char>(*p);
		for (; damage; damage /= 12, x = mix(x)) {
			const size_t at = n.empty() ? 0 : x / 64 % n.size();
			switch (damage % 12) {
				case 1: n.resize(at); ctx.count(f_name_cut); break;
				case 2: {
					static const char * const tails[] = {"x", "_", " ", "_no_padding", "url", "0", "base64", "hexdec", "6", ":", "\t", "d", "_url", "\xE9"};
					for (const char * p = tails[x / 64 % (sizeof tails / sizeof tails[0])]; *p; ++p) n += static_cast<unsigned char>(*p);
					ctx.count(f_name_extended);
					break;
				}
				case 3:
					if (!n.empty()) n[at] = (n[at] ^ 1u << x % 8) & (width == 8 ? 0xFFu : ~0u);
					ctx.count(f_name_flip);
					break;
				case 4:
					if (!n.empty() && n[at] < 128 && ((n[at] | 32) >= 'a' && (n[at] | 32) <= 'z')) n[at] ^= 32;
					ctx.count(f_name_case);
					break;
				case 5:
					if (!n.empty()) n.erase(at, 1);
					ctx.count(f_name_lost);
					break;
				case 6:
					if (!n.empty()) n.insert(at, 1, n[at]);
					ctx.count(f_name_twice);
					break;
				case 7:
					if (n.size() > 1) std::swap(n[at], n[(at + 1) % n.size()]);
					ctx.count(f_name_swap);
					break;
				case 8:
					if (!n.empty() && width > 8) {
						n[at] += (1 + x % (width == 16 ? 200 : 4000)) << 8;
						ctx.count(f_name_wide);
					}
					break;
				case 9: n.insert(at, 1, U'\0'); ctx.count(f_name_zero); break;
				case 10: n += U'\0'; ctx.count(f_name_zero); break;
				case 11:
					n.insert(0, 1, x % 2 ? U' ' : U'\0');
					ctx.count(f_name_extended);
					break;
				default: break;
			}
		}
		if (n.size() > 80) n.resize(80);
		if (width < 32) // what a character of this width can hold: damage added up must not fall back into a valid name unseen
			for (auto & c: n) c &= (1u << width) - 1;
		return n;
	}
	std::string shown_name(const std::u32string & n) {
		std::string s;
		char b[16];
		for (char32_t c: n) {
			if (c >= 32 && c < 127) s += static_cast<char>(c);
			else {
				snprintf(b, sizeof b, "\\x%x", static_cast<unsigned>(c));
				s += b;
			}
		}
		return s;
	}
	void exec21(const Plan & plan, Ctx & ctx) {
		constexpr unsigned kept = 4;
		Selected sel[kept];
		unsigned enc_of[kept];
		for (auto & e: enc_of) e = 99;
		static const unsigned widths[] = {8, sizeof(wchar_t) * 8, 8, 16, 32, 8, 8};
		uint32_t * const text = long_text;
		for (auto & s: plan.steps) {
			switch (s.op) {
				case SELECT: {
					const unsigned form = static_cast<unsigned>(s.a[0] % select_forms);
					const std::u32string all = damaged(ctx, s.a[1], s.a[2], s.a[3], widths[form]);
					// a closing brace ends the name, the constructor takes everything
					const std::u32string name = form == 6 ? all : all.substr(0, all.find(U'}'));
					unsigned want = meaning(name);
					if (name.empty() && form != 6) want = 6, ctx.count(p_name_default);
					const size_t throws_at = form == 5 && s.a[4] % 4 == 1 ? s.a[4] / 4 % 20 : ~size_t{0};
					const bool source_fails = throws_at < std::min(all.size(), name.size() + 1);
					uint32_t raw[128];
					for (size_t i = 0; i != all.size(); ++i) raw[i] = all[i];
					Selected out{};
					unsigned got = 99;
					bool foreign = false;
					try {
						select_named(out, form, raw, all.size(), throws_at);
						got = selected_index(out);
					} catch (const std::length_error &) {
						foreign = true;
					} catch (const std::exception &) { }
					ctx.ev(mix(form, got));
					ctx.note("select form %u '%s': %u", form, shown_name(all).c_str(), got);
					ctx.state(mix(mix(form, want), mix(all.size(), s.a[2] % 12)));
					if (source_fails) {
						ctx.count(f_name_source_throws);
						if (!foreign) ctx.fail("lost-exception", "the source of the name '%s' failed after %zu characters, but the selection did not pass it on", shown_name(all).c_str(), throws_at);
						break;
					}
					if (foreign) ctx.fail("false-failure", "selecting '%s' reported a failure of the source that did not happen", shown_name(all).c_str());
					if (got != want)
						ctx.fail("wrong-encoding", "the name '%s' %s %s, but %s", shown_name(name).c_str(), got == 99 ? "was" : "selected", got == 99 ? "rejected" : E(got).name, want == 99 ? "there is no such name" : (std::string("it means ") + E(want).name).c_str());
					ctx.count(got == 99 ? p_name_rejected : p_name_accepted);
					if (got == 99) break;
					if (out.consumed != name.size()) ctx.fail("wrong-end", "selecting '%s' stopped after %zu characters", shown_name(all).c_str(), out.consumed);
					sel[s.a[5] % kept] = out;
					enc_of[s.a[5] % kept] = got;
					break;
				}
				case USE: { // an earlier selection
					const unsigned k = s.a[0] % kept;
					if (enc_of[k] == 99) break;
					uint8_t data[64];
					const size_t n = s.a[2] % sizeof data;
					fill_content(s.a[1], s.a[1] % 9, 0, data, n);
					ctx.count(p_selection_used_later);
					const unsigned now = selected_index(sel[k]);
					const std::string got = narrow(text, selected_encode(sel[k], data, n, text, max_long)), want = ref::encode(E(enc_of[k]), data, n);
					ctx.ev_bytes(got.data(), got.size());
					if (now != enc_of[k] || got != want) ctx.fail("wrong-text", "a selection of %s gave '%s' instead of '%s'", E(enc_of[k]).name, shown(got).c_str(), shown(want).c_str());
					break;
				}
				case FORMATNAMED: {
					Value val;
					val.load(static_cast<unsigned>(s.a[0]), s.a[1]);
					const unsigned ck = s.a[2] % 2;
					std::u32string name = damaged(ctx, s.a[3], s.a[4], s.a[5], ck == c_wchar ? 32 : 8);
					for (auto & c: name)
						if (c == U'{' || c == U'}') c = U'!'; // would be another format string, not another name
					const bool colon = !name.empty() || s.a[6] % 2;
					const unsigned want = name.empty() ? 6 : meaning(name);
					const std::u32string field = (colon ? U"{:" : U"{") + name + U"}";
					uint32_t raw[128];
					for (size_t i = 0; i != field.size(); ++i) raw[i] = field[i];
					bool accepted = true;
					size_t n = 0;
					try {
						n = val.d().format_named(val.mem, raw, field.size(), ck, text);
					} catch (const std::exception &) {
						accepted = false;
					}
					ctx.ev(accepted);
					ctx.ev_bytes(text, n * 4);
					ctx.note("format '%s': %s", shown_name(field).c_str(), accepted ? "accepted" : "rejected");
					ctx.state(mix(mix(100 + ck, want), mix(name.size(), s.a[4] % 12)));
					if (accepted != (want != 99)) ctx.fail("wrong-encoding", "formatting %s as '%s' was %s", val.d().name, shown_name(field).c_str(), accepted ? "accepted" : "rejected");
					ctx.count(accepted ? p_name_accepted : p_name_rejected);
					if (accepted && narrow(text, n) != ref::encode(E(want), val.raw, val.d().bytes)) ctx.fail("wrong-text", "formatting %s as '%s' gave '%s'", val.d().name, shown_name(field).c_str(), shown(narrow(text, n)).c_str());
					break;
				}
			}
		}
	}
	void gen21(Rng & r, Plan & p, uint64_t, int) {
		for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(12)); i != n; ++i) {
			uint64_t damage = r.chance(1, 4) ? 0 : r.below(12);
			if (r.chance(1, 5)) damage = damage * 12 + r.below(12);
			const uint64_t name = r.below(documented_count + 1), x = r.below(1u << 24);
			switch (r.below(5)) {
				case 0: p.add(USE, r.below(4), r.below(100000), r.below(64)); break;
				case 1:
				case 2: p.add(FORMATNAMED, r.below(digests().size()), r.below(100000), r.below(2), name, damage, x, r.below(2)); break;
				default: p.add(SELECT, r.below(select_forms), name, damage, x, r.below(80), r.below(4)); break;
			}
		}
	}

} // namespace

const char * const counter_names[] = {
	"fault:single-allocation-fails", "fault:allocations-fail-from-one-on", "fault:allocations-refused", "fault:pattern-of-allocations-fails",
	"fault:sink-returns-error", "fault:sink-throws", "fault:sink-out-of-memory", "fault:sink-accepts-but-reports-error", "fault:sink-fails-once", "fault:sink-stays-broken", "fault:flush-fails", "fault:stream-failed-before", "fault:sink-recovers", "fault:output-iterator-throws", "fault:output-iterator-throws-once",
	"fault:traversals-interleaved", "fault:iterator-or-view-copied", "fault:traversal-abandoned", "fault:traversal-restarted", "fault:source-fragmented", "fault:source-ends", "fault:source-throws", "fault:view-moved",
	"fault:bit-flip-in-digest", "fault:bit-flip-in-data", "fault:torn-digest-write", "fault:lost-digest-write", "fault:misplaced-digest", "fault:stale-data", "fault:data-truncated", "fault:data-extended", "fault:digit-replaced", "fault:letter-case-changed", "fault:same-bits-flipped-at-intervals", "fault:words-reordered", "fault:errors-that-cancel-in-a-sum",
	"probe:rendering-failed-cleanly", "probe:text-although-allocation-refused", "probe:repetition-after-failure", "probe:no-allocation-needed", "probe:wide-characters", "probe:padding", "probe:partial-text-delivered", "probe:full-text-delivered", "probe:exception-from-stream", "probe:exception-mask-set", "probe:buffered-sink", "probe:width-pads", "probe:width-too-small-or-unsized",
	"probe:several-iterators-on-one-view", "probe:empty-source", "probe:unsized-source", "probe:view-to-string", "probe:source-ends-inside-group", "probe:compared-equal", "probe:compared-unequal", "probe:one-bit-difference", "probe:order", "probe:slice", "probe:shake-lengths", "probe:hex-form", "probe:binary-form",
	"fault:buffer-ends-at-guard-page", "fault:buffer-starts-at-guard-page", "fault:input-read-only", "probe:parse", "probe:huge-source", "probe:call-with-every-access-checked", "probe:view-and-its-source-survive-the-original",
	"fault:name-cut", "fault:name-extended", "fault:bit-flip-in-name", "fault:letter-case-of-name-changed", "fault:character-of-name-lost", "fault:character-of-name-repeated", "fault:characters-of-name-swapped", "fault:high-bits-set-in-wide-character", "fault:zero-character-in-name", "fault:source-of-name-throws", "probe:name-accepted", "probe:name-rejected", "probe:empty-name-selects-default", "probe:selection-used-later"};
const unsigned counter_count = c_count;
static_assert(sizeof(counter_names) / sizeof(counter_names[0]) == c_count);

const Scenario scenarios[] = {
	{"C07", gen7, exec7, op7_names, op7_count, 20, 200},
	{"C08", gen8, exec8, op8_names, op8_count, 20, 200},
	{"C09", gen9, exec9, op9_names, op9_count, 20, 200},
	{"C12.text", gen12, exec12, op12_names, op12_count, 20, 200},
	{"C21", gen21, exec21, op21_names, op21_count, 20, 200},
	{"C10", gen10, exec10, op10_names, op10_count, 20, 200},
};
const unsigned scenario_count = sizeof(scenarios) / sizeof(scenarios[0]);

} // namespace sim
