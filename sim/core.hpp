// Deterministic simulation core: one seed -> one explicit plan -> one exactly repeatable execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>

namespace sim {

constexpr uint64_t mix(uint64_t x) noexcept {
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
constexpr uint64_t mix(uint64_t a, uint64_t b) noexcept { return mix(mix(a) ^ (b * 0xD6E8FEB86659FD93ull)); }

// the only source of randomness of a run
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed): s{mix(seed)} { }
	uint64_t next() { return mix(s++); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); } // inclusive
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template <typename T, size_t N> T pick(const T (&a)[N]) { return a[below(N)]; }
	template <typename T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
};

constexpr unsigned max_args = 8;

// Every argument is interpreted totally (modulo the valid range), so a plan stays executable
// whatever the minimiser removes or shrinks.
struct Step {
	unsigned op{0};
	unsigned n{0};
	uint64_t a[max_args]{};
	template <typename... Ts> static Step make(unsigned op, Ts... v) {
		static_assert(sizeof...(v) <= max_args);
		Step s;
		s.op = op;
		((s.a[s.n++] = static_cast<uint64_t>(v)), ...);
		return s;
	}
};

struct Plan {
	std::vector<uint64_t> params;
	std::vector<Step> steps;
	uint64_t param(size_t i) const { return i < params.size() ? params[i] : 0; }
	template <typename... Ts> void add(unsigned op, Ts... v) { steps.push_back(Step::make(op, v...)); }
};

struct Fail {
	std::string cls, msg;
};

struct Ctx {
	uint64_t hash{0x1234567};
	uint64_t events{0};
	bool verbose{false};
	int tier{0};

	void ev(uint64_t v) {
		hash = mix(hash, v);
		++events;
	}
	void ev_bytes(const void * p, size_t n); // fold data into the trace hash
	void count(unsigned id, uint64_t n = 1); // fault or probe counter
	void state(uint64_t signature);          // distinct-state measure
	void note(const char * fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const char * cls, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
};

struct Scenario {
	const char * name;
	void (*generate)(Rng &, Plan &, uint64_t index, int tier);
	void (*execute)(const Plan &, Ctx &);
	const char * const * ops;
	unsigned nops;
	unsigned cpu_limit_s; // per run
	unsigned batch;       // runs per process
};

// provided by each simulator binary
extern const Scenario scenarios[];
extern const unsigned scenario_count;
extern const char * const counter_names[]; // "fault:..." and "probe:..."
extern const unsigned counter_count;

constexpr unsigned max_counters = 128;

// deterministic stream contents
void fill_content(uint64_t content_seed, uint64_t pattern, uint64_t offset, uint8_t * out, size_t n);
// seeded garbage
void fill_garbage(uint64_t seed, void * out, size_t n);
// overwrite the dead stack below the caller with seeded garbage
void scribble_stack(uint64_t seed);

std::string hexs(const void * p, size_t n);

// optional hook called in the parent after fork of a batch child (before the first run)
extern void (*child_setup)();

} // namespace sim
