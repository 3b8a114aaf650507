#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <map>
#include <poll.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

void (*child_setup)() = nullptr;

// ---- shared memory between the runner and its children -------------------------------------------
namespace {
	constexpr unsigned max_workers = 64;
	constexpr uint64_t set_size = 1u << 23;

	struct Slot {
		std::atomic<uint64_t> cur;      // index of the run in progress
		std::atomic<uint64_t> progress; // bumped on every run
		uint64_t hash_sum;              // order independent
		uint64_t runs, events;
		uint64_t counters[max_counters];
		uint64_t run_hits[max_counters]; // runs in which the counter fired
		uint64_t last_hash;
		int failed;
		char cls[64];
		char msg[1024];
	};

	struct Shared {
		Slot slots[max_workers];
		std::atomic<uint64_t> states[set_size];
		std::atomic<uint64_t> traces[set_size];
		std::atomic<uint64_t> nstates, ntraces, states_dropped;
	};
	Shared * shm = nullptr;
	Slot * my_slot = nullptr;
	uint64_t fired[max_counters / 64 + 1];

	void insert(std::atomic<uint64_t> * set, std::atomic<uint64_t> & n, uint64_t v) {
		if (v == 0) v = 1;
		for (uint64_t i = v, k = 0; k != 64; ++i, ++k) {
			auto & cell = set[i % set_size];
			uint64_t cur = cell.load(std::memory_order_relaxed);
			if (cur == v) return;
			if (cur == 0) {
				if (cell.compare_exchange_strong(cur, v)) {
					n.fetch_add(1, std::memory_order_relaxed);
					return;
				}
				if (cur == v) return;
			}
		}
		shm->states_dropped.fetch_add(1, std::memory_order_relaxed);
	}

	double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
} // namespace

void Ctx::ev_bytes(const void * p, size_t n) {
	const auto * b = static_cast<const uint8_t *>(p);
	uint64_t h = n;
	while (n >= 8) {
		uint64_t w;
		memcpy(&w, b, 8);
		h = mix(h, w);
		b += 8;
		n -= 8;
	}
	uint64_t w = 0;
	memcpy(&w, b, n);
	ev(mix(h, w));
}
void Ctx::count(unsigned id, uint64_t n) {
	if (my_slot && id < max_counters) {
		my_slot->counters[id] += n;
		fired[id / 64] |= 1ull << (id % 64);
	}
}
void Ctx::state(uint64_t sig) {
	if (shm) insert(shm->states, shm->nstates, mix(sig));
}
void Ctx::note(const char * fmt, ...) {
	if (!verbose) return;
	va_list ap;
	va_start(ap, fmt);
	vfprintf(stdout, fmt, ap);
	va_end(ap);
	fputc('\n', stdout);
	fflush(stdout);
}
void Ctx::fail(const char * cls, const char * fmt, ...) {
	char buf[900];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	throw Fail{cls, buf};
}

void fill_content(uint64_t seed, uint64_t pattern, uint64_t offset, uint8_t * out, size_t n) {
	switch (pattern % 8) {
		case 0: memset(out, 0, n); return;
		case 1: memset(out, 0xFF, n); return;
		case 2:
			for (size_t i = 0; i != n; ++i) out[i] = static_cast<uint8_t>('a' + (offset + i + seed) % 26);
			return;
		case 3: // mostly zeros with sparse bits
			for (size_t i = 0; i != n; ++i) {
				const uint64_t o = offset + i;
				const uint64_t m = mix(seed, o / 61);
				out[i] = (o % 61 == m % 61) ? static_cast<uint8_t>(1u << (m >> 60 & 7)) : 0;
			}
			return;
		case 6:   // patchwork: stretches of zeros, ones, noise, extreme bytes and repetitions
		case 7: { // the same block over and over
			static const unsigned grids[] = {8, 16, 32, 64, 128, 136, 144, 168, 72, 104};
			const uint64_t m = mix(seed, 7);
			const unsigned g = grids[m % 10];
			const bool patchwork = pattern % 8 == 6;
			uint8_t piece[168];
			for (size_t i = 0; i != n;) {
				const uint64_t seg = (offset + i) / g, at = (offset + i) % g, s = mix(seed, seg);
				const unsigned kind = patchwork ? static_cast<unsigned>(s % 8) : 3;
				const uint64_t key = kind <= 2 ? s : mix(seed, 11);
				for (unsigned k = 0; k != g; k += 8) {
					const uint64_t w = kind == 5 ? 0 : kind == 6 ? ~0ull : mix(key, k);
					memcpy(piece + k, &w, 8);
				}
				switch (kind) {
					case 1: for (unsigned k = 0; k != g; ++k) piece[k] |= 0x80; break;
					case 2: memset(piece, 0, g / 2); break;
					case 4: piece[s % 2 ? g - 1 : (s >> 8) % g] ^= static_cast<uint8_t>(1u << (s >> 60 & 7)); break; // one bit from the repeated one
					default: break;                                                                                // 3: repeated
				}
				for (uint64_t k = at; k != g && i != n; ++k, ++i) out[i] = piece[k];
			}
			return;
		}
		default: break;
	}
	size_t i = 0;
	while (i != n) {
		uint64_t w = mix(seed, (offset + i) / 8);
		for (unsigned k = static_cast<unsigned>((offset + i) % 8); k != 8 && i != n; ++k, ++i) out[i] = static_cast<uint8_t>(w >> (8 * k));
	}
}
void fill_garbage(uint64_t seed, void * out, size_t n) {
	auto * p = static_cast<uint8_t *>(out);
	uint64_t s = mix(seed);
	while (n >= 8) {
		s = s * 6364136223846793005ull + 1442695040888963407ull;
		const uint64_t v = s ^ (s >> 29);
		memcpy(p, &v, 8);
		p += 8;
		n -= 8;
	}
	while (n--) {
		s = s * 6364136223846793005ull + 1442695040888963407ull;
		*p++ = static_cast<uint8_t>(s >> 40);
	}
}
__attribute__((noinline)) void scribble_stack(uint64_t seed) {
	volatile uint64_t dead[1536];
	uint64_t s = mix(seed);
	for (auto & w: dead) {
		s = s * 6364136223846793005ull + 1442695040888963407ull;
		w = s;
	}
	asm volatile("" ::: "memory");
}
std::string hexs(const void * p, size_t n) {
	std::string r;
	for (size_t i = 0; i != n; ++i) {
		char b[4];
		snprintf(b, sizeof b, "%02x", static_cast<const uint8_t *>(p)[i]);
		r += b;
	}
	return r;
}

// ---- running ---------------------------------------------------------------------------------------
namespace {

	struct Options {
		std::string cmd, prop, out = "-", replay_dir = ".", tag = "default", file;
		uint64_t seed = 1, runs = 1000, first = 0;
		unsigned workers = 8, batch = 0;
		double wall = 60, minimise_s = 40;
		int tier = 0;
		bool verbose = false;
		bool dump_hashes = false;
	} opt;

	const Scenario * scenario(const std::string & n) {
		for (unsigned i = 0; i != scenario_count; ++i)
			if (n == scenarios[i].name) return &scenarios[i];
		fprintf(stderr, "unknown scenario %s\n", n.c_str());
		exit(2);
	}

	uint64_t name_hash(const std::string & s) {
		uint64_t h = 7;
		for (unsigned char c: s) h = mix(h, c);
		return h;
	}
	Plan plan_for(const Scenario & sc, uint64_t index) {
		Rng rng{mix(mix(opt.seed, name_hash(sc.name)), index)};
		Plan p;
		sc.generate(rng, p, index, opt.tier);
		return p;
	}

	struct Outcome {
		std::string cls; // empty: ok
		std::string msg;
		uint64_t hash{0};
		uint64_t at{0}; // which plan of the list
		uint64_t events{0};
	};

	void arm(unsigned secs) {
		itimerval t{};
		t.it_value.tv_sec = secs;
		setitimer(ITIMER_VIRTUAL, &t, nullptr);
	}

	// executes one plan in this process
	Outcome execute_here(const Scenario & sc, const Plan & p, bool verbose) {
		Outcome o;
		Ctx ctx;
		ctx.verbose = verbose;
		ctx.tier = opt.tier;
		memset(fired, 0, sizeof fired);
		arm(sc.cpu_limit_s);
		try {
			sc.execute(p, ctx);
		} catch (const Fail & f) {
			o.cls = f.cls;
			o.msg = f.msg;
		}
		arm(0);
		for (unsigned i = 0; my_slot && i != counter_count; ++i)
			if (fired[i / 64] >> (i % 64) & 1) my_slot->run_hits[i]++;
		if (my_slot) my_slot->events += ctx.events;
		o.hash = ctx.hash;
		o.events = ctx.events;
		return o;
	}

	std::string signal_class(int sig) {
		if (sig == SIGVTALRM || sig == SIGKILL) return "hang";
		const char * n = sigabbrev_np(sig);
		return std::string("signal:SIG") + (n ? n : "?");
	}

	std::string describe(const Scenario & sc, const Plan & p) {
		std::string s = "param";
		for (auto v: p.params) s += " " + std::to_string(v);
		s += "\n";
		for (auto & st: p.steps) {
			s += sc.ops[st.op % sc.nops];
			for (unsigned i = 0; i != st.n; ++i) s += " " + std::to_string(st.a[i]);
			s += "\n";
		}
		return s;
	}

	void quiet_child() {
		// a dying child must not spray core files or abort messages
		rlimit r{0, 0};
		setrlimit(RLIMIT_CORE, &r);
		if (!opt.verbose) {
			if (!freopen("/dev/null", "w", stderr)) _exit(99);
		}
	}

	// waits for a child with a wall-clock backstop (a hang outside of user time)
	int wait_child(pid_t pid, double limit) {
		const double end = now_s() + limit;
		int st = 0;
		unsigned us = 50;
		for (;;) {
			const pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) return st;
			if (now_s() > end) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				return st;
			}
			usleep(us);
			if (us < 2000) us += 50;
		}
	}

	// executes a list of plans in one fresh child process
	Outcome execute_forked(const Scenario & sc, const std::vector<Plan> & plans, bool verbose = false) {
		Slot & slot = shm->slots[max_workers - 1];
		memset(static_cast<void *>(&slot), 0, sizeof slot);
		fflush(nullptr);
		const pid_t pid = fork();
		if (pid == 0) {
			my_slot = &slot;
			quiet_child();
			if (child_setup) child_setup();
			uint64_t h = 99;
			for (size_t i = 0; i != plans.size(); ++i) {
				slot.cur = i;
				Outcome o = execute_here(sc, plans[i], verbose && i + 1 == plans.size());
				h = mix(h, o.hash);
				slot.last_hash = h;
				if (!o.cls.empty()) {
					slot.failed = 1;
					snprintf(slot.cls, sizeof slot.cls, "%s", o.cls.c_str());
					snprintf(slot.msg, sizeof slot.msg, "%s", o.msg.c_str());
					break;
				}
			}
			fflush(nullptr);
			_exit(0);
		}
		const int st = wait_child(pid, sc.cpu_limit_s * 3.0 + 30);
		Outcome o;
		o.hash = slot.last_hash;
		o.at = slot.cur;
		if (WIFSIGNALED(st)) {
			o.cls = signal_class(WTERMSIG(st));
			o.msg = "the process running the library died: " + o.cls;
			o.hash = 0;
		} else if (WEXITSTATUS(st) != 0) {
			o.cls = "exit:" + std::to_string(WEXITSTATUS(st));
			o.msg = "the process running the library called exit";
			o.hash = 0;
		} else if (slot.failed) {
			o.cls = slot.cls;
			o.msg = slot.msg;
		}
		return o;
	}

	// ---- replay files ----
	void write_replay(const std::string & path, const Scenario & sc, const std::vector<Plan> & plans, const Outcome & o, uint64_t index) {
		FILE * f = fopen(path.c_str(), "w");
		if (!f) {
			perror(path.c_str());
			exit(2);
		}
		fprintf(f, "cthash-sim-replay 1\nscenario %s\nvariant %s\nseed %llu\nindex %llu\ntier %d\nclass %s\nhash %016llx\n", sc.name, opt.tag.c_str(), (unsigned long long)opt.seed, (unsigned long long)index, opt.tier, o.cls.c_str(), (unsigned long long)o.hash);
		std::string m = o.msg;
		std::replace(m.begin(), m.end(), '\n', ' ');
		fprintf(f, "message %s\n", m.c_str());
		for (auto & p: plans) fprintf(f, "plan\n%send\n", describe(sc, p).c_str());
		fclose(f);
	}

	struct Replay {
		const Scenario * sc{nullptr};
		std::vector<Plan> plans;
		std::string cls, message;
		uint64_t hash{0};
	};
	Replay read_replay(const std::string & path) {
		FILE * f = fopen(path.c_str(), "r");
		if (!f) {
			perror(path.c_str());
			exit(2);
		}
		Replay r;
		char line[4096];
		bool in = false;
		while (fgets(line, sizeof line, f)) {
			std::vector<std::string> w;
			for (char * t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) w.emplace_back(t);
			if (w.empty()) continue;
			if (!in) {
				if (w[0] == "scenario") r.sc = scenario(w[1]);
				if (w[0] == "class") r.cls = w[1];
				if (w[0] == "tier") opt.tier = atoi(w[1].c_str());
				if (w[0] == "hash") r.hash = strtoull(w[1].c_str(), nullptr, 16);
				if (w[0] == "plan") {
					in = true;
					r.plans.emplace_back();
				}
				continue;
			}
			if (w[0] == "end") {
				in = false;
				continue;
			}
			Plan & p = r.plans.back();
			if (w[0] == "param") {
				for (size_t i = 1; i < w.size(); ++i) p.params.push_back(strtoull(w[i].c_str(), nullptr, 10));
				continue;
			}
			Step s;
			bool ok = false;
			for (unsigned i = 0; i != r.sc->nops; ++i)
				if (w[0] == r.sc->ops[i]) {
					s.op = i;
					ok = true;
				}
			if (!ok) {
				fprintf(stderr, "bad step %s\n", w[0].c_str());
				exit(2);
			}
			for (size_t i = 1; i < w.size() && s.n < max_args; ++i) s.a[s.n++] = strtoull(w[i].c_str(), nullptr, 10);
			p.steps.push_back(s);
		}
		fclose(f);
		if (!r.sc || r.plans.empty()) {
			fprintf(stderr, "not a replay file: %s\n", path.c_str());
			exit(2);
		}
		return r;
	}

	// ---- minimisation ----
	struct Minimiser {
		const Scenario & sc;
		std::string cls;
		double deadline;
		uint64_t tries{0};
		bool bad(const std::vector<Plan> & v) {
			if (now_s() > deadline) return false;
			++tries;
			const Outcome o = execute_forked(sc, v);
			return o.cls == cls && o.at + 1 == v.size();
		}
		std::vector<Plan> run(std::vector<Plan> v) {
			// 1. earlier runs of the same process
			for (size_t chunk = v.size() > 1 ? v.size() - 1 : 0; chunk >= 1 && now_s() < deadline; chunk /= 2) {
				for (size_t i = 0; i + 1 < v.size();) {
					auto c = v;
					const size_t n = std::min(chunk, v.size() - 1 - i);
					c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + n));
					if (bad(c)) v = c;
					else i += n;
				}
			}
			// 2. steps and arguments, last plan first
			for (size_t k = v.size(); k-- != 0;) {
				bool progress = true;
				for (int round = 0; round != 4 && progress && now_s() < deadline; ++round) {
					progress = false;
					for (size_t chunk = std::max<size_t>(1, v[k].steps.size() / 2); chunk >= 1; chunk /= 2) {
						for (size_t i = v[k].steps.size(); i > 0;) {
							const size_t b = i > chunk ? i - chunk : 0;
							auto c = v;
							c[k].steps.erase(c[k].steps.begin() + static_cast<long>(b), c[k].steps.begin() + static_cast<long>(i));
							if (bad(c)) {
								v = c;
								progress = true;
							}
							i = b;
						}
						if (now_s() > deadline) break;
					}
					for (size_t s = 0; s != v[k].steps.size() && now_s() < deadline; ++s) {
						for (unsigned j = 0; j != v[k].steps[s].n; ++j) progress |= shrink(v, k, &v[k].steps[s].a[j]);
					}
					for (size_t j = 0; j != v[k].params.size(); ++j) progress |= shrink(v, k, &v[k].params[j]);
				}
			}
			return v;
		}
		// smallest value of one argument for which the violation stays (greedy)
		bool shrink(std::vector<Plan> & v, size_t, uint64_t * where) {
			const uint64_t orig = *where;
			if (orig == 0) return false;
			uint64_t best = orig;
			auto attempt = [&](uint64_t x) {
				if (x >= best) return false;
				*where = x;
				if (bad(v)) {
					best = x;
					return true;
				}
				return false;
			};
			if (!attempt(0)) {
				attempt(1);
				for (int i = 0; i != 16 && best > 1; ++i)
					if (!attempt(best / 2)) break;
				for (uint64_t d = best / 4; d >= 1; d /= 2)
					if (best > d) attempt(best - d);
			}
			*where = best;
			return best != orig;
		}
	};

	std::string json_escape(const std::string & s) {
		std::string r;
		for (unsigned char c: s) {
			if (c == '"' || c == '\\') {
				r += '\\';
				r += static_cast<char>(c);
			} else if (c == '\n') r += "\\n";
			else if (c < 32 || c > 126) {
				char b[8];
				snprintf(b, sizeof b, "\\u%04x", c);
				r += b;
			} else r += static_cast<char>(c);
		}
		return r;
	}

	struct Found {
		uint64_t index;
		uint64_t batch_first;
		std::string cls, msg;
	};

	int cmd_run(const char * self) {
		const Scenario & sc = *scenario(opt.prop);
		const uint64_t K = opt.batch ? opt.batch : sc.batch;
		const uint64_t nb = (opt.runs + K - 1) / K;
		const unsigned W = std::min<unsigned>(opt.workers, max_workers - 2);
		const double t0 = now_s();

		struct Live {
			pid_t pid = 0;
			uint64_t batch = 0;
			uint64_t last_progress = 0;
			double since = 0;
		};
		std::vector<Live> live(W);
		uint64_t next = 0, done_runs = 0, hash_sum = 0, events = 0, batches = 0;
		uint64_t counters[max_counters]{}, hits[max_counters]{};
		std::vector<Found> found;
		bool capped = false;

		auto lowest = [&] {
			uint64_t m = ~0ull;
			for (auto & f: found) m = std::min(m, f.index);
			return m;
		};

		for (;;) {
			bool any = false;
			for (unsigned w = 0; w != W; ++w) {
				Live & l = live[w];
				Slot & slot = shm->slots[w];
				if (l.pid) {
					int st = 0;
					const pid_t r = waitpid(l.pid, &st, WNOHANG);
					if (r == 0) {
						any = true;
						const uint64_t pr = slot.progress;
						if (pr != l.last_progress) {
							l.last_progress = pr;
							l.since = now_s();
						} else if (now_s() - l.since > sc.cpu_limit_s * 3.0 + 30) {
							kill(l.pid, SIGKILL);
						}
						continue;
					}
					// finished
					++batches;
					done_runs += slot.runs;
					hash_sum += slot.hash_sum;
					events += slot.events;
					for (unsigned i = 0; i != max_counters; ++i) {
						counters[i] += slot.counters[i];
						hits[i] += slot.run_hits[i];
					}
					if (WIFSIGNALED(st)) {
						const auto c = signal_class(WTERMSIG(st));
						found.push_back({slot.cur, opt.first + l.batch * K, c, "the process running the library died: " + c});
					} else if (slot.failed) {
						found.push_back({slot.cur, opt.first + l.batch * K, slot.cls, slot.msg});
					} else if (WEXITSTATUS(st) != 0) {
						found.push_back({slot.cur, opt.first + l.batch * K, "exit:" + std::to_string(WEXITSTATUS(st)), "the process running the library called exit"});
					}
					l.pid = 0;
				}
				if (next < nb && !capped) {
					if (now_s() - t0 > opt.wall) {
						capped = true;
						continue;
					}
					const uint64_t first = opt.first + next * K;
					if (first > lowest()) {
						next = nb;
						continue;
					}
					memset(static_cast<void *>(&slot), 0, sizeof slot);
					fflush(nullptr);
					l.batch = next++;
					l.since = now_s();
					l.last_progress = 0;
					const uint64_t last = std::min(first + K, opt.first + opt.runs);
					const pid_t pid = fork();
					if (pid < 0) {
						perror("fork");
						exit(2);
					}
					if (pid == 0) {
						my_slot = &slot;
						quiet_child();
						slot.cur = first;
						if (child_setup) child_setup();
						for (uint64_t i = first; i != last; ++i) {
							slot.cur = i;
							slot.progress++;
							const Plan p = plan_for(sc, i);
							const Outcome o = execute_here(sc, p, false);
							slot.runs++;
							slot.hash_sum += mix(i, o.hash);
							if (o.events >= 3) insert(shm->traces, shm->ntraces, mix(o.hash)); // non-trivial runs only
							if (opt.dump_hashes) {
								printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)o.hash);
							}
							if (!o.cls.empty()) {
								slot.failed = 1;
								snprintf(slot.cls, sizeof slot.cls, "%s", o.cls.c_str());
								snprintf(slot.msg, sizeof slot.msg, "%s", o.msg.c_str());
								break;
							}
						}
						fflush(nullptr);
						_exit(0);
					}
					l.pid = pid;
					any = true;
				}
			}
			if (!any) break;
			usleep(200);
		}

		const double search_s = now_s() - t0;
		int rc = 0;
		std::string vjson = "null", error;
		if (!found.empty()) {
			std::sort(found.begin(), found.end(), [](auto & a, auto & b) { return a.index < b.index; });
			bool confirmed = false;
			for (size_t c = 0; c != std::min<size_t>(found.size(), 3) && !confirmed; ++c) {
				const Found & f = found[c];
				std::vector<Plan> plans{plan_for(sc, f.index)};
				Outcome a = execute_forked(sc, plans), b = execute_forked(sc, plans);
				if (a.cls.empty()) {
					// needs the history of the process it ran in
					plans.clear();
					for (uint64_t i = f.batch_first; i <= f.index; ++i) plans.push_back(plan_for(sc, i));
					a = execute_forked(sc, plans);
					b = execute_forked(sc, plans);
				}
				if (a.cls.empty() || a.cls != b.cls || a.hash != b.hash || a.at != b.at) {
					error += "run " + std::to_string(f.index) + " (" + f.cls + ": " + f.msg + ") did not repeat exactly (" + a.cls + "/" + b.cls + "); ";
					continue;
				}
				plans.resize(a.at + 1);
				Minimiser m{sc, a.cls, now_s() + (a.cls == "hang" ? std::min(opt.minimise_s, 60.0) : opt.minimise_s)};
				auto small = m.run(plans);
				Outcome fin = a, fin2 = b;
				if (m.tries) {
					fin = execute_forked(sc, small);
					fin2 = execute_forked(sc, small);
				}
				if (fin.cls != a.cls || fin2.cls != a.cls || fin.hash != fin2.hash) {
					small = plans;
					fin = a;
				}
				const std::string path = opt.replay_dir + "/" + sc.name + "-" + opt.tag + "-" + std::to_string(opt.seed) + "-" + std::to_string(f.index) + ".replay";
				write_replay(path, sc, small, fin, f.index);
				// a fresh process must reproduce it
				const std::string cmd = std::string("'") + self + "' replay '" + path + "' >/dev/null 2>&1";
				const int st = system(cmd.c_str());
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {
					error += "replay of run " + std::to_string(f.index) + " in a fresh process did not reproduce " + a.cls + "; ";
					continue;
				}
				size_t steps0 = 0, steps1 = 0;
				for (auto & p: plans) steps0 += p.steps.size();
				for (auto & p: small) steps1 += p.steps.size();
				vjson = "{\"class\":\"" + json_escape(fin.cls) + "\",\"message\":\"" + json_escape(fin.msg) + "\",\"index\":" + std::to_string(f.index) + ",\"replay\":\"" + json_escape(path) + "\",\"steps_before\":" + std::to_string(steps0) + ",\"steps_after\":" + std::to_string(steps1) + ",\"minimiser_tries\":" + std::to_string(m.tries) + "}";
				confirmed = true;
				rc = 1;
			}
			if (!confirmed) rc = 2;
		}

		// sample plans, written out
		std::string samples = "[";
		for (uint64_t i = 0; i != std::min<uint64_t>(opt.runs, 2); ++i) {
			const Plan p = plan_for(sc, opt.first + i * (opt.runs > 1 ? opt.runs - 1 : 0));
			std::string d = describe(sc, p);
			if (d.size() > 1500) d = d.substr(0, 1500) + "...";
			if (i) samples += ",";
			samples += "\"" + json_escape(d) + "\"";
		}
		samples += "]";

		std::string js = "{\"scenario\":\"" + std::string(sc.name) + "\",\"variant\":\"" + json_escape(opt.tag) + "\",\"seed\":" + std::to_string(opt.seed) + ",\"runs\":" + std::to_string(done_runs) + ",\"runs_planned\":" + std::to_string(opt.runs) + ",\"events\":" + std::to_string(events) + ",\"batches\":" + std::to_string(batches) + ",\"distinct_traces\":" + std::to_string(shm->ntraces.load()) + ",\"distinct_states\":" + std::to_string(shm->nstates.load()) + ",\"set_overflow\":" + std::to_string(shm->states_dropped.load()) + ",\"hash_sum\":\"" + std::to_string(hash_sum) + "\",\"search_s\":" + std::to_string(search_s) + ",\"wall_s\":" + std::to_string(now_s() - t0) + ",\"wall_capped\":" + (capped ? "true" : "false") + ",\"counters\":{";
		bool firstc = true;
		for (unsigned i = 0; i != counter_count; ++i) {
			if (!counters[i]) continue;
			js += std::string(firstc ? "" : ",") + "\"" + counter_names[i] + "\":[" + std::to_string(counters[i]) + "," + std::to_string(hits[i]) + "]";
			firstc = false;
		}
		js += "},\"samples\":" + samples + ",\"violation\":" + vjson + ",\"error\":\"" + json_escape(error) + "\"}\n";
		FILE * f = opt.out == "-" ? stdout : fopen(opt.out.c_str(), "w");
		if (!f) {
			perror(opt.out.c_str());
			return 2;
		}
		fputs(js.c_str(), f);
		if (f != stdout) fclose(f);
		return rc;
	}

	int cmd_replay() {
		Replay r = read_replay(opt.file);
		const Outcome o = execute_forked(*r.sc, r.plans, opt.verbose);
		if (o.cls.empty()) {
			printf("no violation (recorded class %s)\n", r.cls.c_str());
			return 0;
		}
		printf("%s: %s\nhash %016llx (recorded %s %016llx)\n", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash, r.cls.c_str(), (unsigned long long)r.hash);
		if (o.cls != r.cls || o.hash != r.hash) {
			printf("differs from the recording\n");
			return 3;
		}
		return 1;
	}
} // namespace
} // namespace sim

// a simulator may run another program's main in a fresh process
extern "C" __attribute__((weak)) int sim_other_main(int, char **);

int main(int argc, char ** argv) {
	using namespace sim;
	if (sim_other_main && getenv("SIM_OTHER_MAIN")) return sim_other_main(argc, argv);
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	for (int i = 1; i < argc; ++i) {
		const std::string a = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (i == 1) opt.cmd = a;
		else if (a == "--prop") opt.prop = val();
		else if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--runs") opt.runs = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--first") opt.first = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--workers") opt.workers = static_cast<unsigned>(strtoul(val().c_str(), nullptr, 10));
		else if (a == "--batch") opt.batch = static_cast<unsigned>(strtoul(val().c_str(), nullptr, 10));
		else if (a == "--wall") opt.wall = strtod(val().c_str(), nullptr);
		else if (a == "--minimise") opt.minimise_s = strtod(val().c_str(), nullptr);
		else if (a == "--tier") opt.tier = atoi(val().c_str());
		else if (a == "--out") opt.out = val();
		else if (a == "--replay-dir") opt.replay_dir = val();
		else if (a == "--tag") opt.tag = val();
		else if (a == "--verbose") opt.verbose = true;
		else if (a == "--hashes") opt.dump_hashes = true;
		else opt.file = a;
	}
	shm = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (shm == MAP_FAILED) {
		perror("mmap");
		return 2;
	}
	char self[4096];
	const ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
	self[n > 0 ? n : 0] = 0;
	if (opt.cmd == "run") return cmd_run(self);
	if (opt.cmd == "replay") return cmd_replay();
	if (opt.cmd == "plan") {
		const Scenario & sc = *scenario(opt.prop);
		fputs(describe(sc, plan_for(sc, opt.first)).c_str(), stdout);
		return 0;
	}
	fprintf(stderr, "usage: %s run|replay|plan ...\n", argv[0]);
	return 2;
}
