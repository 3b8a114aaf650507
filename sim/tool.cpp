// C11: the whole checksum tool - its real main(), in a process of its own - between a simulated file,
// simulated system calls (toolseam.cpp), faulty standard streams and a simulated clock.
#include "core.hpp"
#include "ref.hpp"
#include "toolseam.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
using namespace tool;
using ref::Fam;

namespace {
	enum Counter : unsigned {
		f_open, f_seek, f_stat, f_map, f_read, f_unmap, f_close, f_write, f_short, f_grow, f_badpage, f_stdout_closed, f_stdout_full, f_stdout_readonly, f_stdout_broken, f_stdout_busy, f_stdout_limit, f_stderr_closed, f_stderr_full, f_stderr_broken, f_stderr_busy, f_stdin_closed, f_clock_still, f_clock_ahead, f_clock_back,
		f_missing, f_directory, f_other_file, f_long_name, f_unknown, f_no_args,
		p_success, p_refusal, p_empty_file, p_page_multiple, p_large_file, p_big_file, p_prefix, p_recovered, c_count
	};

	struct Algorithm {
		const char * name;
		ref::Spec spec;
		unsigned out;
	};
	constexpr ref::Spec sha32(unsigned bits) { return {Fam::sha32, bits, 0, 0, 0, 0}; }
	constexpr ref::Spec sha64(unsigned bits, unsigned t = 0) { return {Fam::sha64, bits, 0, 0, t, 0}; }
	constexpr ref::Spec sha3(unsigned bits) { return {Fam::keccak, bits, 200 - bits / 4, 0x06, 0, 0}; }
	constexpr ref::Spec shake(unsigned s) { return {Fam::keccak, 0, 200 - s / 4, 0x1F, 0, 0}; }
	const Algorithm algorithms[] = {
		{"sha-224", sha32(224), 0}, {"sha-256", sha32(256), 0}, {"sha-384", sha64(384), 0}, {"sha-512", sha64(512), 0}, {"sha-512/224", sha64(224, 224), 0}, {"sha-512/256", sha64(256, 256), 0},
		{"sha3-224", sha3(224), 0}, {"sha3-256", sha3(256), 0}, {"sha3-384", sha3(384), 0}, {"sha3-512", sha3(512), 0},
		{"shake-128/32", shake(128), 4}, {"shake-128/64", shake(128), 8}, {"shake-128/128", shake(128), 16}, {"shake-128/256", shake(128), 32}, {"shake-128/512", shake(128), 64}, {"shake-128/1024", shake(128), 128}, {"shake-128/2048", shake(128), 256},
		{"shake-256/32", shake(256), 4}, {"shake-256/64", shake(256), 8}, {"shake-256/128", shake(256), 16}, {"shake-256/256", shake(256), 32}, {"shake-256/512", shake(256), 64}, {"shake-256/1024", shake(256), 128}, {"shake-256/2048", shake(256), 256},
		{"xxhash32", {Fam::xxh32, 32, 0, 0, 0, 0}, 0}, {"xxhash64", {Fam::xxh64, 64, 0, 0, 0, 0}, 0}};
	constexpr unsigned nalgorithms = sizeof(algorithms) / sizeof(algorithms[0]);
	const char * const unknown[] = {"", "sha", "sha-25", "sha-257", "sha-2566", "xsha-256", "sha-256 ", " sha-256", "md5", "sha-1", "shake-128", "shake-128/", "shake-128/33", "sha-512/", "sha-512/225", "xxhash", "xxhash128", "sha3-", "sha3-1024", "/", "-", "--help", "\xff\xff"};

	// a name close to a known one that is none
	std::string altered(std::string s, uint64_t h) {
		Rng r{h};
		static const char set[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-/_ .\n\t=+\xe9";
		auto c = [&] { return set[r.below(sizeof set - 1)]; };
		for (;;) {
			switch (r.below(9)) {
				case 0: s.resize(r.below(s.size() + 1)); break;
				case 1: s.push_back(c()); break;
				case 2: s.insert(s.begin() + static_cast<long>(r.below(s.size() + 1)), c()); break;
				case 3:
					if (!s.empty()) s[r.below(s.size())] = c();
					break;
				case 4:
					if (!s.empty()) s.erase(r.below(s.size()), 1);
					break;
				case 5:
					if (s.size() > 1) {
						const size_t i = r.below(s.size() - 1);
						std::swap(s[i], s[i + 1]);
					}
					break;
				case 6: s += algorithms[r.below(nalgorithms)].name; break;
				case 7:
					for (char & x: s) x = static_cast<char>(x >= 'a' && x <= 'z' ? x - 32 : x);
					break;
				default: s = s.substr(r.below(s.size() + 1)); break;
			}
			bool is_known = false;
			for (auto & a: algorithms) is_known |= s == a.name;
			if (!is_known) return s;
		}
	}

	enum Op : unsigned { FILE_, RULE, STDOUT, STDERR, STDIN, CLOCKS, PATH, ARGS, APPEND, BIG, op_count };
	const char * const op_names[] = {"FILE", "RULE", "STDOUT", "STDERR", "STDIN", "CLOCK", "PATH", "ARGS", "APPEND", "BIG"};

	enum Out : unsigned { MEMORY, PIPE, CLOSED, FULL, READONLY, BROKEN, BUSY, LIMIT, out_count };

	std::string digest_line(const Algorithm & a, const uint8_t * p, size_t n) { return ref::hex(ref::digest(a.spec, p, n, a.out)) + "\n"; }

	int memory_file(const char * name) {
		const int fd = memfd_create(name, MFD_CLOEXEC);
		if (fd < 0) _exit(98);
		return fd;
	}
	void write_all(int fd, const uint8_t * p, size_t n, uint64_t at) {
		while (n) {
			const ssize_t k = ::pwrite(fd, p, n, static_cast<off_t>(at));
			if (k <= 0) _exit(97);
			p += k;
			at += static_cast<uint64_t>(k);
			n -= static_cast<size_t>(k);
		}
	}
	std::string slurp(int fd) {
		std::string r;
		char buf[65536];
		for (uint64_t at = 0;;) {
			const ssize_t k = ::pread(fd, buf, sizeof buf, static_cast<off_t>(at));
			if (k <= 0) break;
			r.append(buf, static_cast<size_t>(k));
			at += static_cast<uint64_t>(k);
		}
		return r;
	}
	std::string drain(int fd) {
		std::string r;
		char buf[65536];
		for (;;) {
			const ssize_t k = ::read(fd, buf, sizeof buf);
			if (k < 0 && errno == EINTR) continue;
			if (k <= 0) break;
			r.append(buf, static_cast<size_t>(k));
		}
		return r;
	}
	std::string shown(const std::string & s) {
		std::string r;
		for (char c: s.substr(0, 150)) r += c == '\n' ? std::string("\\n") : (c < 32 || c > 126) ? std::string("?") : std::string(1, c);
		return r;
	}
	bool has_digest(const std::string & s) {
		unsigned run = 0;
		for (char c: s) {
			if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) {
				if (++run == 8) return true;
			} else run = 0;
		}
		return false;
	}

	// the two ends of a standard stream; [0] what the tool gets (-1: closed), [1] what the simulator keeps
	struct Stream {
		int mine[2]{-1, -1};
		Out kind{MEMORY};
		uint64_t limit{~0ull};
		explicit Stream(unsigned k): kind{static_cast<Out>(k)} {
			int p[2];
			switch (kind) {
				case LIMIT:
				case MEMORY:
					mine[0] = mine[1] = memory_file("out");
					break;
				case PIPE:
				case BUSY:
				case BROKEN:
					if (pipe2(p, O_CLOEXEC) != 0) _exit(98);
					mine[1] = p[0];
					mine[0] = p[1];
					if (kind == BROKEN) {
						::close(p[0]);
						mine[1] = -1;
					}
					if (kind == BUSY) {
						fcntl(p[1], F_SETPIPE_SZ, 4096);
						fcntl(p[1], F_SETFL, O_NONBLOCK);
						char full[4096];
						memset(full, '.', sizeof full);
						while (::write(p[1], full, sizeof full) > 0) { }
						while (::write(p[1], full, 1) > 0) { }
					}
					break;
				case FULL: mine[0] = ::open("/dev/full", O_WRONLY | O_CLOEXEC); break;
				case READONLY: mine[0] = ::open("/dev/null", O_RDONLY | O_CLOEXEC); break;
				default: break;
			}
		}
		Stream(const Stream &) = delete;
		~Stream() {
			if (mine[0] >= 0) ::close(mine[0]);
			if (mine[1] >= 0 && mine[1] != mine[0]) ::close(mine[1]);
		}
		std::string collect() {
			if (kind == MEMORY || kind == LIMIT) return slurp(mine[1]);
			if (kind == PIPE) {
				::close(mine[0]);
				mine[0] = -1;
				return drain(mine[1]);
			}
			return "";
		}
	};

	struct Close {
		int fd;
		~Close() { ::close(fd); }
	};

	void execute(const Plan & plan, Ctx & ctx) {
		// the configuration of this run
		unsigned alg = 1, out_kind = MEMORY, err_kind = MEMORY, path_kind = 0, args_kind = 0, args_arg = 0;
		uint64_t out_limit = 0, size = 3, content = 1, pattern = 5;
		bool stdin_closed = false;
		auto mem = memory_file("block");
		Close close_mem{mem};
		if (ftruncate(mem, sizeof(Block)) != 0) _exit(98);
		Block & b = *static_cast<Block *>(mmap(nullptr, sizeof(Block), PROT_READ | PROT_WRITE, MAP_SHARED, mem, 0));
		struct Unmap {
			Block & b;
			~Unmap() { munmap(&b, sizeof b); }
		} unmap{b};
		b.file_fd = -1;
		for (const Step & s: plan.steps) {
			switch (s.op) {
				case FILE_:
					alg = s.a[0] % nalgorithms;
					size = s.a[1] % (8u << 20);
					content = s.a[2];
					pattern = s.a[3];
					break;
				case RULE:
					if (b.rules != max_rules) b.rule[b.rules++] = Rule{static_cast<uint32_t>(s.a[0] % CLOCK), static_cast<uint32_t>(s.a[1] % 8), static_cast<uint32_t>(s.a[2] % 2), static_cast<uint32_t>(s.a[3] % act_count), static_cast<int32_t>(1 + s.a[4] % 130), s.a[5], 0};
					break;
				case STDOUT:
					out_kind = s.a[0] % out_count;
					out_limit = s.a[1] % 520;
					break;
				case STDERR: err_kind = s.a[0] % LIMIT; break;
				case STDIN: stdin_closed = true; break;
				case CLOCKS:
					b.clock_mode = s.a[0] % 4;
					b.clock_seed = s.a[1];
					break;
				case PATH: path_kind = s.a[0] % 8; break;
				case ARGS:
					args_kind = s.a[0] % 6;
					args_arg = static_cast<unsigned>(s.a[1]);
					break;
				case APPEND: b.grow_len = static_cast<uint32_t>(1 + s.a[0] % (sizeof b.grow - 1)); break;
				case BIG: {
					b.big = (s.a[0] % (1ull << 34)) | 1;
					b.islands = max_islands;
					uint64_t h = s.a[1];
					for (auto & i: b.island) {
						i.at = (mix(h++) % b.big) & ~4095ull;
						i.len = 4096;
					}
					b.island[0].at = (b.big - 1) & ~4095ull;
					b.island[1].at = 0;
					break;
				}
			}
		}
		if (out_kind == LIMIT) b.grow_len = 0; // the limit would hold for the simulated writer as well
		const Algorithm & a = algorithms[alg];
		// the file
		const int file = memory_file("file");
		Close close_file{file};
		std::string line, grown_line;
		std::vector<uint8_t> data;
		uint8_t sum = 0;
		if (b.big) {
			size = b.big;
			if (ftruncate(file, static_cast<off_t>(size)) != 0) _exit(98);
			std::sort(b.island, b.island + b.islands, [](auto & x, auto & y) { return x.at < y.at; });
			ref::Model m{a.spec};
			static const std::vector<uint8_t> zeros(1 << 20);
			uint8_t page[4096];
			uint64_t at = 0;
			for (unsigned i = 0; i != b.islands; ++i) {
				if (i && b.island[i].at == b.island[i - 1].at) continue;
				while (at < b.island[i].at) {
					const size_t n = std::min<uint64_t>(zeros.size(), b.island[i].at - at);
					m.update(zeros.data(), n);
					at += n;
				}
				const size_t n = std::min<uint64_t>(4096, size - at);
				fill_content(content + i, 5, 0, page, n);
				write_all(file, page, n, at);
				m.update(page, n);
				at += n;
			}
			line = ref::hex(m.digest(a.out)) + "\n";
			ctx.count(p_big_file);
		} else {
			data.resize(size + b.grow_len);
			fill_content(content, pattern, 0, data.data(), data.size());
			write_all(file, data.data(), size, 0);
			memcpy(b.grow, data.data() + size, b.grow_len);
			line = digest_line(a, data.data(), size);
			if (b.grow_len) grown_line = digest_line(a, data.data(), data.size());
			for (size_t i = 0; i != size; ++i) sum = static_cast<uint8_t>(sum * 31 + data[i]);
		}
		b.file_size = size;
		if (size == 0) ctx.count(p_empty_file);
		else if (size % 4096 == 0) ctx.count(p_page_multiple);
		if (size > (64 << 10)) ctx.count(p_large_file);

		// the arguments
		std::string path = "/proc/self/fd/100", name = a.name;
		enum { good, absent, unreadable, other } file_state = good;
		switch (path_kind) {
			case 0:
			case 1: break;
			case 2: path = "/proc/self/fd/198", file_state = absent; break;
			case 3: path = "", file_state = absent; break;
			case 4: path = "/proc/self/" + std::string(300, 'x'), file_state = absent; break;
			case 5: path = "/", file_state = unreadable; break;
			case 6: path = "/proc/self/fd", file_state = unreadable; break;
			case 7: path = "/proc/version", file_state = other; break; // a file that does not tell its size
		}
		snprintf(b.path, sizeof b.path, "%s", path.c_str());
		if (file_state == absent) ctx.count(f_missing);
		if (file_state == unreadable) ctx.count(f_directory);
		if (path_kind == 4) ctx.count(f_long_name);
		if (file_state == other) {
			const int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
			const std::string s = drain(fd);
			::close(fd);
			line = digest_line(a, reinterpret_cast<const uint8_t *>(s.data()), s.size());
			ctx.count(f_other_file);
		}
		bool known = true, surplus = false;
		std::vector<std::string> args{"checksum", name, path};
		switch (args_kind) {
			case 1: args = {"checksum"}, known = false, ctx.count(f_no_args); break;
			case 2: args = {"checksum", name}, known = false, ctx.count(f_no_args); break;
			case 5: // one argument too many: to be refused or ignored
				args.push_back(args_arg % 2 ? path : altered(name, args_arg));
				surplus = true;
				break;
			case 3:
			case 4: {
				args[1] = args_arg % 3 ? altered(name, args_arg / 3) : unknown[args_arg / 3 % (sizeof(unknown) / sizeof(unknown[0]))];
				known = false;
				ctx.count(f_unknown);
				break;
			}
		}

		Stream out{out_kind}, err{err_kind};
		// run it
		fflush(nullptr);
		const pid_t pid = fork();
		if (pid < 0) _exit(96);
		if (pid == 0) {
			const itimerval no{};
			setitimer(ITIMER_VIRTUAL, &no, nullptr);
			signal(SIGPIPE, SIG_IGN);
			signal(SIGXFSZ, SIG_IGN);
			rlimit core{0, 0}, cpu{b.big ? 200u : 10u, b.big ? 200u : 10u};
			setrlimit(RLIMIT_CORE, &core);
			setrlimit(RLIMIT_CPU, &cpu);
			const itimerval wall{{0, 0}, {b.big ? 400 : 60, 0}};
			setitimer(ITIMER_REAL, &wall, nullptr);
			char self[512];
			const ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
			self[n > 0 ? n : 0] = 0;
			// out of the way first, then into place
			auto high = [](int fd) { return fd < 0 ? -1 : fcntl(fd, F_DUPFD_CLOEXEC, 300); };
			const int o = high(out.mine[0]), e = high(err.mine[0]), f = high(file), m = high(mem);
			if (f < 0 || m < 0) _exit(95);
			for (int i = 0; i != 300; ++i) ::close(i);
			if (!stdin_closed && ::open("/dev/null", O_RDONLY) != 0) _exit(95);
			if (o >= 0) dup2(o, 1);
			if (e >= 0) dup2(e, 2);
			dup2(f, input_fd);
			dup2(m, block_fd);
			std::vector<char *> av;
			for (auto & s: args) av.push_back(s.data());
			av.push_back(nullptr);
			char env[] = "SIM_OTHER_MAIN=1";
			char * ev[] = {env, nullptr};
			if (out.kind == LIMIT) {
				rlimit l{out_limit, out_limit};
				setrlimit(RLIMIT_FSIZE, &l);
			}
			execve(self, av.data(), ev);
			_exit(94);
		}
		int st = 0;
		std::string got;
		if (out.kind == PIPE) got = out.collect();
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
		if (out.kind != PIPE) got = out.collect();
		const std::string said = err.kind == MEMORY || err.kind == PIPE ? err.collect() : "";

		// what happened
		static const unsigned fault_of[] = {f_open, f_seek, f_stat, f_map, f_read, f_unmap, f_close, f_write};
		bool hard = false, appended = b.grown;
		uint64_t fired = 0;
		for (unsigned i = 0; i != b.rules; ++i) {
			const Rule & r = b.rule[i];
			if (!r.fired) continue;
			fired = mix(fired, mix(r.fn, mix(r.act, r.fired)));
			if (r.act == GROW) ctx.count(f_grow);
			else if (r.act == SHORT) ctx.count(f_short);
			else if (r.act == BADPAGE) {
				ctx.count(f_badpage);
				hard = true;
			}
			else {
				ctx.count(fault_of[r.fn], r.fired);
				if (r.fn != UNMAP && r.fn != CLOSE) hard = true;
			}
		}
		const bool stdout_broken = out.kind == CLOSED || out.kind == FULL || out.kind == READONLY || out.kind == BROKEN || out.kind == BUSY || (out.kind == LIMIT && out_limit < line.size());
		static const unsigned out_faults[] = {c_count, c_count, f_stdout_closed, f_stdout_full, f_stdout_readonly, f_stdout_broken, f_stdout_busy, f_stdout_limit};
		if (stdout_broken) ctx.count(out_faults[out.kind]);
		switch (err.kind) {
			case CLOSED: ctx.count(f_stderr_closed); break;
			case FULL:
			case READONLY: ctx.count(f_stderr_full); break;
			case BROKEN: ctx.count(f_stderr_broken); break;
			case BUSY: ctx.count(f_stderr_busy); break;
			default: break;
		}
		if (stdin_closed) ctx.count(f_stdin_closed);
		if (b.clock_mode) ctx.count(f_clock_still + static_cast<unsigned>(b.clock_mode) - 1);

		ctx.ev(mix(alg, size));
		ctx.ev(mix(mix(out_kind, err_kind), mix(path_kind, args_kind)));
		const std::string cmd = "checksum " + (args.size() > 1 ? "'" + args[1] + "'" : "") + (args.size() > 2 ? " '" + args[2] + "'" : "");
		// how far a run that does not end gets depends on the machine: nothing of that is recorded
		if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU)) ctx.fail("tool-hangs", "%s does not end", cmd.c_str());
		ctx.ev(mix(static_cast<uint64_t>(st), fired));
		ctx.ev_bytes(got.data(), file_state == other && got.size() > 8 ? 8 : got.size()); // the content of "other" differs between machines
		for (unsigned i = 0; i != b.nsequence; ++i) ctx.ev(b.sequence[i]);
		ctx.state(mix(mix(mix(alg, out_kind), mix(err_kind, path_kind)), mix(fired, mix(args_kind, std::min<uint64_t>(size, 3) + 4 * (size % 4096 == 0)))));
		ctx.note("%s (%llu bytes), stdout %u, stderr %u: status %x, stdout '%s', stderr '%s'", cmd.c_str(), (unsigned long long)size, out_kind, err_kind, st, shown(got).c_str(), shown(said).c_str());

		if (WIFSIGNALED(st)) {
			const int sig = WTERMSIG(st);
			ctx.fail("tool-crashes", "%s is ended by signal %d (%s)", cmd.c_str(), sig, strsignal(sig));
		}
		const int rc = WEXITSTATUS(st);
		if (rc >= 94 && rc <= 99) {
			fprintf(stderr, "the simulator could not start the tool (%d)\n", rc);
			_exit(3);
		}
		const bool exact = got == line || (appended && got == grown_line);
		if (rc == 0) {
			if (!known) ctx.fail("tool-accepts", "%s exits with 0", cmd.c_str());
			if (file_state == absent || file_state == unreadable) ctx.fail("tool-accepts", "%s exits with 0 and prints '%s' although there is no file to read", cmd.c_str(), shown(got).c_str());
			if (stdout_broken) ctx.fail("success-without-digest", "%s exits with 0 although standard output is broken (kind %u, limit %llu)", cmd.c_str(), out_kind, (unsigned long long)out_limit);
			if (!exact) ctx.fail("wrong-output", "%s over %llu bytes exits with 0 and prints '%s' instead of '%s'", cmd.c_str(), (unsigned long long)size, shown(got).c_str(), shown(line).c_str());
			ctx.count(p_success);
			if (hard) ctx.count(p_recovered);
		} else {
			if (known && !surplus && file_state == good && !stdout_broken && !hard && !appended) ctx.fail("tool-refuses", "%s over %llu bytes exits with %d without a fault (stderr '%s')", cmd.c_str(), (unsigned long long)size, rc, shown(said).c_str());
			const bool prefix = line.compare(0, got.size(), got) == 0 || (appended && grown_line.compare(0, got.size(), got) == 0);
			if (!(known && prefix) && has_digest(got)) ctx.fail("wrong-output", "%s exits with %d and prints '%s'", cmd.c_str(), rc, shown(got).c_str());
			ctx.count(p_refusal);
			if (!got.empty()) ctx.count(p_prefix);
		}
		if (!b.big && file_state == good) {
			const std::string now = slurp(file);
			uint8_t s2 = 0;
			for (size_t i = 0; i != std::min<size_t>(size, now.size()); ++i) s2 = static_cast<uint8_t>(s2 * 31 + static_cast<uint8_t>(now[i]));
			if (now.size() != size + (appended ? b.grow_len : 0) || s2 != sum) ctx.fail("file-changed", "%s changes the file", cmd.c_str());
		}
	}

	void generate(Rng & r, Plan & p, uint64_t, int) {
		static const int errors[] = {EINTR, EIO, ENOMEM, EACCES, EPERM, EMFILE, ENFILE, ENODEV, EOVERFLOW, ESPIPE, EINVAL, EAGAIN, ENOSPC, EBADF, ESTALE, ETIMEDOUT};
		static const unsigned edges[] = {0, 1, 3, 31, 32, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 143, 144, 167, 168, 169, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537};
		uint64_t size = 0;
		switch (r.below(10)) {
			case 0: size = 0; break;
			case 1: size = 4096 * r.below(6); break;
			case 2: size = r.below(400); break;
			case 3: size = r.below(20000); break;
			case 4: size = r.chance(1, 8) ? r.below(2 << 20) : r.below(100000); break;
			default: size = r.pick(edges); break;
		}
		p.add(FILE_, r.below(nalgorithms), size, r.below(1u << 20), r.below(6));
		const unsigned mode = static_cast<unsigned>(r.below(8)); // 0, 1: nothing goes wrong
		auto rule = [&](unsigned fn, unsigned act, int err) { p.add(RULE, fn, r.chance(3, 4) ? 0 : r.below(4), r.below(2), act, err - 1, r.below(5000)); };
		auto error = [&](unsigned fn) { rule(fn, FAIL, errors[r.below(sizeof(errors) / sizeof(errors[0]))]); };
		if (mode >= 2) {
			for (unsigned i = 0, n = 1 + static_cast<unsigned>(r.below(3)); i != n; ++i) {
				switch (r.below(14)) {
					case 0: error(OPEN); break;
					case 1: error(SEEK); break;
					case 2:
						if (r.chance(1, 2)) error(MAP);
						else p.add(RULE, MAP, r.chance(7, 8) ? 0 : r.below(3), 0, BADPAGE, 0, r.below(64));
						break;
					case 3: error(STAT); break;
					case 4: error(READ); break;
					case 5: error(r.chance(1, 2) ? UNMAP : CLOSE); break;
					case 6: rule(r.chance(3, 4) ? READ : WRITE, SHORT, 1); break;
					case 7:
					case 8: p.add(STDOUT, r.below(out_count), r.below(r.chance(1, 2) ? 520 : 70)); break;
					case 9: p.add(STDERR, r.below(LIMIT)); break;
					case 10: p.add(PATH, r.below(8)); break;
					case 11: p.add(ARGS, r.below(6), r.below(1u << 16)); break;
					case 12:
						p.add(APPEND, r.chance(1, 2) ? r.below(200) : r.below(8000));
						rule(r.below(CLOCK), GROW, 1);
						break;
					default:
						if (r.chance(1, 3)) error(WRITE);
						else p.add(STDIN);
						break;
				}
			}
		} else if (r.chance(1, 2)) p.add(STDOUT, PIPE, 0);
		if (r.chance(1, 2)) p.add(CLOCKS, r.below(4), r.below(1u << 16));
	}

	// ---- files beyond 2 and 4 GiB ----
	void gen_long(Rng & r, Plan & p, uint64_t index, int tier) {
		static const char * const quick[] = {"xxhash64", "xxhash32", "xxhash64", "xxhash32"};
		unsigned alg = static_cast<unsigned>(index % nalgorithms);
		if (tier == 0)
			for (unsigned i = 0; i != nalgorithms; ++i)
				if (!strcmp(algorithms[i].name, quick[index % 4])) alg = i;
		const uint64_t base = index % 4 < 2 ? 1ull << 32 : 1ull << 31;
		p.add(FILE_, alg, 0, r.below(1u << 20), 5);
		p.add(BIG, base + r.below(20000) - 64, r.below(1u << 20));
		if (index % 2) p.add(CLOCKS, 2, r.below(1u << 16));
	}
} // namespace

const char * const counter_names[] = {
	"fault:open-fails", "fault:seek-fails", "fault:stat-fails", "fault:map-fails", "fault:read-fails", "fault:unmap-fails", "fault:close-fails", "fault:write-fails", "fault:short-transfer", "fault:file-grows", "fault:disk-error-under-mapping", "fault:stdout-closed", "fault:stdout-disk-full", "fault:stdout-read-only", "fault:stdout-broken-pipe", "fault:stdout-would-block", "fault:stdout-short-write-then-error", "fault:stderr-closed", "fault:stderr-full", "fault:stderr-broken-pipe", "fault:stderr-would-block", "fault:stdin-closed", "fault:clock-stands-still", "fault:clock-jumps-ahead", "fault:clock-jumps-back",
	"fault:no-such-file", "fault:directory", "fault:file-hides-its-size", "fault:name-too-long", "fault:unknown-algorithm", "fault:missing-arguments",
	"probe:digest-delivered", "probe:refused", "probe:empty-file", "probe:whole-pages", "probe:large-file", "probe:file-beyond-2-GiB", "probe:part-of-the-line-delivered", "probe:success-in-spite-of-fault"};
const unsigned counter_count = c_count;
static_assert(sizeof(counter_names) / sizeof(counter_names[0]) == c_count);

const Scenario scenarios[] = {
	{"C11", generate, execute, op_names, op_count, 60, 50},
	{"C11.long", gen_long, execute, op_names, op_count, 400, 1},
};
const unsigned scenario_count = 2;

} // namespace sim
