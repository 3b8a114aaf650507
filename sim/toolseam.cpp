// libc entry points that the tool (and libstdc++ on its behalf) uses to reach files and clocks. They
// forward to the kernel; in the process that runs the tool they follow the rules of the plan.
#include "toolseam.hpp"
#include "core.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

using namespace sim::tool;

static Block * b = nullptr; // set only in the tool's process
static bool ours[1024];

extern "C" int tool_main(int, char **);

extern "C" int sim_other_main(int argc, char ** argv) {
	void * p = mmap(nullptr, sizeof(Block), PROT_READ | PROT_WRITE, MAP_SHARED, block_fd, 0);
	close(block_fd);
	if (p == MAP_FAILED) return 99;
	unsetenv("SIM_OTHER_MAIN");
	b = static_cast<Block *>(p);
	return tool_main(argc, argv);
}

namespace {
	void grow() {
		if (b->grown || !b->grow_len) return;
		b->grown = 1;
		syscall(SYS_pwrite64, input_fd, b->grow, static_cast<size_t>(b->grow_len), static_cast<off_t>(b->file_size));
	}
	// the rule that applies to this call, if any
	Rule * call(Fn fn) {
		const uint64_t n = b->calls[fn]++;
		if (b->nsequence < 64 && fn != CLOCK) b->sequence[b->nsequence++] = fn;
		Rule * hit = nullptr;
		for (unsigned i = 0; i != b->rules && i != max_rules; ++i) {
			Rule & r = b->rule[i];
			if (r.fn != fn || !(r.nth == n || (r.forever && n >= r.nth))) continue;
			// an interrupted or not yet possible call succeeds when it is made again often enough: a caller may retry until then
			if (r.act == FAIL && (r.err == EINTR || r.err == EAGAIN) && r.fired >= 12) continue;
			if (r.act == GROW) {
				grow();
				r.fired++;
				continue;
			}
			if (!hit) hit = &r;
		}
		return hit;
	}
	bool refused(Rule * r) {
		if (!r || r->act != FAIL) return false;
		r->fired++;
		errno = r->err;
		return true;
	}
	bool mine(int fd) { return b && fd >= 0 && fd < 1024 && ours[fd]; }
	bool is_path(const char * p) { return b && p && !strcmp(p, b->path); }
	int opened(long fd) {
		if (fd >= 0 && fd < 1024) {
			ours[fd] = true;
			b->opened++;
		}
		return static_cast<int>(fd);
	}
	// a short transfer
	size_t shorter(Rule * r, size_t n) {
		if (!r || r->act != SHORT || n < 2) return n;
		r->fired++;
		const size_t k = 1 + r->arg % (n - 1);
		return k;
	}
	template <typename F> F next(const char * name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
	uint64_t clock_state = 0, clock_calls = 0;
	void fake_time(timespec * ts) {
		using sim::mix;
		const uint64_t i = clock_calls++;
		call(CLOCK);
		if (!i) clock_state = 1700000000000000000ull + mix(b->clock_seed) % 1000000000000ull;
		switch (b->clock_mode % 4) {
			case 0: clock_state += 1000 + mix(b->clock_seed, i) % 1000000; break;                     // steady
			case 1: break;                                                                            // stands still
			case 2: clock_state += mix(b->clock_seed, i) % 3000000000000000000ull; break;             // jumps ahead by up to 95 years
			default: clock_state -= i ? mix(b->clock_seed, i) % 1600000000000000000ull : 0; break;    // jumps back by up to 50 years
		}
		ts->tv_sec = static_cast<time_t>(static_cast<int64_t>(clock_state) / 1000000000);
		ts->tv_nsec = static_cast<long>(static_cast<int64_t>(clock_state) % 1000000000);
		if (ts->tv_nsec < 0) {
			ts->tv_nsec += 1000000000;
			--ts->tv_sec;
		}
	}
	int do_open(int dir, const char * p, int flags, mode_t mode) {
		if (!is_path(p)) return static_cast<int>(syscall(SYS_openat, dir, p, flags, mode));
		if (refused(call(OPEN))) return -1;
		return opened(syscall(SYS_openat, dir, p, flags, mode));
	}
	template <typename S> int do_stat(bool tracked, int dir, const char * p, S * s, int flags) {
		if (tracked && refused(call(STAT))) return -1;
		return static_cast<int>(syscall(SYS_newfstatat, dir, p, s, flags));
	}
	// a disk error under one page of a mapping: touching it raises SIGBUS, as memory behind the end of a file does
	void spoil(Rule * r, char * p, size_t whole) {
		if (!r || r->act != BADPAGE) return;
		constexpr size_t page = 4096;
		const long empty = syscall(SYS_memfd_create, "bad", MFD_CLOEXEC);
		if (empty < 0) _exit(98);
		void * q = reinterpret_cast<void *>(syscall(SYS_mmap, p + r->arg % (whole / page) * page, page, PROT_READ, MAP_SHARED | MAP_FIXED, empty, 0));
		if (q == MAP_FAILED) _exit(98);
		syscall(SYS_close, empty);
		r->fired++;
	}
	void * do_mmap(void * addr, size_t len, int prot, int flags, int fd, off_t off) {
		auto raw = [](void * a, size_t l, int pr, int fl, int f, off_t o) { return reinterpret_cast<void *>(syscall(SYS_mmap, a, l, pr, fl, f, o)); };
		if (!mine(fd)) return raw(addr, len, prot, flags, fd, off);
		Rule * const rule = call(MAP);
		if (refused(rule)) return MAP_FAILED;
		constexpr size_t page = 4096;
		const size_t whole = (len + page - 1) & ~(page - 1);
		if (len == 0 || addr || (flags & MAP_FIXED)) return raw(addr, len, prot, flags, fd, off);
		struct stat st;
		if (syscall(SYS_newfstatat, fd, "", &st, AT_EMPTY_PATH) != 0 || !S_ISREG(st.st_mode)) return raw(addr, len, prot, flags, fd, off);
		// the page behind the mapping is never accessible
		char * room = static_cast<char *>(raw(nullptr, whole + page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (room == MAP_FAILED) return room;
		if (b->big && off == 0 && len > (64u << 20)) {
			// same contents as the sparse file, without filling memory with its holes
			void * p = raw(room, whole, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
			for (unsigned i = 0; p != MAP_FAILED && i != b->islands; ++i) {
				const Island & k = b->island[i];
				if (k.at < whole) raw(room + k.at, std::min<uint64_t>(k.len, whole - k.at), prot, MAP_PRIVATE | MAP_FIXED, fd, static_cast<off_t>(k.at));
			}
			if (p != MAP_FAILED) spoil(rule, room, whole);
			return p;
		}
		void * p = raw(room, len, prot, flags | MAP_FIXED, fd, off);
		if (p == MAP_FAILED) {
			const int e = errno;
			syscall(SYS_munmap, room, whole + page);
			errno = e;
		} else spoil(rule, room, whole);
		return p;
	}
} // namespace

extern "C" {
int open(const char * p, int flags, ...) {
	va_list ap;
	va_start(ap, flags);
	const mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
	va_end(ap);
	return do_open(AT_FDCWD, p, flags, m);
}
int open64(const char * p, int flags, ...) {
	va_list ap;
	va_start(ap, flags);
	const mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
	va_end(ap);
	return do_open(AT_FDCWD, p, flags, m);
}
int openat(int dir, const char * p, int flags, ...) {
	va_list ap;
	va_start(ap, flags);
	const mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
	va_end(ap);
	return do_open(dir, p, flags, m);
}
int __open_2(const char * p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
int __open64_2(const char * p, int flags) { return do_open(AT_FDCWD, p, flags, 0); }
FILE * fopen64(const char * p, const char * m) {
	using F = FILE * (*)(const char *, const char *);
	static F real = next<F>("fopen64");
	if (!is_path(p)) return real(p, m);
	if (refused(call(OPEN))) return nullptr;
	FILE * f = real(p, m);
	if (f) opened(fileno(f));
	return f;
}
FILE * fopen(const char * p, const char * m) { return fopen64(p, m); }
off_t lseek(int fd, off_t o, int w) noexcept {
	if (mine(fd) && refused(call(SEEK))) return -1;
	return syscall(SYS_lseek, fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) noexcept { return lseek(fd, o, w); }
int fstat(int fd, struct stat * s) noexcept { return do_stat(mine(fd), fd, "", s, AT_EMPTY_PATH); }
int fstat64(int fd, struct stat64 * s) noexcept { return do_stat(mine(fd), fd, "", s, AT_EMPTY_PATH); }
int stat(const char * p, struct stat * s) noexcept { return do_stat(is_path(p), AT_FDCWD, p, s, 0); }
int stat64(const char * p, struct stat64 * s) noexcept { return do_stat(is_path(p), AT_FDCWD, p, s, 0); }
void * mmap(void * a, size_t l, int pr, int fl, int fd, off_t o) noexcept { return do_mmap(a, l, pr, fl, fd, o); }
void * mmap64(void * a, size_t l, int pr, int fl, int fd, off_t o) noexcept { return do_mmap(a, l, pr, fl, fd, o); }
int munmap(void * p, size_t n) noexcept {
	if (b && refused(call(UNMAP))) return -1;
	return static_cast<int>(syscall(SYS_munmap, p, n));
}
int close(int fd) {
	if (mine(fd)) {
		ours[fd] = false;
		if (refused(call(CLOSE))) {
			const int e = errno;
			syscall(SYS_close, fd);
			errno = e;
			return -1;
		}
	}
	return static_cast<int>(syscall(SYS_close, fd));
}
ssize_t read(int fd, void * p, size_t n) {
	if (!mine(fd)) return syscall(SYS_read, fd, p, n);
	Rule * r = call(READ);
	if (refused(r)) return -1;
	return syscall(SYS_read, fd, p, shorter(r, n));
}
ssize_t __read_chk(int fd, void * p, size_t n, size_t) { return read(fd, p, n); }
ssize_t pread(int fd, void * p, size_t n, off_t o) {
	if (!mine(fd)) return syscall(SYS_pread64, fd, p, n, o);
	Rule * r = call(READ);
	if (refused(r)) return -1;
	return syscall(SYS_pread64, fd, p, shorter(r, n), o);
}
ssize_t pread64(int fd, void * p, size_t n, off_t o) { return pread(fd, p, n, o); }
ssize_t readv(int fd, const iovec * v, int n) {
	if (!mine(fd)) return syscall(SYS_readv, fd, v, n);
	Rule * r = call(READ);
	if (refused(r)) return -1;
	if (r && r->act == SHORT && n > 0) return syscall(SYS_read, fd, v[0].iov_base, shorter(r, v[0].iov_len));
	return syscall(SYS_readv, fd, v, n);
}
ssize_t write(int fd, const void * p, size_t n) {
	if (!b || fd != 1) return syscall(SYS_write, fd, p, n);
	Rule * r = call(WRITE);
	if (refused(r)) return -1;
	return syscall(SYS_write, fd, p, shorter(r, n));
}
ssize_t writev(int fd, const iovec * v, int n) {
	if (!b || fd != 1) return syscall(SYS_writev, fd, v, n);
	Rule * r = call(WRITE);
	if (refused(r)) return -1;
	if (r && r->act == SHORT && n > 0) return syscall(SYS_write, fd, v[0].iov_base, shorter(r, v[0].iov_len));
	return syscall(SYS_writev, fd, v, n);
}
int clock_gettime(clockid_t c, timespec * ts) noexcept {
	if (!b) return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
	fake_time(ts);
	return 0;
}
int gettimeofday(timeval * tv, void * tz) noexcept {
	if (!b) return static_cast<int>(syscall(SYS_gettimeofday, tv, tz));
	timespec ts;
	fake_time(&ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t * t) noexcept {
	timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
}
