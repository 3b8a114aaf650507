#include "hooks.hpp"
#include <cerrno>
#include <csetjmp>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim::hooks {

thread_local bool active = false;
thread_local unsigned held = 0;
int64_t countdown = INT64_MAX;
void (*event)() = nullptr;
void (*blocked)() = nullptr;
uint64_t lock_waits = 0;
uint64_t bulk = 0;

static void fire() {
	active = false;
	if (event) event();
	else countdown = INT64_MAX;
	active = true;
}

static inline void step() {
	if (active && --countdown <= 0) fire();
}
static constexpr unsigned max_fences = 24;
static unsigned fences_up = 0;
static Fence fences[max_fences];
static Hit fence_hit;

static void check_fences(const volatile void * p, size_t n, bool write) {
	const auto a = reinterpret_cast<uintptr_t>(p);
	for (unsigned i = 0; i != fences_up; ++i) {
		if (a < reinterpret_cast<uintptr_t>(fences[i].hi) && a + n > reinterpret_cast<uintptr_t>(fences[i].lo)) {
			if (!fence_hit.at) fence_hit = {a, n, write};
			return;
		}
	}
}
static inline void touch(const volatile void * p, size_t n, bool write) {
	if (!active) return;
	if (fences_up && n) check_fences(p, n, write);
	if (--countdown <= 0) fire();
}
void fence_begin(const Fence * f, unsigned n) {
	fences_up = 0;
	for (unsigned i = 0; i != n && fences_up != max_fences; ++i)
		if (f[i].lo < f[i].hi) fences[fences_up++] = f[i];
	fence_hit = {0, 0, false};
	countdown = INT64_MAX;
	active = true;
}
Hit fence_end() {
	active = false;
	fences_up = 0;
	return fence_hit;
}

static void wait_for_lock() {
	++lock_waits;
	const bool a = active;
	active = false;
	if (a && blocked) blocked();
	else sched_yield();
	active = a;
}

static sigjmp_buf doomed_env;
static void die_process() { _exit(77); }
static void die_here() {
	if (held) { // not while holding a lock of the process that lives on
		countdown = 1;
		return;
	}
	countdown = INT64_MAX;
	siglongjmp(doomed_env, 1);
}

int run_doomed(void (*fn)(void *), void * arg, uint64_t at, unsigned mode) {
	if (mode == 0) {
		const pid_t pid = fork();
		if (pid == 0) {
			itimerval t{};
			t.it_value.tv_sec = 10;
			setitimer(ITIMER_VIRTUAL, &t, nullptr);
			event = die_process;
			countdown = static_cast<int64_t>(at) + 1;
			active = true;
			fn(arg);
			_exit(78);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return 1;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 78) return 0;
		return -1;
	}
	volatile int r = 0;
	if (sigsetjmp(doomed_env, 0) == 0) {
		event = die_here;
		countdown = static_cast<int64_t>(at) + 1;
		active = true;
		fn(arg);
	} else {
		r = 1;
	}
	active = false;
	event = nullptr;
	countdown = INT64_MAX;
	return r;
}

} // namespace sim::hooks

using sim::hooks::step;
using sim::hooks::touch;

extern "C" {
void __tsan_init() { }
void __sanitizer_cov_trace_pc() { step(); } // every basic block ("counted" build)
void __tsan_func_entry(void *) { step(); }
void __tsan_func_exit() { step(); }
#define RW(S) \
	void __tsan_read##S(void * a) { touch(a, S, false); } \
	void __tsan_write##S(void * a) { touch(a, S, true); } \
	void __tsan_read##S##_pc(void * a, void *) { touch(a, S, false); } \
	void __tsan_write##S##_pc(void * a, void *) { touch(a, S, true); } \
	void __tsan_unaligned_read##S(const void * a) { touch(a, S, false); } \
	void __tsan_unaligned_write##S(void * a) { touch(a, S, true); } \
	void __tsan_read_write##S(void * a) { touch(a, S, true); } \
	void __tsan_unaligned_read_write##S(void * a) { touch(a, S, true); } \
	void __tsan_volatile_read##S(void * a) { touch(a, S, false); } \
	void __tsan_volatile_write##S(void * a) { touch(a, S, true); } \
	void __tsan_unaligned_volatile_read##S(void * a) { touch(a, S, false); } \
	void __tsan_unaligned_volatile_write##S(void * a) { touch(a, S, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **, void *) { step(); }
void __tsan_vptr_read(void **) { step(); }
void __tsan_read_range(void * a, size_t n) { touch(a, n, false); }
void __tsan_write_range(void * a, size_t n) { touch(a, n, true); }
// calls left to libc; the "fenced" build renames memcpy to sim_memcpy and so on in library objects
void * sim_memcpy(void * d, const void * s, size_t n) {
	if (sim::hooks::active) sim::hooks::bulk += n;
	touch(s, n, false);
	touch(d, n, true);
	return memcpy(d, s, n);
}
void * sim_memmove(void * d, const void * s, size_t n) {
	if (sim::hooks::active) sim::hooks::bulk += n;
	touch(s, n, false);
	touch(d, n, true);
	return memmove(d, s, n);
}
void * sim_memset(void * d, int c, size_t n) {
	if (sim::hooks::active) sim::hooks::bulk += n;
	touch(d, n, true);
	return memset(d, c, n);
}
int sim_memcmp(const void * a, const void * b, size_t n) {
	if (sim::hooks::active) sim::hooks::bulk += n;
	touch(a, n, false);
	touch(b, n, false);
	return memcmp(a, b, n);
}
void * __tsan_memcpy(void * d, const void * s, size_t n) { return sim_memcpy(d, s, n); }
void * __tsan_memset(void * d, int c, size_t n) { return sim_memset(d, c, n); }
void * __tsan_memmove(void * d, const void * s, size_t n) { return sim_memmove(d, s, n); }

#define AT(N, T) \
	T __tsan_atomic##N##_load(const volatile T * a, int) { step(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##N##_store(volatile T * a, T v, int) { step(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_exchange(volatile T * a, T v, int) { step(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_add(volatile T * a, T v, int) { step(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_sub(volatile T * a, T v, int) { step(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_and(volatile T * a, T v, int) { step(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_or(volatile T * a, T v, int) { step(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_xor(volatile T * a, T v, int) { step(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_nand(volatile T * a, T v, int) { step(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { step(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { step(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T * a, T c, T v, int, int) { step(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { step(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) { step(); }

// locks: waiting hands the turn to another task
#define REAL(name, type) static type real = reinterpret_cast<type>(dlsym(RTLD_NEXT, name))
int pthread_mutex_lock(pthread_mutex_t * m) {
	using F = int (*)(pthread_mutex_t *);
	REAL("pthread_mutex_lock", F);
	if (!sim::hooks::active) return real(m);
	step();
	int r;
	while ((r = pthread_mutex_trylock(m)) == EBUSY) sim::hooks::wait_for_lock();
	if (r == 0) ++sim::hooks::held;
	return r;
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
	using F = int (*)(pthread_mutex_t *);
	REAL("pthread_mutex_unlock", F);
	const int r = real(m);
	if (sim::hooks::active) {
		if (sim::hooks::held) --sim::hooks::held;
		step();
	}
	return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * m) {
	using F = int (*)(pthread_rwlock_t *);
	REAL("pthread_rwlock_rdlock", F);
	if (!sim::hooks::active) return real(m);
	step();
	int r;
	while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) sim::hooks::wait_for_lock();
	if (r == 0) ++sim::hooks::held;
	return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t * m) {
	using F = int (*)(pthread_rwlock_t *);
	REAL("pthread_rwlock_wrlock", F);
	if (!sim::hooks::active) return real(m);
	step();
	int r;
	while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) sim::hooks::wait_for_lock();
	if (r == 0) ++sim::hooks::held;
	return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t * m) {
	using F = int (*)(pthread_rwlock_t *);
	REAL("pthread_rwlock_unlock", F);
	const int r = real(m);
	if (sim::hooks::active) {
		if (sim::hooks::held) --sim::hooks::held;
		step();
	}
	return r;
}
int pthread_spin_lock(pthread_spinlock_t * m) {
	while (pthread_spin_trylock(m) == EBUSY) sim::hooks::wait_for_lock();
	return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
	using F = int (*)(pthread_cond_t *, pthread_mutex_t *);
	REAL("pthread_cond_wait", F);
	if (!sim::hooks::active) return real(c, m);
	pthread_mutex_unlock(m);
	sim::hooks::wait_for_lock(); // a spurious wake-up is allowed
	return pthread_mutex_lock(m);
}
int pthread_once(pthread_once_t * o, void (*f)(void)) {
	int * s = o;
	for (;;) {
		if (*s == 2) return 0;
		if (*s == 0) break;
		sim::hooks::wait_for_lock();
	}
	*s = 1;
	++sim::hooks::held;
	struct Undo {
		int * s;
		~Undo() {
			--sim::hooks::held;
			if (*s == 1) *s = 0;
		}
	} u{s};
	f();
	*s = 2;
	return 0;
}

// function-local statics (only one thread runs at a time, so plain bytes suffice)
int __cxa_guard_acquire(long long * g) {
	auto * b = reinterpret_cast<volatile unsigned char *>(g);
	for (;;) {
		if (b[0]) return 0;
		if (!b[1]) break;
		sim::hooks::wait_for_lock();
	}
	b[1] = 1;
	++sim::hooks::held;
	return 1;
}
void __cxa_guard_release(long long * g) {
	auto * b = reinterpret_cast<volatile unsigned char *>(g);
	b[0] = 1;
	b[1] = 0;
	if (sim::hooks::held) --sim::hooks::held;
}
void __cxa_guard_abort(long long * g) {
	auto * b = reinterpret_cast<volatile unsigned char *>(g);
	b[1] = 0;
	if (sim::hooks::held) --sim::hooks::held;
}
}
