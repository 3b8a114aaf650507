#include "heap.hpp"
#include "hooks.hpp"
#include <cerrno>
#include <cstddef>
#include <cstdlib>

extern "C" {
void * __libc_malloc(size_t);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
void __libc_free(void *);
}

namespace sim::heap {

uint64_t attempts = 0, refused = 0, granted = 0;
static uint64_t fail_mask = 0, fail_from = ~0ull;

constexpr unsigned cap = 4096;
static void * blocks[cap];
static unsigned nblocks = 0;

void begin(uint64_t mask, uint64_t from) {
	attempts = refused = 0;
	fail_mask = mask;
	fail_from = from;
	nblocks = 0;
}
uint64_t live() { return nblocks; }

static bool refuse() {
	const uint64_t i = attempts++;
	if (i >= fail_from || (i < 64 && (fail_mask >> i & 1))) {
		++refused;
		errno = ENOMEM;
		return true;
	}
	return false;
}
static void * track(void * p, size_t n) {
	if (p) granted += n;
	if (p && nblocks != cap) blocks[nblocks++] = p;
	return p;
}
static void forget(void * p) {
	for (unsigned i = nblocks; i--;)
		if (blocks[i] == p) {
			blocks[i] = blocks[--nblocks];
			return;
		}
}

} // namespace sim::heap

using namespace sim;
using sim::hooks::active;

extern "C" {
void * malloc(size_t n) {
	if (!active) return __libc_malloc(n);
	return heap::refuse() ? nullptr : heap::track(__libc_malloc(n), n);
}
void * calloc(size_t a, size_t b) {
	if (!active) return __libc_calloc(a, b);
	return heap::refuse() ? nullptr : heap::track(__libc_calloc(a, b), a * b);
}
void * realloc(void * p, size_t n) {
	if (!active) return __libc_realloc(p, n);
	if (heap::refuse()) return nullptr;
	heap::forget(p);
	return heap::track(__libc_realloc(p, n), n);
}
void * memalign(size_t al, size_t n) {
	if (!active) return __libc_memalign(al, n);
	return heap::refuse() ? nullptr : heap::track(__libc_memalign(al, n), n);
}
void * aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void ** out, size_t al, size_t n) {
	void * p = memalign(al, n);
	if (!p) return ENOMEM;
	*out = p;
	return 0;
}
void free(void * p) {
	if (p && heap::nblocks) heap::forget(p);
	__libc_free(p);
}
}
