// Scheduling points inside the library: its sources are compiled with -fsanitize=thread, but the
// callbacks the compiler inserts at every memory access, atomic operation and function entry are ours.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim::hooks {

extern thread_local bool active; // library code of a simulated task is running in this thread
extern thread_local unsigned held; // locks it holds
extern int64_t countdown;        // hook steps until event() is called
extern void (*event)();
extern void (*blocked)(); // a lock is not available: run somebody else
extern uint64_t lock_waits;
extern uint64_t bulk; // bytes handled by memcpy and the like ("fenced" build)

// Runs fn(arg), which dies after `step` hook steps. mode 0: in a forked process that is killed there
// (memory shared with us keeps what was written so far); mode 1: in this process, abandoned there.
// Returns 1 if it died, 0 if it completed first, -1 if the doomed process crashed by itself.
int run_doomed(void (*fn)(void *), void * arg, uint64_t step, unsigned mode);

// Forbidden memory: library code that runs between fence_begin and fence_end must not touch it.
struct Fence {
	const void *lo, *hi;
};
void fence_begin(const Fence * f, unsigned n);
struct Hit {
	uintptr_t at; // 0: nothing was touched
	size_t len;
	bool write;
};
Hit fence_end();

} // namespace sim::hooks
