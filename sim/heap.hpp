// The heap, as library code sees it: allocations made while hooks::active is set (library code of this
// thread is running) are counted, tracked and, when the plan says so, refused.
#pragma once
#include <cstdint>

namespace sim::heap {

extern uint64_t attempts, refused;
extern uint64_t granted; // bytes

// starts a new account: attempt number i (from 0) fails if i >= from or bit i of mask is set (i < 64)
void begin(uint64_t mask, uint64_t from);
// blocks allocated by library code since begin() and not freed by it
uint64_t live();

} // namespace sim::heap
