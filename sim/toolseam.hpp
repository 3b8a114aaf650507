// The seam between the checksum tool and its operating system: one block of memory shared between the
// simulator and the process that runs the tool's real main().
#pragma once
#include <cstdint>

namespace sim::tool {

enum Fn : uint32_t { OPEN, SEEK, STAT, MAP, READ, UNMAP, CLOSE, WRITE, CLOCK, fn_count };
enum Act : uint32_t { FAIL, SHORT, GROW, BADPAGE, act_count };

struct Rule {
	uint32_t fn, nth, forever, act;
	int32_t err;
	uint64_t arg;
	uint32_t fired;
};
struct Island {
	uint64_t at, len; // whole pages
};
constexpr unsigned max_rules = 8, max_islands = 4;
struct Block {
	// written by the simulator
	char path[512];
	uint32_t rules, islands, grow_len;
	int32_t file_fd;
	Rule rule[max_rules];
	Island island[max_islands];
	uint64_t big;       // a sparse file of this size whose only data are the islands
	uint64_t file_size; // at start
	uint64_t clock_seed, clock_mode;
	uint8_t grow[8192];
	// written by the seam
	uint64_t calls[fn_count];
	uint32_t grown, opened, sequence[64], nsequence;
};
constexpr int block_fd = 199, input_fd = 100;

} // namespace sim::tool
