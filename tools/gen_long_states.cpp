// Writes sim/long_states.inc: reference states of the fixed pattern stream at 2^29 and 2^32 bytes
// (rounded down to a block), so that long simulated streams need not be hashed twice.
#include "../sim/core.hpp"
#include "../sim/ref.hpp"
#include <cstdio>
#include <cstdlib>
#include <thread>
namespace sim {
const Scenario scenarios[] = {{}};
const unsigned scenario_count = 0;
const char * const counter_names[] = {""};
const unsigned counter_count = 0;
}
// compile core.cpp with -Dmain=core_main
int main() {
	struct E { const char * n; ref::Spec s; };
	using ref::Fam;
	const E es[] = {{"sha224", {Fam::sha32, 224, 0, 0, 0, 0}}, {"sha256", {Fam::sha32, 256, 0, 0, 0, 0}}, {"sha384", {Fam::sha64, 384, 0, 0, 0, 0}}, {"sha512", {Fam::sha64, 512, 0, 0, 0, 0}}, {"sha512/256", {Fam::sha64, 256, 0, 0, 256, 0}}, {"sha3-224", {Fam::keccak, 224, 144, 6, 0, 0}}, {"sha3-256", {Fam::keccak, 256, 136, 6, 0, 0}}, {"sha3-384", {Fam::keccak, 384, 104, 6, 0, 0}}, {"sha3-512", {Fam::keccak, 512, 72, 6, 0, 0}}, {"shake128", {Fam::keccak, 0, 168, 0x1f, 0, 0}}, {"shake256", {Fam::keccak, 0, 136, 0x1f, 0, 0}}};
	constexpr uint64_t P = 1u << 20;
	std::vector<uint8_t> pat(P);
	sim::fill_content(0xC0FFEE, 4, 0, pat.data(), P);
	std::vector<std::string> out(std::size(es));
	std::vector<std::thread> ts;
	for (size_t i = 0; i != std::size(es); ++i) ts.emplace_back([&, i] {
		ref::Model m(es[i].s);
		for (uint64_t edge: {1ull << 29, 1ull << 32}) {
			const uint64_t stop = (edge - 4096) / m.block() * m.block();
			while (m.total < stop) {
				const uint64_t o = m.total % P;
				const uint64_t n = std::min<uint64_t>(P - o, stop - m.total);
				m.update(pat.data() + o, n);
			}
			out[i] += "\t{\"" + std::string(es[i].n) + "\", " + std::to_string(stop) + "ull, \"" + m.save() + "\"},\n";
		}
	});
	for (auto & t: ts) t.join();
	for (auto & o: out) fputs(o.c_str(), stdout);
	return 0;
}
