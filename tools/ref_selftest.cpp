// prints reference results for tools/ref_selftest.py
#include "../sim/ref.hpp"
#include <cstdio>
#include <iostream>
#include <cstring>
int main() {
	std::string alg; unsigned db, rate, suf, t; unsigned long long seed; size_t n, chunk, out;
	int fam;
	while (std::cin >> fam >> db >> rate >> suf >> t >> seed >> n >> chunk >> out) {
		ref::bytes d(n);
		uint32_t x = (uint32_t)(n * 2654435761u + 12345);
		for (auto & b: d) { x = x * 1664525u + 1013904223u; b = (uint8_t)(x >> 24); }
		ref::Model m{ref::Spec{(ref::Fam)fam, db, rate, (uint8_t)suf, t, seed}};
		for (size_t i = 0; i < n;) { size_t k = chunk && chunk < n - i ? chunk : n - i; m.update(d.data() + i, k); i += k; }
		std::cout << ref::hex(m.digest(out)) << "\n";
	}
}
