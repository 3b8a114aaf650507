// The exceptions that failing sinks and sources throw: the library must not care which.
#pragma once
#include <format>
#include <ios>
#include <new>
#include <stdexcept>
#include <system_error>

namespace sim {

struct Injected { };
constexpr unsigned raise_kinds = 8;
constexpr const char * raise_names[] = {"foreign class", "bad_alloc", "ios_base::failure", "runtime_error", "format_error", "int", "system_error", "out_of_range", "something else"};

[[noreturn]] inline void raise(unsigned kind) {
	switch (kind % raise_kinds) {
		case 1: throw std::bad_alloc{};
		case 2: throw std::ios_base::failure("injected");
		case 3: throw std::runtime_error("injected");
		case 4: throw std::format_error("injected");
		case 5: throw 42;
		case 6: throw std::system_error(std::make_error_code(std::errc::io_error));
		case 7: throw std::out_of_range("injected");
		default: throw Injected{};
	}
}
// which of them is being handled
inline unsigned raised() {
	try {
		throw;
	} catch (const Injected &) {
		return 0;
	} catch (const std::bad_alloc &) {
		return 1;
	} catch (const std::ios_base::failure &) {
		return 2;
	} catch (const std::system_error &) {
		return 6;
	} catch (const std::format_error &) {
		return 4;
	} catch (const std::runtime_error &) {
		return 3;
	} catch (const std::out_of_range &) {
		return 7;
	} catch (int) {
		return 5;
	} catch (...) {
		return raise_kinds;
	}
}

} // namespace sim
