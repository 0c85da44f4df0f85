// Text output and input for the harnesses: real streams natively, stub/ in the symbolic executor.
#pragma once
#include "sx.hpp"
#include <istream>
#include <ostream>
namespace sx {
#ifdef SX_NATIVE
	struct buffer : std::streambuf {
		char out[4200]; buffer() { setp(out, out + sizeof(out)); } buffer(const char * p, std::size_t n) { auto q = const_cast<char *>(p); setg(q, q, q + n); }
		std::size_t written() const { return static_cast<std::size_t>(pptr() - pbase()); } std::size_t consumed() const { return static_cast<std::size_t>(gptr() - eback()); }
	};
#else
	struct buffer : std::sx_streambuf {
		buffer() {} buffer(const char * p, std::size_t k) { first = cur = p; last = p + k; }
		std::size_t written() const { return n; } std::size_t consumed() const { return static_cast<std::size_t>(cur - first); }
	};
#endif
	struct text_out { buffer b; std::ostream os{&b}; const char * data() const { return b.out; } std::size_t size() const { return b.written(); } };
	struct text_in { buffer b; std::istream is; text_in(const char * p, std::size_t n) : b{p, n}, is{&b} {} std::size_t consumed() const { return b.consumed(); } };
}
