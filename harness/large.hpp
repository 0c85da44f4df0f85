// Long strings: content with a period of 251 characters, except for a few symbolic ones.
#pragma once
#include "str.hpp"

namespace sx {
	constexpr std::size_t max_huge{150000};
	struct huge { // like model, for long content
		char * d; std::size_t n{0};
		huge() : d{static_cast<char *>(std::malloc(max_huge))} {}
		huge(const huge & o) : d{static_cast<char *>(std::malloc(max_huge))}, n{o.n} { std::memcpy(d, o.d, n); }
		huge(const char * p, std::size_t k) : d{static_cast<char *>(std::malloc(max_huge))}, n{k} { std::memcpy(d, p, k); }
		huge & operator=(const huge & o) { n = o.n; std::memmove(d, o.d, n); return *this; }
		~huge() { std::free(d); }
		// k characters, symbolic at the ends, in the middle and around the places where a narrower counter wraps
		void make(std::size_t k, const char * name, unsigned char phase, bool symbolic = true) {
			n = k; for(std::size_t i{0}; i < 251 && i < n; ++i) d[i] = static_cast<char>(i * 7 + phase); for(std::size_t have{251}; have < n; have *= 2) std::memcpy(d + have, d, have < n - have ? have : n - have);
			std::size_t at[]{0, 22, 127, 255, 256, n / 2, 32767, 65535, 65536, n - 1}; for(auto i : at) if(i < n && symbolic) d[i] = static_cast<char>(sx_u8(name));
		}
		void splice(std::size_t pos, std::size_t del, const char * p, std::size_t k) { std::memmove(d + pos + k, d + pos + del, n - pos - del); std::memcpy(d + pos, p, k); n = n - del + k; }
		void splice(std::size_t pos, std::size_t del, std::size_t k, char c) { std::memmove(d + pos + k, d + pos + del, n - pos - del); std::memset(d + pos, c, k); n = n - del + k; }
		std::string_view view() const { return {d, n}; }
	};
	inline void check(const ptl::string & s, const huge & m, const char * what) {
		sx_assert(s.size() == m.n && s.empty() == (m.n == 0), what); sx_assert(s.capacity() >= s.size(), "capacity below size"); sx_assert(std::memcmp(s.data(), m.d, m.n) == 0, what); sx_assert(s.data()[m.n] == 0, "no terminating NUL");
	}
	inline std::size_t large(const char * name) { return SX_THOROUGH ? one_of(name, {511, 513, 1000, 1023, 1024, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000}) : SX_REDUCED ? one_of(name, {1000, 65536}) : one_of(name, {1000, 4096, 32768, 65535, 65536, 70000}); }
	// s (empty) gets k characters: exactly, with spare capacity, or cut down from more
	inline void fill(ptl::string & s, huge & m, std::size_t k, const char * name = "c", unsigned char phase = 1) {
		m.make(k, name, phase);
		switch(sx_pick("mode", 3)) { case 0: s = m.view(); break; case 1: s.reserve(k + 300); s.append(m.view()); break; case 2: s.append(m.view()); s.append(500, 'o'); s.resize(k); break; }
	}
	// other content for an argument: short, medium, large
	inline std::size_t other(const char * name, std::size_t n) { return SX_THOROUGH ? one_of(name, {0, 1, 22, 23, 255, 256, 299, 300, 301, 512, n, 65536}) : one_of(name, {1, 23, 256, 300, 301, n}); }
}
