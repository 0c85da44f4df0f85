// Reference model and symbolic pre-states for ptl::string.
#pragma once
#include "iters.hpp"
#include <ostream>
#include "ptl/string.hpp"

namespace sx {
	constexpr std::size_t max_model{900};
	struct model { // the abstract character sequence
		char d[max_model]; std::size_t n{0};
		model() {}
		model(const char * p, std::size_t k) { set(p, k); }
		model(const model & o) : n{o.n} { std::memcpy(d, o.d, n); }
		model & operator=(const model & o) { if(this != &o) { n = o.n; std::memcpy(d, o.d, n); } return *this; }
		void set(const char * p, std::size_t k) { n = k; std::memcpy(d, p, k); }
		// [pos, pos + del) becomes [p, p + k); p is outside of the model
		void splice(std::size_t pos, std::size_t del, const char * p, std::size_t k) {
			std::memmove(d + pos + k, d + pos + del, n - pos - del); std::memcpy(d + pos, p, k); n = n - del + k;
		}
		void splice(std::size_t pos, std::size_t del, std::size_t k, char c) {
			std::memmove(d + pos + k, d + pos + del, n - pos - del); std::memset(d + pos, c, k); n = n - del + k;
		}
	};
	inline bool same(const char * a, const char * b, std::size_t n) { bool r{true}; for(std::size_t i{0}; i < n; ++i) r &= a[i] == b[i]; return r; }
	inline void check(const ptl::string & s, const model & m, const char * what) {
		sx_assert(s.size() == m.n, what);
		sx_assert(s.capacity() >= s.size(), "capacity below size");
		sx_assert(same(s.data(), m.d, m.n), what);
		sx_assert(s.data()[m.n] == 0, "no terminating NUL");
		sx_assert(s.empty() == (m.n == 0), "empty() disagrees with size()");
	}
	inline void note(const ptl::string & s) {
		sx_note("size", s.size()); sx_note("cap", s.capacity()); std::uint32_t h{0}; auto n = s.size(); auto p = s.data();
		for(std::size_t i{0}; i < n && i < 64; ++i) h = h * 3 + static_cast<unsigned char>(p[i]); sx_note("sum", h);
	}
	// the string still works: valid now and after being given new content
	inline void usable(ptl::string & s) {
		sx_assert(s.size() <= s.capacity() && s.data()[s.size()] == 0, "not a valid string");
		model m; m.set(s.data(), s.size()); s.append(3, 'u'); m.splice(m.n, 0, 3, 'u'); check(s, m, "unusable");
		s.assign(30, 'v'); m.n = 0; m.splice(0, 0, 30, 'v'); check(s, m, "unusable");
		s.clear(); m.n = 0; check(s, m, "unusable");
	}
	enum : std::size_t { tight, spare, stale, shortened, modes };
	// fill s (empty) with n symbolic characters, in one of four ways of getting there
	inline void fill(ptl::string & s, model & m, std::size_t n, std::size_t mode, const char * name = "c") {
		char buf[max_model]; sx_bytes(buf, n, name); m.set(buf, n);
		switch(mode) {
			case tight: s = ptl::string{std::string_view{buf, n}}; break;
			case spare: s.reserve(n + 30); s.append(std::string_view{buf, n}); break;
			case stale: { // longer before: arbitrary characters remain behind the end
				char old[40]; sx_bytes(old, 40, "old"); s.append(std::string_view{old, 40}); s.resize(n + 40, 'q'); s.clear(); s.append(std::string_view{buf, n}); break;
			}
			case shortened: { // had more characters, removed at the end one way or the other
				s.append(std::string_view{buf, n}); s.append(std::string_view{"0123456789", 7}); s.erase(s.begin() + n, s.end()); if(n <= 22) s.shrink_to_fit(); break;
			}
		}
	}
	inline void fill_any(ptl::string & s, model & m, std::size_t n, const char * name = "c") { auto mode = sx_pick("mode", modes); fill(s, m, n, mode, name); }
	// how many characters to add to n, given the capacity: few, and around exactly filling it
	inline std::size_t extra(const char * name, std::size_t n, std::size_t cap) {
		std::size_t c[]{0, 1, 2, 3, 5, 22, 23, cap - n, cap - n + 1, cap - n + 2, cap + 1, cap - n - 1}; auto k = sx_pick(name, cap == n ? 11 : 12);
		for(std::size_t i{0}; i < k; ++i) if(c[i] == c[k]) sx_assume(false); // already covered
		return c[k];
	}
	inline std::size_t length(const char * name) { // old lengths
#if SX_THOROUGH
		auto k = sx_pick(name, 84); if(k < 76) return k; std::size_t c[]{96, 97, 127, 128, 129, 255, 256, 257}; return c[k - 76];
#else
		return one_of(name, {0, 1, 2, 3, 7, 8, 12, 15, 16, 20, 21, 22, 23, 24, 25, 33, 46, 47, 48, 49, 71, 72, 73, 127, 128, 255, 256});
#endif
	}
	inline std::size_t few_lengths(const char * name) { return SX_THOROUGH ? one_of(name, {0, 1, 2, 3, 4, 8, 12, 16, 20, 21, 22, 23, 24, 25, 40, 47, 48, 49, 50, 72, 73, 128, 256}) : one_of(name, {0, 1, 2, 5, 11, 21, 22, 23, 24, 47, 48, 49, 130}); }
	// characters for an argument
	struct arg { char d[max_model]; std::size_t n; arg(std::size_t k, const char * name = "a") : n{k} { sx_bytes(d, k, name); } std::string_view view() const { return {d, n}; } };
}
