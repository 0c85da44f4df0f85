// Reference model and symbolic pre-states for ptl::vector.
#pragma once
#include "iters.hpp"
#include "ptl/vector.hpp"

namespace sx {
	constexpr std::size_t max_vmodel{200};
	struct vmodel { // the abstract sequence; elements are represented by 16 bits
		std::uint16_t d[max_vmodel]; std::size_t n{0};
		vmodel() {}
		vmodel(const std::uint16_t * p, std::size_t k) { set(p, k); }
		vmodel(const vmodel & o) : n{o.n} { std::memcpy(d, o.d, 2 * n); }
		vmodel & operator=(const vmodel & o) { if(this != &o) { n = o.n; std::memcpy(d, o.d, 2 * n); } return *this; }
		void set(const std::uint16_t * p, std::size_t k) { n = k; std::memcpy(d, p, 2 * k); }
		void splice(std::size_t pos, std::size_t del, const std::uint16_t * p, std::size_t k) { std::memmove(d + pos + k, d + pos + del, 2 * (n - pos - del)); std::memcpy(d + pos, p, 2 * k); n = n - del + k; }
		void fill(std::size_t pos, std::size_t k, std::uint16_t v) { std::memmove(d + pos + k, d + pos, 2 * (n - pos)); for(std::size_t i{0}; i < k; ++i) d[pos + i] = v; n += k; }
		void erase(std::size_t pos, std::size_t del) { splice(pos, del, d, 0); }
	};
	template<typename T> bool same(const T * p, const std::uint16_t * q, std::size_t n) { bool r{true}; for(std::size_t i{0}; i < n; ++i) r &= val(p[i]) == q[i]; return r; }
	template<typename T> void check(const ptl::vector<T> & v, const vmodel & m, const char * what) {
		sx_assert(v.size() == m.n, what); sx_assert(v.capacity() >= v.size(), "capacity below size"); sx_assert(v.empty() == (m.n == 0), "empty() disagrees with size()"); sx_assert(same(v.data(), m.d, m.n), what);
		if constexpr(is_tracked<T>) { bool moved{false}; for(std::size_t i{0}; i < m.n; ++i) moved |= v.data()[i].moved; sx_assert(!moved, "an element in the vector was moved from"); }
	}
	template<typename T> void note(const ptl::vector<T> & v) { sx_note("size", v.size()); sx_note("cap", v.capacity()); std::uint32_t h{0}; for(std::size_t i{0}; i < v.size(); ++i) h = h * 3 + val(v.data()[i]); sx_note("sum", h); }
	template<typename T> void usable(ptl::vector<T> & v) {
		vmodel m; m.n = v.size(); for(std::size_t i{0}; i < m.n; ++i) m.d[i] = val(v.data()[i]);
		for(std::uint16_t i{0}; i < 3; ++i) { v.push_back(T(i)); m.fill(m.n, 1, i); } check(v, m, "unusable");
		if(m.n) { v.erase(v.begin()); m.erase(0, 1); check(v, m, "unusable"); } v.clear(); m.n = 0; check(v, m, "unusable"); v.resize(2, T(std::uint16_t{7})); m.fill(0, 2, 7); check(v, m, "unusable");
	}
	enum : std::size_t { v_exact, v_spare, v_grown, v_shrunk, v_modes };
	// fill v (empty) with n symbolic elements, in one of four ways
	template<typename T> void fill(ptl::vector<T> & v, vmodel & m, std::size_t n, std::size_t mode, const char * name = "e") {
		m.n = n; sx_bytes(m.d, 2 * n, name);
		auto add = [&] { for(std::size_t i{0}; i < n; ++i) v.push_back(T(m.d[i])); };
		switch(mode) {
			case v_exact: v.reserve(n); add(); break; // capacity n (at least 10)
			case v_spare: v.reserve(n + 25); add(); break;
			case v_grown: add(); break;
			case v_shrunk: add(); v.resize(n + 6, T(std::uint16_t{0x5555})); v.pop_back(); v.erase(v.begin() + n, v.end()); break; // stale storage behind the end
		}
	}
	template<typename T> void fill_any(ptl::vector<T> & v, vmodel & m, std::size_t n, const char * name = "e") { auto mode = sx_pick("mode", v_modes); fill(v, m, n, mode, name); }
	inline std::size_t vlength(const char * name) { return SX_THOROUGH ? sx_pick(name, 33) : one_of(name, {0, 1, 2, 5, 9, 10, 11, 20, 21}); }
	inline std::size_t vextra(const char * name, std::size_t n, std::size_t cap) {
		std::size_t c[]{0, 1, 2, 3, 9, 10, 11, cap - n, cap - n + 1, n, n + 1, 2 * n + 1}; auto k = sx_pick(name, 12); for(std::size_t i{0}; i < k; ++i) if(c[i] == c[k]) sx_assume(false); return c[k];
	}
	// k symbolic values, as elements
	template<typename T> struct vargs { std::uint16_t d[80]; alignas(T) unsigned char raw[80 * sizeof(T)]; std::size_t n;
		vargs(std::size_t k, const char * name = "a") : n{k} { sx_bytes(d, 2 * k, name); for(std::size_t i{0}; i < k; ++i) new(raw + i * sizeof(T)) T(d[i]); }
		vargs(const vargs &) =delete;
		~vargs() { for(std::size_t i{0}; i < n; ++i) p()[i].~T(); }
		T * p() { return reinterpret_cast<T *>(raw); } T * e() { return p() + n; }
		void intact() { sx_assert(sx::same(p(), d, n), "the source elements changed"); }
	};
}
