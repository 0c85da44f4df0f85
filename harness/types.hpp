// Element types of different kinds for the containers; each element stands for one byte.
#pragma once
#include "vec.hpp"
#include "ptl/string.hpp"

namespace sx { namespace ty {
	struct wide { unsigned char pad[40]; std::uint8_t v; unsigned char tail[23]; wide * operator&() { return nullptr; } const wide * operator&() const { return nullptr; } }; // does not even tell its address
	struct owner { int * p; owner * operator&() { return nullptr; } const owner * operator&() const { return nullptr; } owner() : p{nullptr} {} explicit owner(int x) : p{new int{x}} {} owner(const owner & o) : p{o.p ? new int{*o.p} : nullptr} {} owner(owner && o) noexcept : p{o.p} { o.p = nullptr; } owner & operator=(const owner & o) { owner t{o}; std::swap(p, t.p); return *this; } owner & operator=(owner && o) noexcept { if(this != std::addressof(o)) { delete p; p = o.p; o.p = nullptr; } return *this; } ~owner() { delete p; } };
	struct empty {}; enum class colour : std::uint8_t {};
	inline int anchors[256];
	template<std::size_t N> struct blob { std::uint8_t b[N]; }; // plain bytes, all equal
	template<std::size_t N> struct fixed { // knows its own address, lifetime registered
		const fixed * me; std::uint8_t v; std::uint8_t pad[N];
		fixed() noexcept : me{this}, v{0}, pad{} { sx_life_ctor(this); } explicit fixed(std::uint8_t x) noexcept : me{this}, v{x} { std::memset(pad, x, N); sx_life_ctor(this); }
		fixed(const fixed & o) noexcept : me{this}, v{o.v} { o.here(); std::memcpy(pad, o.pad, N); sx_life_ctor(this); } fixed(fixed && o) noexcept : me{this}, v{o.v} { o.here(); std::memcpy(pad, o.pad, N); o.v = 0xDD; o.pad[N - 1] = 0xDC; sx_life_ctor(this); }
		fixed & operator=(const fixed & o) noexcept { here(); o.here(); v = o.v; std::memmove(pad, o.pad, N); return *this; } fixed & operator=(fixed && o) noexcept { here(); o.here(); auto x = o.v; o.v = 0xDD; std::memmove(pad, o.pad, N); o.pad[N - 1] = 0xDC; v = x; pad[N - 1] = x; return *this; }
		~fixed() { here(); me = nullptr; sx_life_dtor(this); }
		void here() const { sx_life_check(this); sx_assert(me == this, "an object was relocated without its own operations"); }
	};
	template<typename T> constexpr std::size_t blob_size{0}; template<std::size_t N> constexpr std::size_t blob_size<blob<N>>{N}; template<typename T> constexpr std::size_t fixed_size{0}; template<std::size_t N> constexpr std::size_t fixed_size<fixed<N>>{N};
	inline bool all_equal(const std::uint8_t * p, std::size_t n, std::uint8_t x) { bool r = p[n - 1] == x; for(std::size_t i{0}; i < n; i += n > 64 ? 7 : 1) r &= p[i] == x; return r; }
	template<typename T> T make(std::uint8_t x) {
		if constexpr(std::is_same_v<T, wide>) { wide w{}; w.v = x; w.pad[0] = w.pad[39] = w.tail[0] = w.tail[22] = 0x77; return w; }
		else if constexpr(std::is_same_v<T, owner>) return owner{x};
		else if constexpr(std::is_same_v<T, ptl::string>) { char c[27]{"a filler behind the start!"}; c[0] = static_cast<char>(x); return ptl::string{std::string_view{c, x & 1 ? 5u : 26u}}; }
		else if constexpr(std::is_same_v<T, ptl::vector<std::uint8_t>>) { T r; r.push_back(x); r.push_back(0x77); return r; }
		else if constexpr(std::is_same_v<T, empty>) return {};
		else if constexpr(blob_size<T> != 0) { T r; std::memset(r.b, x, blob_size<T>); return r; }
		else if constexpr(fixed_size<T> != 0) return T(x);
		else if constexpr(std::is_same_v<T, double>) { std::uint64_t b{std::uint64_t{x} << 48 | x}; double r; std::memcpy(&r, &b, 8); return r; } // all kinds, as bits
		else if constexpr(std::is_pointer_v<T>) return anchors + x;
		else return static_cast<T>(x);
	}
	template<typename T> bool is(const T & e, std::uint8_t x) {
		if constexpr(std::is_same_v<T, wide>) return (e.v == x) & ((x == 0) | ((e.pad[0] == 0x77) & (e.pad[39] == 0x77) & (e.tail[0] == 0x77) & (e.tail[22] == 0x77)));
		else if constexpr(std::is_same_v<T, owner>) return e.p ? *e.p == x : x == 0;
		else if constexpr(std::is_same_v<T, ptl::string>) return e.empty() ? x == 0 : e.size() == (x & 1 ? 5u : 26u) && static_cast<std::uint8_t>(e[0]) == x && e[1] == ' ';
		else if constexpr(std::is_same_v<T, ptl::vector<std::uint8_t>>) return e.empty() ? x == 0 : e.size() == 2 && e[0] == x && e[1] == 0x77;
		else if constexpr(std::is_same_v<T, empty>) return true;
		else if constexpr(blob_size<T> != 0) return all_equal(e.b, blob_size<T>, x);
		else if constexpr(fixed_size<T> != 0) { e.here(); return (e.v == x) & all_equal(e.pad, fixed_size<T>, x); }
		else if constexpr(std::is_same_v<T, double>) { std::uint64_t b; std::memcpy(&b, &e, 8); return b == (std::uint64_t{x} << 48 | x); }
		else if constexpr(std::is_pointer_v<T>) return e ? e == anchors + x : x == 0;
		else if constexpr(std::is_same_v<T, bool>) return static_cast<std::uint8_t>(e) == x;
		else return static_cast<T>(x) == e;
	}
	constexpr std::size_t max_bmodel{71000};
	struct bmodel { // one byte per element
		std::uint8_t * d; std::size_t n{0};
		bmodel() : d{static_cast<std::uint8_t *>(std::malloc(2 * max_bmodel))} {}
		bmodel(const bmodel & o) : bmodel{} { *this = o; }
		bmodel & operator=(const bmodel & o) { n = o.n; std::memmove(d, o.d, n); return *this; }
		~bmodel() { std::free(d); }
		void fill(std::size_t pos, std::size_t k, std::uint8_t x) { std::memmove(d + pos + k, d + pos, n - pos); std::memset(d + pos, x, k); n += k; }
		void insert(std::size_t pos, const std::uint8_t * p, std::size_t k) { std::memmove(d + pos + k, d + pos, n - pos); std::memcpy(d + pos, p, k); n += k; }
		void erase(std::size_t pos, std::size_t k) { std::memmove(d + pos, d + pos + k, n - pos - k); n -= k; }
	};
	template<typename T> void check(const ptl::vector<T> & v, const bmodel & m, const char * what) {
		sx_assert(v.size() == m.n && v.capacity() >= m.n && v.empty() == (m.n == 0), what); auto p = v.data(); bool ok{true};
		if constexpr(std::is_same_v<T, std::uint8_t>) ok = m.n == 0 || std::memcmp(p, m.d, m.n) == 0; else for(std::size_t i{0}; i < m.n; ++i) ok &= is(p[i], m.d[i]); sx_assert(ok, what);
	}
	template<typename T> void check(const T * p, const bmodel & m, const char * what) { bool ok{true}; for(std::size_t i{0}; i < m.n; ++i) ok &= is(p[i], m.d[i]); sx_assert(ok, what); }
	template<typename T> constexpr bool branches = std::is_same_v<T, ptl::string> || std::is_same_v<T, ptl::vector<std::uint8_t>> || std::is_same_v<T, owner> || std::is_pointer_v<T>; // values that cost paths: concrete
	template<typename T> std::uint8_t value(const char * name, std::size_t i) { if(branches<T>) return static_cast<std::uint8_t>(3 + 5 * i); auto x = sx_u8(name); if(std::is_same_v<T, bool>) sx_assume(x < 2); return x; }
	template<typename T> void fill(ptl::vector<T> & v, bmodel & m, std::size_t n) { // in one of three ways
		auto mode = sx_pick("mode", 3); if(mode == 1) v.reserve(n + 20); else if(mode == 2) v.reserve(n);
		for(std::size_t i{0}; i < n; ++i) { m.d[i] = value<T>("e", i); v.push_back(make<T>(m.d[i])); } m.n = n;
	}
	template<typename T> struct elems { T d[32]{}; bmodel m; elems(std::size_t k) { m.n = k; for(std::size_t i{0}; i < k; ++i) { m.d[i] = value<T>("a", i + 11); d[i] = make<T>(m.d[i]); } } };
	template<typename F> void each_basic_type(F f) {
		switch(sx_pick("type", 11)) {
			case 0: f(std::uint8_t{}); break; case 1: f(bool{}); break; case 2: f(double{}); break; case 3: f(static_cast<int *>(nullptr)); break; case 4: f(wide{}); break; case 5: f(owner{}); break; case 6: f(ptl::string{}); break; case 7: f(ptl::vector<std::uint8_t>{}); break; case 8: f(empty{}); break; case 9: f(colour{}); break; case 10: f(static_cast<signed char>(0)); break;
		}
	}
	template<typename F> void each_type(F f) {
		switch(sx_pick("kind", SX_REDUCED ? 3 : 8)) {
			case 0: each_basic_type(f); break; case 1: f(blob<24>{}); break; case 2: f(fixed<40>{}); break; case 3: f(fixed<1>{}); break; case 4: f(blob<2>{}); break; case 5: f(blob<4>{}); break; case 6: f(blob<16>{}); break; case 7: f(blob<300>{}); break;
		}
	}
	// many elements
	inline std::size_t many(const char * name) { return SX_THOROUGH ? one_of(name, {127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 70000}) : SX_REDUCED ? one_of(name, {256, 65536}) : one_of(name, {128, 255, 256, 300, 1000, 65536}); }
	inline void fill_many(ptl::vector<std::uint8_t> & v, bmodel & m, std::size_t n) {
		for(std::size_t i{0}; i < 251 && i < n; ++i) m.d[i] = static_cast<std::uint8_t>(i * 3 + 1); for(std::size_t have{251}; have < n; have *= 2) std::memcpy(m.d + have, m.d, have < n - have ? have : n - have); m.n = n;
		std::size_t at[]{0, 127, 255, 256, n / 2, 65535, n - 1}; for(auto i : at) if(i < n) m.d[i] = sx_u8("e");
		if(sx_pick("spare", 2)) v.reserve(n + 300); v.assign(m.d, m.d + n);
	}
}
#ifndef SX_TYPES_APART
	using namespace ty;
#endif
}
