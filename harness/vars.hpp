// Alternatives and reference model for ptl::variant.
#pragma once
#include "iters.hpp"
#include "ptl/variant.hpp"

namespace sx {
	struct wide { // larger than the other alternatives, lifetime registered; construction from a number never throws, copying may
		std::uint16_t v; std::uint16_t more[5]; unsigned char me[sizeof(void *)];
		void born() { const void * p = this; std::memcpy(me, &p, sizeof(p)); sx_life_ctor(this); }
		wide() noexcept : wide{std::uint16_t{0}} {}
		wide(std::uint16_t x) noexcept : v{x} { for(auto & m : more) m = static_cast<std::uint16_t>(x + 1); born(); }
		wide(const wide & o) : v{o.v} { o.sane(); burn(fuse.copies); std::memcpy(more, o.more, sizeof(more)); born(); }
		wide(wide && o) noexcept : v{o.v} { o.sane(); std::memcpy(more, o.more, sizeof(more)); born(); o.v = 0xDEAD; for(auto & m : o.more) m = 0xDEAE; }
		wide & operator=(const wide & o) { sane(); o.sane(); if(fuse.copies == 0) set(0xFA11); burn(fuse.copies); v = o.v; std::memmove(more, o.more, sizeof(more)); return *this; }
		wide & operator=(wide && o) noexcept { sane(); o.sane(); auto x = o.v; o.set(0xDEAD); set(x); return *this; }
		~wide() { at_home(); sx_life_dtor(this); }
		void set(std::uint16_t x) { v = x; for(auto & m : more) m = static_cast<std::uint16_t>(x + 1); }
		void at_home() const { sx_life_check(this); const void * p; std::memcpy(&p, me, sizeof(p)); sx_assert(p == this, "an object was relocated without its own operations"); }
		void sane() const { at_home(); bool ok{true}; for(auto m : more) ok &= m == static_cast<std::uint16_t>(v + 1); sx_assert(ok, "a value was overwritten in part"); }
		friend bool operator==(const wide & a, const wide & b) { a.sane(); b.sane(); return a.v == b.v; } friend bool operator!=(const wide & a, const wide & b) { return !(a == b); } friend bool operator<(const wide & a, const wide & b) { a.sane(); b.sane(); return a.v < b.v; }
		friend bool operator>(const wide & a, const wide & b) { return b < a; } friend bool operator<=(const wide & a, const wide & b) { return !(b < a); } friend bool operator>=(const wide & a, const wide & b) { return !(a < b); }
	};
	using V = ptl::variant<std::uint8_t, tracked, wide, std::uint32_t>;
	struct alt { unsigned at{0}; std::uint16_t v{0}; }; // which alternative, with what value (taken modulo 256 for the first)
	inline std::uint16_t cut(unsigned at, std::uint16_t v) { return at == 0 ? v & 0xFF : v; }
	inline std::uint16_t num(const std::uint8_t & x) { return x; } inline std::uint16_t num(const tracked & x) { sx_assert(!x.moved, "the value was moved from"); return x.get(); } inline std::uint16_t num(const wide & x) { x.sane(); return x.v; } inline std::uint16_t num(const std::uint32_t & x) { sx_assert(x < 65536, "value"); return static_cast<std::uint16_t>(x); }
	template<typename T> constexpr unsigned rank_of = std::is_same_v<T, std::uint8_t> ? 0 : std::is_same_v<T, tracked> ? 1 : std::is_same_v<T, wide> ? 2 : 3;
	inline bool registered(unsigned at) { return at == 1 || at == 2; }
	template<typename F> void with_type(unsigned at, F f) { switch(at) { case 0: f(static_cast<std::uint8_t *>(nullptr)); break; case 1: f(static_cast<tracked *>(nullptr)); break; case 2: f(static_cast<wide *>(nullptr)); break; default: f(static_cast<std::uint32_t *>(nullptr)); } }
	template<typename T> T make(std::uint16_t v) { return T(static_cast<std::conditional_t<std::is_same_v<T, std::uint8_t>, std::uint8_t, std::uint16_t>>(v)); }

	template<typename T> void check_one(const V & v, const alt & m, const char * what) {
		bool is = m.at == rank_of<T>; sx_assert(v.holds<T>() == is, what); auto p = v.get_if<T>(); sx_assert((p != nullptr) == is, what);
		if(is) { sx_assert(num(*p) == m.v, what); sx_assert(std::addressof(v.get<T>()) == p, "get and get_if designate one object"); } else { bool t{false}; try { (void)v.get<T>(); } catch(const std::bad_variant_access &) { t = true; } sx_assert(t, "get of an alternative not held"); }
	}
	inline void check(const V & v, const alt & m, const char * what) {
		check_one<std::uint8_t>(v, m, what); check_one<tracked>(v, m, what); check_one<wide>(v, m, what); check_one<std::uint32_t>(v, m, what);
		unsigned calls{0}; auto r = v.visit([&](const auto & x) -> std::uint32_t { ++calls; using T = std::decay_t<decltype(x)>; sx_assert(v.get_if<T>() == std::addressof(x), "visit designates the held object"); return rank_of<T> * 65536 + num(x); }); sx_assert(calls == 1 && r == m.at * 65536 + m.v, "visit");
	}
	inline void note(const V & v) { v.visit([](const auto & x) { sx_note("alternative", rank_of<std::decay_t<decltype(x)>>); sx_note("value", num(x)); }); }
	inline void fill(V & v, alt & m, const char * name, unsigned ways = 3) { // any alternative, reached in different ways
		m.at = static_cast<unsigned>(sx_pick("alternative", 4)); m.v = cut(m.at, sx_u16(name)); auto how = sx_pick("state", ways);
		with_type(m.at, [&](auto * p) { using T = std::remove_pointer_t<decltype(p)>; switch(how) { case 0: v.emplace<T>(make<T>(m.v)); break; case 1: v = wide{std::uint16_t{9}}; v = make<T>(m.v); break; case 2: { V t{make<T>(m.v)}; v = tracked{std::uint16_t{8}}; v = t; break; } } });
	}
}
