// Harness interface: implemented by the symbolic executor (engine/exec.cpp) and, for replay against the real build, by rt.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <new>
#include <utility>
#include <functional>
#include <iterator>
#include <algorithm>
#include <numeric>
#include <tuple>
#include <memory>
#include <type_traits>
#include <initializer_list>
#include <stdexcept>
#include <string_view>
#include <array>
#include <optional>
#include <variant>

#ifndef SX_THOROUGH
#define SX_THOROUGH 0
#endif

#ifndef SX_REDUCED // smaller bounds for code that got more expensive to explore
#define SX_REDUCED 0
#endif

extern "C" {
	std::uint8_t sx_u8(const char * name);
	std::uint16_t sx_u16(const char * name);
	std::uint32_t sx_u32(const char * name);
	std::uint64_t sx_u64(const char * name);
	std::uint64_t sx_range(const char * name, std::uint64_t lo, std::uint64_t hi); // symbolic, lo..hi inclusive
	std::uint64_t sx_pick(const char * name, std::uint64_t n);                     // one path per value 0..n-1
	void sx_bytes(void * p, std::uint64_t n, const char * name);                   // n unconstrained bytes
	void sx_assume(bool c);
	void sx_assert(bool c, const char * msg);
	[[noreturn]] void sx_fail(const char * msg);
	std::uint64_t sx_concretize(std::uint64_t v);
	void sx_reach(const char * label);
	std::uint64_t sx_heap_live();
	void sx_alloc_fail(std::uint64_t budget);                                      // up to budget allocations may fail from here on
	void sx_life_ctor(const void * p);
	void sx_life_dtor(const void * p);
	void sx_life_check(const void * p);
	std::uint64_t sx_life_count();
	void sx_note(const char * name, std::uint64_t v);                              // observed value, compared when traces are replayed
	void sx_noleak();
	void sx_shared(bool on);                                                       // everything on the heap now, and static data, may be in use by other threads: writing it is a race
	void sx_shared_run(void (*f)(void *), void * p);
}
#define SX_HARNESS(name) extern "C" void name()

namespace sx {
	template<std::size_t N, typename T, typename F> void times(T n, F f) { for(T i{0}; i < n; ++i) f(i); }
	inline bool all(bool x) { return x; }
	// one of the listed sizes, chosen on its own path
	inline std::size_t one_of(const char * name, std::initializer_list<std::size_t> l) { return l.begin()[sx_pick(name, l.size())]; }

	template<typename F> void shared(F f) { // f only reads
#if SX_NATIVE
		sx_shared_run([](void * p) { (*static_cast<F *>(p))(); }, &f);
#else
		sx_shared(true); f(); sx_shared(false);
#endif
	}

	enum class Thrown { none, length, range, alloc, user, other };
	struct user_error { int code; };
	template<typename F> Thrown outcome(F f) {
		try { f(); return Thrown::none; }
		catch(const std::length_error &) { return Thrown::length; }
		catch(const std::out_of_range &) { return Thrown::range; }
		catch(const std::bad_alloc &) { return Thrown::alloc; }
		catch(const user_error &) { return Thrown::user; }
	}

	// Element whose lifetime is registered: every construction, destruction and use is checked against the registry.
	// A chosen copy (or any operation counted by `fuse`) may throw.
	struct fuse_t { int copies{-1}; int moves{-1}; int defaults{-1}; }; // operations left before one throws; negative: never
	inline fuse_t fuse;
	inline void burn(int & f) { if(f >= 0 && f-- == 0) throw user_error{1}; }
	struct counts_t { unsigned copies, moves, copy_assigns, move_assigns, dtors, ctors; };
#ifdef SX_TSAN
	inline thread_local counts_t counts; // not part of what is examined
#else
	inline counts_t counts;
#endif
	template<bool NoexceptMove> struct tracked_t {
		std::uint16_t v; bool moved; unsigned char me[sizeof(void *)]; // its own address: nobody may move its bytes about
		void born() { const void * p = this; std::memcpy(me, &p, sizeof(p)); sx_life_ctor(this); } void here() const { sx_life_check(this); const void * p; std::memcpy(&p, me, sizeof(p)); sx_assert(p == this, "an object was relocated without its own operations"); }
		tracked_t() : v{0}, moved{false} { burn(fuse.defaults); ++counts.ctors; born(); }
		tracked_t(std::uint16_t x) : v{x}, moved{false} { burn(fuse.defaults); ++counts.ctors; born(); }
		tracked_t(std::uint16_t x, std::uint16_t y) : v{(std::uint16_t)(x ^ y)}, moved{false} { burn(fuse.defaults); ++counts.ctors; born(); }
		tracked_t(const tracked_t & o) : v{o.v}, moved{false} { o.here(); burn(fuse.copies); ++counts.copies; born(); }
		tracked_t(tracked_t && o) noexcept(NoexceptMove) : v{o.v}, moved{o.moved} { o.here(); if(!NoexceptMove) burn(fuse.moves); ++counts.moves; o.v = 0xDEAD; o.moved = true; born(); }
		tracked_t & operator=(const tracked_t & o) { here(); o.here(); if(fuse.copies == 0) v = 0xFA11; burn(fuse.copies); ++counts.copy_assigns; v = o.v; moved = false; return *this; }
		tracked_t & operator=(tracked_t && o) noexcept(NoexceptMove) { here(); o.here(); if(!NoexceptMove) burn(fuse.moves); ++counts.move_assigns; auto t = o.v; auto m = o.moved; o.v = 0xDEAD; o.moved = true; v = t; moved = m; if(this == &o) { v = 0xDEAD; moved = true; } return *this; }
		~tracked_t() { here(); sx_life_dtor(this); ++counts.dtors; v = 0xBEEF; }
		friend bool operator==(const tracked_t & a, const tracked_t & b) { a.here(); b.here(); return a.v == b.v; }
		friend bool operator!=(const tracked_t & a, const tracked_t & b) { return !(a == b); }
		friend bool operator<(const tracked_t & a, const tracked_t & b) { a.here(); b.here(); return a.v < b.v; }
		std::uint16_t get() const { here(); return v; }
	};
	using tracked = tracked_t<true>;
	using tracked_throwing = tracked_t<false>;
}
