// BOUND: arrays of 1 to 5 elements and nested arrays, tuples of up to 4 elements (1 to 3 of them with registered lifetime); the first to last copy, default construction or none failing; contents symbolic; sequences of 3 of 7 operations on two arrays and two tuples
// OUTSIDE: more elements; elements whose moves or destruction throw (rejected by static_assert)
#include "sx.hpp"
#include "ptl/array.hpp"
#include "ptl/tuple.hpp"
#include "ptl/string.hpp"
#include "ptl/optional.hpp"
using namespace sx; using ptl::array; using ptl::tuple;

template<std::size_t N> using arr = array<tracked, N>;
static void arm(int n) { auto k = sx_pick("fail", static_cast<std::uint64_t>(n) + 1); fuse.copies = k == static_cast<std::uint64_t>(n) ? -1 : static_cast<int>(k); }
template<std::size_t N> static bool all_alive(const arr<N> & a) { for(auto & x : a) sx_life_check(&x); return true; }
template<std::size_t N, std::size_t... I> static arr<N> make(std::uint16_t x, std::index_sequence<I...>) { return arr<N>{tracked{static_cast<std::uint16_t>(x + I)}...}; }
template<std::size_t N> static arr<N> make(std::uint16_t x) { return make<N>(x, std::make_index_sequence<N>{}); }
template<std::size_t N> static bool holds(const arr<N> & a, std::uint16_t x) { bool r{true}; for(std::size_t i{0}; i < N; ++i) r &= a[i].get() == static_cast<std::uint16_t>(x + i) && !a[i].moved; return r; }
template<std::size_t N, std::size_t... I> static Thrown from_lvalues(const tracked (&v)[N], std::uint16_t x, std::index_sequence<I...>) { return outcome([&] { arr<N> b{v[I]...}; sx_assert(holds(b, x), "constructed from lvalues"); sx_assert(sx_life_count() == 2 * N, "alive"); }); }
template<std::size_t N> static void arrays() {
	auto x = sx_u16("x"), y = sx_u16("y");
	switch(sx_pick("op", 8)) {
		case 0: { auto a = make<N>(x); auto live = sx_life_count(); arm(N); bool armed = fuse.copies >= 0; auto t = outcome([&] { arr<N> b{std::as_const(a)}; sx_assert(holds(b, x), "copy"); sx_assert(sx_life_count() == live + N, "alive"); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == live && holds(a, x), "source of a copy"); break; }
		case 1: { auto a = make<N>(x); auto b = make<N>(y); arm(N); bool armed = fuse.copies >= 0; auto t = outcome([&] { auto & r = (b = std::as_const(a)); sx_assert(&r == &b, "result"); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == 2 * N && all_alive(b) && holds(a, x), "alive"); sx_assert(armed || holds(b, x), "assignment"); b = a; sx_assert(holds(b, x), "usable"); break; }
		case 2: { auto a = make<N>(x); tracked v{y}; arm(N); bool armed = fuse.copies >= 0; auto t = outcome([&] { a.fill(v); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == N + 1 && all_alive(a) && v.get() == y, "alive"); if(!armed) for(auto & e : a) sx_assert(e.get() == y, "fill"); a = make<N>(y); sx_assert(holds(a, y), "usable"); break; }
		case 3: { auto k = sx_pick("fail", N + 1); fuse.defaults = k == N ? -1 : static_cast<int>(k); auto t = outcome([&] { arr<N> a; sx_assert(sx_life_count() == N, "alive"); for(auto & e : a) sx_assert(e.get() == 0, "default"); }); fuse.defaults = -1; sx_assert(t == (k < N ? Thrown::user : Thrown::none), "a failing construction is reported"); break; }
		case 4: { tracked v[N]; for(std::size_t i{0}; i < N; ++i) v[i] = tracked{static_cast<std::uint16_t>(x + i)}; arm(N); bool armed = fuse.copies >= 0; auto t = from_lvalues<N>(v, x, std::make_index_sequence<N>{}); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == N && v[0].get() == x, "alive"); break; }
		case 5: { auto a = make<N>(x); auto b = make<N>(y); a.swap(b); swap(a, a); sx_assert(holds(a, y) && holds(b, x) && sx_life_count() == 2 * N, "swap"); auto c{std::move(a)}; sx_assert(sx_life_count() == 3 * N && all_alive(a) && holds(c, y), "move"); a = std::move(c); sx_assert(holds(a, y) && all_alive(c), "move"); break; }
		case 6: { tracked v{x}; arm(1); bool armed = fuse.copies >= 0; auto t = outcome([&] { arr<N> a{v}; sx_assert(a[0].get() == x && sx_life_count() == N + 1, "first of the elements"); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == 1, "alive"); break; }
		case 7: { using nest = array<arr<N>, 2>; nest a{make<N>(x), make<N>(y)}; arm(2 * N); bool armed = fuse.copies >= 0; auto t = outcome([&] { nest b{std::as_const(a)}; sx_assert(holds(b[0], x) && holds(b[1], y), "copy of arrays of arrays"); swap(b[0], b[1]); sx_assert(holds(b[0], y), "swap"); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == 2 * N && holds(a[0], x) && holds(a[1], y), "source of a copy"); break; }
	}
	sx_note("x", x);
}
SX_HARNESS(h_array) { switch(sx_pick("size", 4)) { case 0: arrays<1>(); break; case 1: arrays<2>(); break; case 2: arrays<3>(); break; case 3: arrays<5>(); break; } sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end"); }

using T3 = tuple<tracked, std::uint8_t, tracked, tracked>;
static T3 mk(std::uint16_t x) { return T3{tracked{x}, static_cast<std::uint8_t>(x), tracked{static_cast<std::uint16_t>(x + 1)}, tracked{static_cast<std::uint16_t>(x + 2)}}; }
static bool is(const T3 & t, std::uint16_t x) { return t.get<0>().get() == x && t.get<1>() == static_cast<std::uint8_t>(x) && t.get<2>().get() == static_cast<std::uint16_t>(x + 1) && t.get<3>().get() == static_cast<std::uint16_t>(x + 2) && !t.get<0>().moved && !t.get<2>().moved && !t.get<3>().moved; }
static bool alive(const T3 & t) { sx_life_check(&t.get<0>()); sx_life_check(&t.get<2>()); sx_life_check(&t.get<3>()); return true; }
SX_HARNESS(h_tuple) {
	{
		auto x = sx_u16("x"), y = sx_u16("y");
		switch(sx_pick("op", 7)) {
			case 5: { auto k = sx_pick("fail", 4); fuse.defaults = k == 3 ? -1 : static_cast<int>(k); auto t = outcome([&] { T3 a; sx_assert(sx_life_count() == 3 && alive(a) && a.get<0>().get() == 0 && a.get<1>() == 0, "default"); }); fuse.defaults = -1; sx_assert(t == (k < 3 ? Thrown::user : Thrown::none), "a failing construction is reported"); sx_assert(sx_life_count() == 0, "alive"); break; }
			case 6: { tuple<tracked> a{tracked{x}}; arm(1); bool armed = fuse.copies >= 0; auto t = outcome([&] { auto b{a}; sx_assert(b.get<0>().get() == x && sx_life_count() == 2, "copy"); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == 1 && a.get<0>().get() == x, "source of a copy"); break; }
			case 0: { auto a = mk(x); arm(3); bool armed = fuse.copies >= 0; auto t = outcome([&] { T3 b{std::as_const(a)}; sx_assert(is(b, x) && sx_life_count() == 6, "copy"); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == 3 && is(a, x), "source of a copy"); break; }
			case 1: { auto a = mk(x), b = mk(y); arm(3); bool armed = fuse.copies >= 0; auto t = outcome([&] { b = std::as_const(a); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == 6 && is(a, x) && alive(b), "alive"); sx_assert(armed || is(b, x), "assignment"); b = a; sx_assert(is(b, x), "usable"); break; }
			case 2: { tracked u{x}, v{static_cast<std::uint16_t>(x + 1)}, w{static_cast<std::uint16_t>(x + 2)}; std::uint8_t n{static_cast<std::uint8_t>(x)}; arm(3); bool armed = fuse.copies >= 0; auto t = outcome([&] { T3 b{u, n, std::as_const(v), w}; sx_assert(is(b, x) && sx_life_count() == 6, "constructed from lvalues"); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == 3 && u.get() == x && !u.moved, "alive"); break; }
			case 3: { auto a = mk(x), b = mk(y); a.swap(b); swap(b, b); sx_assert(is(a, y) && is(b, x) && sx_life_count() == 6, "swap"); auto c{std::move(a)}; sx_assert(is(c, y) && alive(a) && sx_life_count() == 9, "move"); a = std::move(c); sx_assert(is(a, y) && alive(c), "move"); break; }
			case 4: { using U = tuple<ptl::string, tracked, ptl::optional<tracked>>; std::uint16_t z{static_cast<std::uint16_t>(x + 1)}; U a{ptl::string{std::string_view{"characters that do not fit in place"}}, tracked{x}, ptl::optional<tracked>{tracked{z}}}; auto heap = sx_heap_live(); arm(2); bool armed = fuse.copies >= 0; auto t = outcome([&] { U b{std::as_const(a)}; sx_assert(b == a && b.get<2>()->get() == z, "copy"); }); fuse.copies = -1; sx_assert(t == (armed ? Thrown::user : Thrown::none), "a failing copy is reported"); sx_assert(sx_life_count() == 2 && sx_heap_live() == heap && a.get<1>().get() == x, "source of a copy"); break; }
		}
		sx_note("x", x);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end");
}
// several operations in a row, each of which may fail
SX_HARNESS(h_sequences) {
	{
		using A = arr<2>; using T = tuple<std::uint8_t, tracked, tracked>; A a{tracked{1}, tracked{2}}, b{tracked{3}, tracked{4}}; T t{std::uint8_t(1), tracked{5}, tracked{6}}, u{std::uint8_t(2), tracked{7}, tracked{8}}; auto fail = sx_pick("fail", 6); fuse.copies = fail == 5 ? -1 : static_cast<int>(fail); tracked v{9};
		for(int i{0}; i < (SX_REDUCED ? 2 : SX_THOROUGH ? 4 : 3); ++i) {
			auto op = sx_pick("op", 7); auto r = outcome([&] { switch(op) { case 0: a = b; break; case 1: swap(a, b); break; case 2: a.fill(v); break; case 3: { A c{a}; b = std::move(c); break; } case 4: t = u; break; case 5: { swap(t, u); break; } case 6: { T c{u}; t = std::move(c); a[0] = c.get<1>(); a[1] = u.get<2>(); break; } } });
			sx_assert(r == Thrown::none || r == Thrown::user, "outcome"); sx_assert(sx_life_count() == 9, "alive"); all_alive(a); all_alive(b); sx_life_check(&t.get<1>()); sx_life_check(&t.get<2>()); sx_life_check(&u.get<1>()); sx_life_check(&u.get<2>());
		}
		fuse.copies = -1; a = b; t = u; sx_assert(a == b && t == u, "usable"); sx_note("a", a[0].get());
	}
	sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end");
}
