// BOUND: one or two variants of four alternatives (two trivial, two lifetime-registered ones, of four sizes), each holding any alternative reached in different ways, symbolic values; every operation from each such state, with every pair of alternatives; histories of 3 (thorough: 4) operations on two variants; variants of 11 alternatives of the most different kinds; a variant of 130 alternatives, every pair of 8 of them, around the first and last and around 127
// OUTSIDE: longer histories, other lists of alternatives, more than 130 of them
// NATIVEFLAGS: -O0 -g1
#include "vars.hpp"
#define SX_TYPES_APART
#include "types.hpp"
using namespace sx;

SX_HARNESS(h_construct) {
	{
		auto at = static_cast<unsigned>(sx_pick("type", 4)); auto x = cut(at, sx_u16("x")); alt m{at, x};
		with_type(at, [&](auto * p) {
			using T = std::remove_pointer_t<decltype(p)>; T val = make<T>(x); const T & c = val; bool moved{false};
			switch(sx_pick("how", 9)) {
				case 0: { V v; check(v, {0, 0}, "default"); break; } case 1: { V v{c}; check(v, m, "from a value"); break; } case 2: { V v{val}; check(v, m, "from a value"); break; } case 3: { V v{std::move(val)}; moved = true; check(v, m, "from an rvalue"); break; }
				case 4: { V v{std::in_place_type<T>, c}; check(v, m, "in place by type"); break; } case 5: { V v{std::in_place_index<rank_of<T>>, c}; check(v, m, "in place by index"); break; } case 6: { V v{std::in_place_type<T>}; check(v, {at, 0}, "in place, no arguments"); break; }
				case 7: { V v = val; check(v, m, "implicitly from a value"); break; } case 8: { V v{std::in_place_index<rank_of<T>>}; check(v, {at, 0}, "in place, no arguments"); break; }
			}
			if(!moved) sx_assert(num(val) == x, "the source changed");
		});
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_copy) {
	{
		V a; alt m; fill(a, m, "a"); const V & c = a;
		switch(sx_pick("how", 3)) {
			case 0: { V v{c}; check(v, m, "copy"); check(a, m, "source of a copy"); v.visit([](auto & x) { x = make<std::decay_t<decltype(x)>>(7); }); check(a, m, "a copy is independent"); check(v, {m.at, 7}, "write through visit"); break; }
			case 1: { V v{std::move(a)}; check(v, m, "move"); a = wide{std::uint16_t{3}}; check(a, {2, 3}, "usable after a move"); check(v, m, "move"); break; }
			case 2: { V v{a}; check(v, m, "copy of an lvalue"); check(a, m, "source of a copy"); a = std::uint8_t{1}; check(v, m, "a copy is independent"); break; }
		}
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_one) {
	{
		V v; alt m; fill(v, m, "v"); auto at = static_cast<unsigned>(sx_pick("type", 4)); auto x = cut(at, sx_u16("x")); V * r{&v};
		with_type(at, [&](auto * p) {
			using T = std::remove_pointer_t<decltype(p)>; T val = make<T>(x); const T & c = val; bool moved{false}; T * e{nullptr};
			switch(sx_pick("op", 13)) {
				case 0: r = &(v = c); m = {at, x}; break; case 1: r = &(v = std::move(val)); moved = true; m = {at, x}; break; case 2: e = &v.emplace<T>(c); m = {at, x}; break; case 3: e = &v.emplace<rank_of<T>>(c); m = {at, x}; break; case 4: e = &v.emplace<T>(); m = {at, 0}; break; case 5: e = &v.emplace<T>(std::move(val)); moved = true; m = {at, x}; break;
				case 6: { auto & a = v; r = &(v = a); break; } case 7: { auto & a = v; r = &(v = std::move(a)); break; } case 8: v.swap(v); break; case 9: swap(v, v); break; case 10: r = &(v = val); m = {at, x}; break; case 11: if(auto q = v.get_if<T>()) { r = &(v = *q); sx_reach("assigned its own value"); } break; case 12: if(auto q = v.get_if<T>()) r = &(v = std::move(*q)); break;
			}
			sx_assert(r == &v, "result"); if(e) sx_assert(e == v.get_if<T>(), "result of emplace"); if(!moved) sx_assert(num(val) == x, "the argument changed");
		});
		check(v, m, "operation on a variant"); note(v); sx_assert(sx_life_count() == (registered(m.at) ? 1u : 0u), "alive");
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_two) {
	{
		V a, b; alt m, k; fill(a, m, "a", 2); fill(b, k, "b", 2); V * r{&a}; bool moved{false};
		switch(sx_pick("op", 5)) {
			case 0: r = &(a = static_cast<const V &>(b)); m = k; break; case 1: r = &(a = std::move(b)); m = k; moved = true; break; case 2: a.swap(b); std::swap(m, k); break; case 3: swap(a, b); std::swap(m, k); break; case 4: r = &(a = b); m = k; break;
		}
		sx_assert(r == &a, "result"); check(a, m, "left variant"); if(moved) { sx_assert(b.visit([](auto & x) -> unsigned { return rank_of<std::decay_t<decltype(x)>>; }) == k.at, "a moved from variant keeps its alternative"); b = tracked{std::uint16_t{6}}; k = {1, 6}; } check(b, k, "right variant"); b = std::uint32_t{5}; check(a, m, "variants are independent"); check(b, {3, 5}, "right variant"); sx_assert(sx_life_count() == (registered(m.at) ? 1u : 0u), "alive");
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
// value category and constness that visitors and get see, visitors overloaded and combined, results of every kind
SX_HARNESS(h_visit) {
	{
		V v; alt m; fill(v, m, "v", 1); const V & c = v; unsigned calls{0};
		auto kind = [&](auto && x) -> unsigned { ++calls; using X = decltype(x); sx_assert(num(x) == m.v, "visited value"); return (std::is_lvalue_reference_v<X> ? 0 : 1) + (std::is_const_v<std::remove_reference_t<X>> ? 2 : 0) + 4 * rank_of<std::decay_t<X>>; };
		switch(sx_pick("how", 8)) {
			case 0: sx_assert(v.visit(kind) == 4 * m.at, "visiting an lvalue"); break; case 1: sx_assert(c.visit(kind) == 2 + 4 * m.at, "visiting a const lvalue"); break; case 2: sx_assert(std::move(v).visit(kind) == 1 + 4 * m.at, "visiting an rvalue"); break; case 3: sx_assert(std::move(c).visit(kind) == 3 + 4 * m.at, "visiting a const rvalue"); break;
			case 4: { auto r = v.visit([&](std::uint8_t & x) { ++calls; return x + 0u; }, [&](tracked & x) { ++calls; return 1000u + x.get(); }, [&](wide & x) { ++calls; return 100000u + x.v; }, [&](std::uint32_t & x) { ++calls; return 200000u + x; }); unsigned base[]{0, 1000, 100000, 200000}; sx_assert(r == base[m.at] + m.v, "several visitors"); break; }
			case 5: { void * p = v.visit([&](auto & x) -> void * { ++calls; return std::addressof(x); }); void * q{nullptr}; with_type(m.at, [&](auto * t) { q = v.get_if<std::remove_pointer_t<decltype(t)>>(); }); sx_assert(p == q, "visit designates the held object"); break; }
			case 6: { v.visit([&](auto & x) { ++calls; x = make<std::decay_t<decltype(x)>>(21); }); check(v, {m.at, 21}, "write through visit"); m.v = 21; break; }
			case 7: { struct counter { unsigned n{0}; void operator()(std::uint8_t) { n += 1; } void operator()(const tracked &) { n += 10; } void operator()(const wide &) { n += 100; } void operator()(std::uint32_t) { n += 1000; } } k; c.visit(k); unsigned n[]{1, 10, 100, 1000}; sx_assert(k.n == n[m.at], "the visitor itself is called, once"); ++calls; break; }
		}
		sx_assert(calls == 1, "the visitor is called exactly once"); check(v, m, "visiting");
		with_type(m.at, [&](auto * t) { using T = std::remove_pointer_t<decltype(t)>; static_assert(std::is_same_v<decltype(v.get<T>()), T &> && std::is_same_v<decltype(c.get<T>()), const T &> && std::is_same_v<decltype(std::move(v).template get<T>()), T &&> && std::is_same_v<decltype(std::move(c).template get<T>()), const T &&>); T && r = std::move(v).template get<T>(); const T && s = std::move(c).template get<T>(); sx_assert(std::addressof(r) == v.get_if<T>() && std::addressof(s) == c.get_if<T>(), "rvalue get"); v.get<T>() = make<T>(33); check(v, {m.at, 33}, "write through get"); *v.get_if<T>() = make<T>(34); check(v, {m.at, 34}, "write through get_if"); });
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_history) {
	{
		V o[2]; alt s[2];
		for(unsigned i{0}; i < (SX_THOROUGH ? 4u : 3u); ++i) {
			auto w = sx_pick("which", 2); auto & a = o[w]; auto & b = o[1 - w]; auto & x = s[w]; auto & y = s[1 - w]; auto k = static_cast<std::uint16_t>(10 + i);
			switch(sx_pick("op", 9)) {
				case 0: a = static_cast<std::uint8_t>(k); x = {0, k}; break; case 1: a = tracked{k}; x = {1, k}; break; case 2: a.emplace<wide>(k); x = {2, k}; break; case 3: a.emplace<std::uint32_t>(k); x = {3, k}; break; case 4: { wide t{k}; a = t; x = {2, k}; break; }
				case 5: a = static_cast<const V &>(b); x = y; break; case 6: { a = std::move(b); x = y; b.emplace<tracked>(k); y = {1, k}; break; } case 7: a.swap(b); std::swap(x, y); break; case 8: { V t{a}; b = std::move(t); y = x; break; }
			}
			for(int j{0}; j < 2; ++j) check(o[j], s[j], "history"); sx_assert(sx_life_count() == std::size_t(registered(s[0].at) + registered(s[1].at)), "history: alive");
		}
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}

// alternatives of many kinds
using K = ptl::variant<std::uint8_t, bool, double, int *, ty::wide, ty::owner, ptl::string, ptl::vector<std::uint8_t>, ty::empty, ty::colour, signed char>;
template<typename T> static void k_is(const K & v, std::uint8_t x, const char * what) {
	auto p = v.get_if<T>(); sx_assert(p != nullptr && v.holds<T>(), what); sx_assert(ty::is(*p, x), what); unsigned n{0}; (void)n;
	sx_assert(v.visit([&](const auto & y) { return std::is_same_v<std::decay_t<decltype(y)>, T> && static_cast<const void *>(std::addressof(y)) == p; }), what);
	sx_assert(v.holds<std::uint8_t>() + v.holds<bool>() + v.holds<double>() + v.holds<int *>() + v.holds<ty::wide>() + v.holds<ty::owner>() + v.holds<ptl::string>() + v.holds<ptl::vector<std::uint8_t>>() + v.holds<ty::empty>() + v.holds<ty::colour>() + v.holds<signed char>() == 1, what);
}
SX_HARNESS(h_types) {
	{
		ty::each_basic_type([](auto t) {
			using T = decltype(t); auto x = ty::value<T>("x", 1); T a = ty::make<T>(x); K v{a}; k_is<T>(v, x, "from a value"); sx_assert(ty::is(a, x), "the source changed");
			ty::each_basic_type([&](auto u) {
				using U = decltype(u); auto y = ty::value<U>("y", 2); U b = ty::make<U>(y); K w{std::in_place_type<U>, static_cast<const U &>(b)}; k_is<U>(w, y, "in place"); K * r{&v};
				switch(sx_pick("op", 7)) {
					case 0: r = &(v = b); k_is<U>(v, y, "assigned"); break; case 1: sx_assert(std::addressof(v.emplace<U>(static_cast<const U &>(b))) == v.get_if<U>(), "result of emplace"); k_is<U>(v, y, "emplaced"); break; case 2: r = &(v = static_cast<const K &>(w)); k_is<U>(v, y, "copied"); break; case 3: r = &(v = K{w}); k_is<U>(v, y, "moved"); break;
					case 4: v.swap(w); k_is<U>(v, y, "swapped"); k_is<T>(w, x, "swapped"); v.swap(w); k_is<T>(v, x, "swapped back"); break; case 5: { K c{v}; v = std::move(w); k_is<U>(v, y, "moved"); w = c; k_is<T>(w, x, "copied"); w = b; break; } case 6: { r = &(v = ty::make<U>(y)); k_is<U>(v, y, "assigned"); break; }
				}
				sx_assert(r == &v, "result"); k_is<U>(w, y, "other variant"); sx_assert(ty::is(b, y), "the argument changed"); if constexpr(!std::is_same_v<U, T>) { bool th{false}; w = static_cast<const T &>(a); k_is<T>(w, x, "assigned"); try { (void)w.template get<U>(); } catch(const std::bad_variant_access &) { th = true; } sx_assert(th, "get of an alternative not held"); }
			});
		});
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
// more alternatives than a signed byte counts; number I has a value of I % 4 + 1 bytes
template<std::size_t I> struct nth { std::uint8_t v[I % 4 + 1]; nth() : v{} {} explicit nth(std::uint32_t x) { for(std::size_t i{0}; i <= I % 4; ++i) v[i] = static_cast<std::uint8_t>(x >> 8 * i); } };
constexpr std::size_t most{130};
struct inspector { std::uint32_t & x; template<std::size_t I> std::size_t operator()(const nth<I> & n) const { x = 0; for(std::size_t i{0}; i <= I % 4; ++i) x |= std::uint32_t{n.v[i]} << 8 * i; return I; } };
constexpr std::uint32_t mask(std::size_t i) { return i % 4 == 3 ? 0xFFFFFFFFu : (1u << 8 * (i % 4 + 1)) - 1; }
template<typename> struct most_of; template<std::size_t... I> struct most_of<std::index_sequence<I...>> { using type = ptl::variant<nth<I>...>; };
using M = most_of<std::make_index_sequence<most>>::type;
template<typename F> static void with_nth(std::size_t k, F f) { switch(k) { case 0: f(nth<0>{}); break; case 1: f(nth<1>{}); break; case 2: f(nth<15>{}); break; case 3: f(nth<16>{}); break; case 4: f(nth<126>{}); break; case 5: f(nth<127>{}); break; case 6: f(nth<128>{}); break; case 7: f(nth<129>{}); break; } }
static const std::size_t m_index[]{0, 1, 15, 16, 126, 127, 128, 129};
static M m_make(std::size_t k, std::uint32_t x) { M v; with_nth(k, [&](auto t) { v = decltype(t){x}; }); return v; }
static void m_is(const M & v, std::size_t k, std::uint32_t x, const char * what) {
	std::uint32_t r{0}; sx_assert(v.visit(inspector{r}) == m_index[k] && r == (x & mask(m_index[k])), what);
	for(std::size_t i{0}; i < 8; ++i) with_nth(i, [&](auto t) { using T = decltype(t); sx_assert(v.holds<T>() == (i == k), what); auto p = v.get_if<T>(); sx_assert((p != nullptr) == (i == k), what); bool th{false}; try { auto & e = v.get<T>(); sx_assert(&e == p && inspector{r}(e) == m_index[k] && r == (x & mask(m_index[k])), what); } catch(const std::bad_variant_access &) { th = true; } sx_assert(th == (i != k), "get"); });
}
SX_HARNESS(h_many_alternatives) {
	auto i = sx_pick("first", 8); auto j = sx_pick("second", 8); auto x = sx_u32("x"); auto y = sx_u32("y"); M a = m_make(i, x), b = m_make(j, y); m_is(a, i, x, "from a value"); m_is(b, j, y, "from a value");
	switch(sx_pick("op", 6)) {
		case 0: a = static_cast<const M &>(b); m_is(a, j, y, "copied"); m_is(b, j, y, "source"); break; case 1: a = std::move(b); m_is(a, j, y, "moved"); break; case 2: a.swap(b); m_is(a, j, y, "swapped"); m_is(b, i, x, "swapped"); break; case 3: with_nth(j, [&](auto t) { a.emplace<decltype(t)>(y); }); m_is(a, j, y, "emplaced"); break; case 4: { M c{a}; m_is(c, i, x, "copy"); M d{std::move(c)}; m_is(d, i, x, "move"); break; }
		case 5: { M c{std::in_place_index<129>, x}; m_is(c, 7, x, "in place"); c.emplace<128>(y); m_is(c, 6, y, "emplaced by index"); swap(c, a); m_is(a, 6, y, "swapped"); m_is(c, i, x, "swapped"); break; }
	}
	sx_reach("end");
}
// what values compare like plays no role when they are exchanged or assigned
SX_HARNESS(h_alike) {
	using P = partial<0>; using Q = ptl::variant<P, std::uint32_t>; P::rel = static_cast<std::uint8_t>(sx_range("relation", 0, 4)); Q a{P{1}}, b{P{2}}; const Q c{P{2}}; P v{2}; auto who = [](const Q & q) { int r{-1}; q.visit([&](const P & p) { r = p.who; }, [](const std::uint32_t &) {}); return r; };
	switch(sx_pick("op", 7)) { case 0: a.swap(b); sx_assert(who(a) == 2 && who(b) == 1, "swap"); break; case 1: a = c; sx_assert(who(a) == 2 && who(c) == 2, "copy"); break; case 2: a = std::move(b); sx_assert(who(a) == 2, "move"); break; case 3: a = std::as_const(v); sx_assert(who(a) == 2, "value"); break; case 4: a = P{2}; sx_assert(who(a) == 2, "value"); break; case 5: a.emplace<P>(v); sx_assert(who(a) == 2, "emplace"); break; case 6: { Q d{c}, e{std::move(a)}; sx_assert(who(d) == 2 && who(e) == 1, "construct"); } break; }
	sx_reach("end");
}
