// BOUND: arrays of 0, 1, 2, 3, 5 and 12 elements of four types (two integers, a class with registered lifetime, a nested array), constructed from 0 to all elements, every element symbolic, at() with every 64-bit index; arrays of 5 elements of 11 further types; arrays of 128, 256, 300, 1000 and 65537 elements with symbolic elements at the ends and in between; tuples of 0 to 4 elements of integers, a class with registered lifetime and partially ordered values whose relations the solver chooses; arguments that are rvalues, lvalues, const lvalues or of another, convertible type
// OUTSIDE: other sizes and element types
#include "types.hpp"
#include <memory>
#include "ptl/array.hpp"
#include "ptl/tuple.hpp"
#include "ptl/string.hpp"
using namespace sx; using ptl::array; using ptl::tuple; using std::get;

using inner = array<std::uint8_t, 2>;
template<typename T> static T mk(std::uint16_t x) { if constexpr(std::is_same_v<T, inner>) return inner{static_cast<std::uint8_t>(x), static_cast<std::uint8_t>(x >> 8)}; else return T(x); }
static std::uint16_t rd(const inner & x) { return static_cast<std::uint16_t>(x[0] | x[1] << 8); } template<typename T> static std::uint16_t rd(const T & x) { if constexpr(is_tracked<T>) sx_assert(!x.moved, "an element was moved from"); return val(x); }
template<typename T, std::size_t N, std::size_t... I> static void gets(array<T, N> & a, const std::uint16_t * m, std::index_sequence<I...>) {
	const auto & c = a; (void)c; bool ok{true}; ((ok &= std::addressof(get<I>(a)) == a.data() + I), ...); ((ok &= std::addressof(get<I>(c)) == a.data() + I), ...); ((ok &= rd(get<I>(c)) == m[I]), ...); sx_assert(ok, "get");
	auto where = [](auto && r) { return std::addressof(r); }; (void)where; ((ok &= where(get<I>(std::move(a))) == a.data() + I), ...); ((ok &= where(get<I>(std::move(c))) == a.data() + I), ...); sx_assert(ok, "get from an rvalue");
	static_assert((std::is_same_v<decltype(get<I>(a)), T &> && ...) && (std::is_same_v<decltype(get<I>(c)), const T &> && ...) && (std::is_same_v<decltype(get<I>(std::move(a))), T &&> && ...) && (std::is_same_v<decltype(get<I>(std::move(c))), const T &&> && ...));
}
template<typename T, std::size_t N> static void check(array<T, N> & a, const std::uint16_t * m, const char * what) {
	const auto & c = a; sx_assert(a.size() == N && c.max_size() == N && c.empty() == (N == 0), "size"); static_assert(std::tuple_size<array<T, N>>::value == N);
	for(std::size_t i{0}; i < N; ++i) { sx_assert(rd(a[i]) == m[i] && rd(c[i]) == m[i], what); sx_assert(std::addressof(a[i]) == a.data() + i && std::addressof(c[i]) == c.data() + i && c.data() == a.data(), "elements are contiguous"); }
	std::size_t i{0}; for(auto & x : a) { sx_assert(std::addressof(x) == a.data() + i, "iteration"); ++i; } sx_assert(i == N, "iteration"); i = 0; for(auto it{c.cbegin()}; it != c.cend(); ++it, ++i) sx_assert(i < N && rd(*it) == m[i], "const iteration"); sx_assert(i == N, "const iteration"); i = 0; for(auto it{c.begin()}; it != c.end(); ++it, ++i) sx_assert(i < N && rd(*it) == m[i], "const iteration"); sx_assert(i == N, "const iteration");
	i = N; for(auto it{a.rbegin()}; it != a.rend(); ++it) { sx_assert(i > 0 && std::addressof(*it) == a.data() + i - 1, "reverse iteration"); --i; } sx_assert(i == 0, "reverse iteration"); i = N; for(auto it{c.rbegin()}; it != c.rend(); ++it) { sx_assert(i > 0 && rd(*it) == m[i - 1], "reverse iteration"); --i; } sx_assert(i == 0, "reverse iteration"); i = N; for(auto it{c.crbegin()}; it != c.crend(); ++it) { sx_assert(i > 0 && rd(*it) == m[i - 1], "reverse iteration"); --i; } sx_assert(i == 0, "reverse iteration");
	if constexpr(N > 0) { sx_assert(std::addressof(a.front()) == a.data() && std::addressof(c.front()) == a.data() && std::addressof(a.back()) == a.data() + N - 1 && std::addressof(c.back()) == a.data() + N - 1, "front and back"); gets(a, m, std::make_index_sequence<N>{}); }
	if constexpr(is_tracked<T>) for(std::size_t j{0}; j < N; ++j) sx_life_check(a.data() + j);
}
template<typename T, std::size_t N, std::size_t... I> static array<T, N> build(const std::uint16_t * m, std::index_sequence<I...>) { return array<T, N>{mk<T>(m[I])...}; }
template<typename T, std::size_t N, std::size_t... I> static array<T, N> build_const(const std::uint16_t * m, std::index_sequence<I...>) { const T v[]{mk<T>(m[I])...}; return array<T, N>{v[I]...}; }
template<std::size_t N> static void values(std::uint16_t (&m)[N + 1], const char * name) { sx_bytes(m, 2 * N, name); m[N] = 0; }
template<typename T, std::size_t N> static void construct() { // fewer arguments than elements: the others are value-initialised
	std::uint16_t m[N + 1]; values<N>(m, "m"); constexpr std::size_t half{(N + 1) / 2}, few{N ? N - 1 : 0};
	switch(sx_pick("how", 6)) {
		case 0: { auto a = build<T, N>(m, std::make_index_sequence<N>{}); check(a, m, "from rvalues"); break; } case 1: { for(auto i{half}; i < N; ++i) m[i] = 0; auto a = build<T, N>(m, std::make_index_sequence<half>{}); check(a, m, "from some"); break; } case 2: { for(auto & x : m) x = 0; array<T, N> a; check(a, m, "default"); break; }
		case 3: { for(auto i{few}; i < N; ++i) m[i] = 0; auto a = build<T, N>(m, std::make_index_sequence<few>{}); check(a, m, "all but one"); break; } case 4: { if constexpr(N > 0) { auto a = build_const<T, N>(m, std::make_index_sequence<N>{}); check(a, m, "from const lvalues"); } break; } case 5: { for(auto & x : m) x = 0; array<T, N> a{}; check(a, m, "default"); break; }
	}
}
template<typename T, std::size_t N> static void modify() {
	std::uint16_t m[N + 1], k[N + 1]; values<N>(m, "m"); values<N>(k, "k"); auto a = build<T, N>(m, std::make_index_sequence<N>{}); auto b = build<T, N>(k, std::make_index_sequence<N>{}); const auto & c = b; auto x = sx_u16("x");
	switch(sx_pick("op", 10)) {
		case 0: { auto t{c}; check(t, k, "copy"); t.fill(mk<T>(1)); break; } case 1: { auto p = &(a = c); sx_assert(p == &a, "result"); std::memcpy(m, k, 2 * N); break; } case 2: { auto t{b}; auto u{std::move(t)}; check(u, k, "move"); t = u; check(t, k, "usable after a move"); break; } case 3: { auto t{b}; a = std::move(t); std::memcpy(m, k, 2 * N); break; }
		case 4: { auto v = mk<T>(x); a.fill(v); for(std::size_t i{0}; i < N; ++i) m[i] = rd(v); break; } case 5: a.swap(b); for(std::size_t i{0}; i < N; ++i) std::swap(m[i], k[i]); break; case 6: swap(a, b); for(std::size_t i{0}; i < N; ++i) std::swap(m[i], k[i]); break; case 7: a.swap(a); break; case 8: { auto & s = a; a = s; break; }
		case 9: { if constexpr(N > 0) { auto i = sx_pick("i", N); auto v = mk<T>(x); switch(sx_pick("through", 6)) { case 0: a[i] = v; break; case 1: a.at(i) = v; break; case 2: a.begin()[static_cast<std::ptrdiff_t>(i)] = v; break; case 3: *(a.rend() - 1 - static_cast<std::ptrdiff_t>(i)) = v; break; case 4: a.data()[i] = v; break; case 5: i = N - 1; a.back() = v; break; } m[i] = rd(v); } break; }
	}
	check(a, m, "modified"); check(b, k, "other"); if(N) sx_note("front", m[0]);
	if constexpr(N > 0) { a[N - 1] = mk<T>(9); check(b, k, "arrays are independent"); if constexpr(is_tracked<T>) sx_assert(sx_life_count() == 2 * N, "alive"); }
}
template<typename T, std::size_t N> static void at() {
	std::uint16_t m[N + 1]; values<N>(m, "m"); auto a = build<T, N>(m, std::make_index_sequence<N>{}); const auto & c = a; auto i = sx_u64("index"); T * p{nullptr}; const T * q{nullptr}; bool s = sx_pick("const", 2);
	auto t = outcome([&] { if(s) q = std::addressof(c.at(i)); else p = std::addressof(a.at(i)); }); if(i < N) { sx_assert(t == Thrown::none, "at within the size"); sx_assert(s ? q == a.data() + i : p == a.data() + i, "at"); if(N) sx_reach("within"); } else { sx_assert(t == Thrown::range, "at beyond the size"); sx_reach("beyond"); } sx_note("i", i); check(a, m, "at modifies nothing");
}
template<typename F> static void sized(F f) { switch(sx_pick("size", 6)) { case 0: f(std::integral_constant<std::size_t, 0>{}); break; case 1: f(std::integral_constant<std::size_t, 1>{}); break; case 2: f(std::integral_constant<std::size_t, 2>{}); break; case 3: f(std::integral_constant<std::size_t, 3>{}); break; case 4: f(std::integral_constant<std::size_t, 5>{}); break; case 5: f(std::integral_constant<std::size_t, 12>{}); break; } }
SX_HARNESS(h_construct) { sized([](auto n) { constexpr auto N = decltype(n)::value; switch(sx_pick("type", 4)) { case 0: construct<std::uint16_t, N>(); break; case 1: construct<int, N>(); break; case 2: construct<tracked, N>(); break; case 3: construct<inner, N>(); break; } }); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end"); }
SX_HARNESS(h_modify) { sized([](auto n) { constexpr auto N = decltype(n)::value; switch(sx_pick("type", 4)) { case 0: modify<std::uint16_t, N>(); break; case 1: modify<int, N>(); break; case 2: modify<tracked, N>(); break; case 3: modify<inner, N>(); break; } }); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end"); }
SX_HARNESS(h_at) { sized([](auto n) { constexpr auto N = decltype(n)::value; if(sx_pick("type", 2)) at<std::uint16_t, N>(); else at<int, N>(); }); sx_reach("end"); }
SX_HARNESS(h_deduced) {
	auto x = sx_u16("x"); auto y = sx_u16("y"); auto z = sx_u16("z"); array a{int(x), int(y), int(z)}; static_assert(std::is_same_v<decltype(a), array<int, 3>>); auto [p, q, r] = a; sx_assert(p == x && q == y && r == z, "structured binding"); auto & [s, t, u] = a; s = 1; u = 2; sx_assert(a[0] == 1 && a[1] == y && a[2] == 2, "structured binding by reference"); (void)t; const auto & [f, g, h] = a; sx_assert(&f == &a[0] && &g == &a[1] && &h == &a[2], "structured binding by reference");
	array b{std::uint16_t(x)}; static_assert(std::is_same_v<decltype(b), array<std::uint16_t, 1>>); auto c = b; static_assert(std::is_same_v<decltype(c), array<std::uint16_t, 1>>); sx_assert(c[0] == x && c.front() == x && c.back() == x, "one element"); get<0>(c) = y; sx_assert(c[0] == y && b[0] == x, "get"); sx_reach("end");
}

template<typename X, typename Y, typename F> static void three_way(const X & l, const Y & r, int o, F) { sx_assert((l == r) == (o == 0), "=="); sx_assert((l != r) == (o != 0), "!="); sx_assert((l < r) == (o < 0), "<"); sx_assert((l <= r) == (o <= 0), "<="); sx_assert((l > r) == (o > 0), ">"); sx_assert((l >= r) == (o >= 0), ">="); sx_note("order", static_cast<std::uint64_t>(o + 1)); }
using T3 = tuple<std::uint8_t, tracked, std::int32_t>; struct m3 { std::uint8_t a; std::uint16_t b; std::int32_t c; };
static m3 any3(const char * n) { m3 m; m.a = sx_u8(n); m.b = sx_u16(n); m.c = static_cast<std::int32_t>(sx_u32(n)); return m; }
static T3 mk3(const m3 & m) { return T3{std::uint8_t(m.a), tracked{m.b}, std::int32_t(m.c)}; }
static void check3(T3 & t, const m3 & m, const char * what) { const auto & c = t; sx_assert(t.get<0>() == m.a && c.get<0>() == m.a, what); sx_assert(rd(t.get<1>()) == m.b && rd(c.get<1>()) == m.b, what); sx_assert(t.get<2>() == m.c && c.get<2>() == m.c, what); sx_life_check(std::addressof(t.get<1>())); sx_assert(std::addressof(t.get<1>()) == std::addressof(c.get<1>()) && (const void *)std::addressof(t.get<0>()) != std::addressof(t.get<2>()), "get"); }
SX_HARNESS(h_tuple) {
	{
		auto m = any3("m"); auto k = any3("k"); auto a = mk3(m); auto b = mk3(k); const auto & c = b;
		switch(sx_pick("op", 10)) {
			case 0: { auto t{c}; check3(t, k, "copy"); t.get<0>() = 1; t.get<1>() = tracked{2}; break; } case 1: a = c; m = k; break; case 2: a.swap(b); std::swap(m, k); break; case 3: swap(a, b); std::swap(m, k); break; case 4: { auto t{b}; a = std::move(t); m = k; break; } case 5: a.get<0>() = 7; m.a = 7; break; case 6: a.get<1>() = tracked{8}; m.b = 8; break; case 7: a.get<2>() = -9; m.c = -9; break; case 8: a.swap(a); break;
			case 9: { auto [x, y, z] = c; sx_assert(x == k.a && rd(y) == k.b && z == k.c, "structured binding"); auto & [r, s, t] = a; r = 1; s = tracked{2}; t = 3; m = {1, 2, 3}; tracked u{std::move(a).get<1>()}; sx_assert(u.get() == 2 && a.get<1>().moved, "get from an rvalue moves"); a.get<1>() = u; break; }
		}
		check3(a, m, "left tuple"); check3(b, k, "right tuple"); a.get<2>() = 5; a.get<1>() = tracked{6}; check3(b, k, "tuples are independent"); sx_assert(sx_life_count() == 2, "alive"); sx_note("a", m.a);
	}
	sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end");
}
SX_HARNESS(h_tuple_order) {
	switch(sx_pick("kind", 4)) {
		case 0: { auto m = any3("m"); auto k = any3("k"); auto a = mk3(m), b = mk3(k); int o = m.a != k.a ? (m.a < k.a ? -1 : 1) : m.b != k.b ? (m.b < k.b ? -1 : 1) : m.c != k.c ? (m.c < k.c ? -1 : 1) : 0; three_way(a, b, o, 0); three_way(a, a, 0, 0); break; }
		case 1: { tuple<> a, b; three_way(a, b, 0, 0); break; } case 2: { tuple<std::int16_t> a{static_cast<std::int16_t>(sx_u16("a"))}; const tuple<std::int16_t> b{static_cast<std::int16_t>(sx_u16("b"))}; auto x = a.get<0>(), y = b.get<0>(); three_way(a, b, x < y ? -1 : x > y ? 1 : 0, 0); break; }
		case 3: { // four partially ordered elements: equality and < are those of std::tuple
			using A = partial<0>; using B = partial<1>; using C = partial<2>; using D = partial<3>; std::uint8_t r[4]; for(auto & x : r) x = static_cast<std::uint8_t>(sx_range("relation", 0, 4)); A::rel = r[0]; B::rel = r[1]; C::rel = r[2]; D::rel = r[3]; tuple<A, B, C, D> a{A{1}, B{1}, C{1}, D{1}}, b{A{2}, B{2}, C{2}, D{2}};
			bool eq = r[0] == 1 && r[1] == 1 && r[2] == 1 && r[3] == 1, lt{false}, gt{false}; for(int i{4}; i-- > 0;) { lt = r[i] == 0 || (r[i] != 2 && lt); gt = r[i] == 2 || (r[i] != 0 && gt); } sx_assert((a == b) == eq, "=="); sx_assert((a != b) == !eq, "!="); sx_assert((a < b) == lt, "<"); sx_assert((b < a) == gt, "<"); sx_assert((a > b) == gt, ">"); sx_assert((b > a) == lt, ">"); if(r[0] != 3 && r[1] != 3 && r[2] != 3 && r[3] != 3) { sx_assert((a <= b) == !gt, "<="); sx_assert((a >= b) == !lt, ">="); } break;
		}
	}
	sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end");
}
SX_HARNESS(h_tuple_shapes) {
	auto x = sx_u16("x"); auto y = sx_u32("y");
	{ tuple t{std::uint16_t(x), std::uint32_t(y)}; static_assert(std::is_same_v<decltype(t), tuple<std::uint16_t, std::uint32_t>>); sx_assert(t.get<0>() == x && t.get<1>() == y, "deduced"); static_assert(std::is_same_v<decltype(t.get<0>()), std::uint16_t &> && std::is_same_v<decltype(std::as_const(t).get<1>()), const std::uint32_t &> && std::is_same_v<decltype(std::move(t).get<1>()), std::uint32_t &&> && std::is_same_v<decltype(std::move(std::as_const(t)).get<1>()), const std::uint32_t &&>); const auto u = t; tuple<std::uint16_t, std::uint32_t> v{std::uint16_t(0), std::uint32_t(0)}; v = u; sx_assert(v == t && v.get<1>() == y, "assigned"); static_assert(std::tuple_size<decltype(t)>::value == 2 && std::is_same_v<std::tuple_element<0, decltype(t)>::type, std::uint16_t> && std::is_same_v<std::tuple_element<1, decltype(t)>::type, std::uint32_t>); }
	{ tuple<std::uint8_t, array<std::uint16_t, 2>, std::uint32_t, std::uint8_t> t{static_cast<std::uint8_t>(x), array<std::uint16_t, 2>{std::uint16_t(x), std::uint16_t(x + 1)}, std::uint32_t(y), static_cast<std::uint8_t>(y)}; auto u{std::as_const(t)}; u.get<1>()[0] = 4; u.get<3>() = 5; u.get<0>() = 6; sx_assert(t.get<0>() == static_cast<std::uint8_t>(x) && t.get<1>()[0] == x && t.get<1>()[1] == static_cast<std::uint16_t>(x + 1) && t.get<2>() == y && t.get<3>() == static_cast<std::uint8_t>(y), "four elements"); swap(t, u); sx_assert(u.get<1>()[0] == x && u.get<2>() == y && t.get<0>() == 6 && t.get<3>() == 5 && t.get<1>()[0] == 4 && u.get<3>() == static_cast<std::uint8_t>(y) && u.get<0>() == static_cast<std::uint8_t>(x), "swapped"); }
	{ tracked a{x}, b{3}; tuple<tracked, tracked> t{std::move(a), std::as_const(b)}; sx_assert(a.moved && !b.moved, "rvalues are moved, lvalues copied"); sx_assert(t.get<0>().get() == x && t.get<1>().get() == 3 && sx_life_count() == 4, "elements"); }
	switch(sx_pick("one element", 6)) { // one element, default construction
		case 0: { tuple<std::uint16_t> a{std::uint16_t(x)}; auto b{a}; tuple<std::uint16_t> c{b}; const auto d{c}; auto e{d}; auto f{std::move(e)}; b.get<0>() = 1; sx_assert(a.get<0>() == x && b.get<0>() == 1 && c.get<0>() == x && d.get<0>() == x && f.get<0>() == x, "copies of one element"); break; }
		case 1: { tuple<tracked> a{tracked{x}}; auto b{a}; auto c{std::move(a)}; sx_assert(b.get<0>().get() == x && c.get<0>().get() == x && !b.get<0>().moved && a.get<0>().moved && sx_life_count() == 3, "copies of one element"); tracked v{x}; tuple<tracked> d{v}; sx_assert(!v.moved && d.get<0>().get() == x, "from an lvalue"); break; }
		case 2: { tuple<tuple<std::uint16_t>> a{tuple<std::uint16_t>{std::uint16_t(x)}}; auto b{a}; sx_assert(b.get<0>().get<0>() == x, "tuple of a tuple"); break; }
		case 3: { tuple<std::uint16_t, tracked, std::uint32_t> a; sx_assert(a.get<0>() == 0 && a.get<1>().get() == 0 && a.get<2>() == 0 && sx_life_count() == 1, "default elements"); a.get<2>() = y; auto b{a}; sx_assert(b.get<2>() == y, "default elements"); break; }
		case 4: { tuple<std::uint8_t> a{}; const tuple<ptl::string> b; tuple<> c; auto d{c}; (void)d; sx_assert(a.get<0>() == 0 && b.get<0>().empty(), "default elements"); break; }
		case 5: { auto i = x; auto j = y; const auto k{y}; tuple a{i, j, k}; static_assert(std::is_same_v<decltype(a), tuple<std::uint16_t, std::uint32_t, std::uint32_t>>); auto b{a}; i = 1; sx_assert(b.get<0>() == x && b.get<1>() == y && b.get<2>() == y, "from variables"); break; }
	}
	sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end");
}

// elements of many kinds
SX_HARNESS(h_types) {
	{
		each_type([](auto t) {
			using T = decltype(t); elems<T> x{5}, y{5}, z{1}; array<T, 5> a{T{x.d[0]}, T{x.d[1]}, T{x.d[2]}, T{x.d[3]}, T{x.d[4]}}; array<T, 5> b{T{y.d[0]}, T{y.d[1]}, T{y.d[2]}}; y.m.n = 3; check(a.data(), x.m, "elements of any type"); check(b.data(), y.m, "elements of any type"); if constexpr(!std::is_same_v<T, wide>) sx_assert(is(b[3], 0) && is(b[4], 0), "the others are value-initialised"); else sx_assert(b[3].v == 0 && b[4].v == 0 && b[3].pad[0] == 0 && b[4].tail[22] == 0, "the others are value-initialised");
			for(std::size_t i{3}; i < 5; ++i) b[i] = y.d[i]; y.m.n = 5; std::size_t i{0};
			switch(sx_pick("op", 9)) {
				case 0: { auto c{std::as_const(a)}; check(c.data(), x.m, "copy"); c.fill(z.d[0]); break; } case 1: a = std::as_const(b); x.m = y.m; break; case 2: { auto c{b}; a = std::move(c); x.m = y.m; break; } case 3: a.swap(b); std::swap(x.m.d, y.m.d); break; case 4: swap(a, b); std::swap(x.m.d, y.m.d); break; case 5: a.fill(z.d[0]); for(i = 0; i < 5; ++i) x.m.d[i] = z.m.d[0]; break;
				case 6: a.back() = z.d[0]; x.m.d[4] = z.m.d[0]; a.front() = b.front(); x.m.d[0] = y.m.d[0]; break; case 7: { auto s{std::move(a)}; check(s.data(), x.m, "move"); a = s; break; } case 8: { auto & s = a; a = s; a.swap(s); break; }
			}
			check(a.data(), x.m, "operation"); check(b.data(), y.m, "other array");
		});
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
// many elements
template<std::size_t N> static void large() {
	using A = array<std::uint8_t, N>; auto a = std::make_unique<A>(), b = std::make_unique<A>(); bmodel m, k; { bool zero{true}; for(std::size_t i{0}; i < N; i += N > 2000 ? 97 : 1) zero &= (*a)[i] == 0; sx_assert(zero && (*a)[N - 1] == 0, "default"); }
	auto set = [](A & x, bmodel & y, std::uint8_t phase) { y.n = N; for(std::size_t i{0}; i < 251 && i < N; ++i) y.d[i] = static_cast<std::uint8_t>(i * 3 + phase); for(std::size_t have{251}; have < N; have *= 2) std::memcpy(y.d + have, y.d, have < N - have ? have : N - have); std::size_t at[]{0, 127, 255, 256, N / 2, 65535, 65536, N - 1}; for(auto i : at) if(i < N) y.d[i] = sx_u8("e"); std::memcpy(x.data(), y.d, N); };
	set(*a, m, 1); set(*b, k, 2); auto x = sx_u8("x"); auto op = sx_pick("op", 9);
	switch(op) {
		case 0: { auto c = std::make_unique<A>(std::as_const(*a)); check(c->data(), m, "copy"); c->fill(1); break; } case 1: *a = std::as_const(*b); m = k; break; case 2: *a = std::move(*b); m = k; break; case 3: a->swap(*b); std::swap(m.d, k.d); break; case 4: swap(*a, *b); std::swap(m.d, k.d); break; case 5: a->fill(x); std::memset(m.d, x, N); break;
		case 6: { auto i = sx_u64("index"); std::uint8_t * p{nullptr}; auto t = outcome([&] { p = &a->at(i); }); if(i < N) { sx_assert(t == Thrown::none && p == a->data() + i, "at"); } else { sx_assert(t == Thrown::range, "at beyond the size"); } break; } case 7: { auto i = sx_range("index", 0, N - 1); sx_assert(&(*a)[i] == a->data() + i && &std::as_const(*a)[i] == a->data() + i && &a->begin()[static_cast<std::ptrdiff_t>(i)] == a->data() + i && &*(a->end() - static_cast<std::ptrdiff_t>(N - i)) == a->data() + i, "element access"); break; } case 8: { sx_assert(a->size() == N && !a->empty() && a->max_size() == N && &a->back() == a->data() + N - 1 && &get<N - 1>(*a) == a->data() + N - 1, "size"); a->back() = x; m.d[N - 1] = x; get<N / 2>(*a) = x; m.d[N / 2] = x; std::size_t n{0}; if(N <= 1000) { for(auto & e : *a) { (void)e; ++n; } for(auto i = a->crbegin(); i != a->crend(); ++i) ++n; sx_assert(n == 2 * N, "iteration"); } sx_assert(a->end() - a->begin() == static_cast<std::ptrdiff_t>(N), "iteration"); break; }
	}
	bool ok = std::memcmp(a->data(), m.d, N) == 0 && std::memcmp(b->data(), k.d, N) == 0; sx_assert(ok, "operation on many elements");
}
SX_HARNESS(h_large) { switch(sx_pick("size", SX_REDUCED ? 3 : 6)) { case 0: large<128>(); break; case 1: large<256>(); break; case 2: large<65537>(); break; case 3: large<300>(); break; case 4: large<1000>(); break; case 5: large<65536>(); break; } sx_reach("end"); }
SX_HARNESS(h_large_class) {
	{ constexpr std::size_t N{SX_THOROUGH ? 520 : 260}; array<tracked, N> a, b; auto x = sx_u16("x"); auto y = sx_u16("y"); tracked v{x}, w{y}; a.fill(v); b.fill(w); a[255] = tracked{1}; b[N - 1] = tracked{2}; switch(sx_pick("op", 4)) { case 0: swap(a, b); break; case 1: { auto c{a}; a = b; b = c; break; } case 2: { auto c{std::move(a)}; a = std::move(b); b = std::move(c); break; } case 3: { std::swap(a, b); break; } } bool ok{true}; for(std::size_t i{0}; i < N; ++i) ok &= (rd(a[i]) == (i == N - 1 ? 2 : y)) & (rd(b[i]) == (i == 255 ? 1 : x)); sx_assert(ok, "many objects"); sx_assert(sx_life_count() == 2 * N + 2, "alive"); }
	sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end");
}
// tuples of other types: what each element is is kept apart from the others
SX_HARNESS(h_tuple_types) {
	{
		each_type([](auto t) {
			using T = decltype(t); elems<T> x{2}, y{2}; using U = tuple<std::uint8_t, T, ptl::string, T>; auto i = sx_u8("i"), j = sx_u8("j"); U a{std::uint8_t(i), T{x.d[0]}, ptl::string{std::string_view{"left"}}, T{x.d[1]}}, b{std::uint8_t(j), T{y.d[0]}, ptl::string{std::string_view{"a right side longer than any inline one"}}, T{y.d[1]}}; const auto & c = b; bool swapped{false};
			switch(sx_pick("op", 6)) { case 0: { U d{c}; sx_assert(is(d.template get<1>(), y.m.d[0]) && is(d.template get<3>(), y.m.d[1]) && d.template get<0>() == j && d.template get<2>().size() == 39, "copy"); break; } case 1: a = c; x.m = y.m; i = j; swapped = true; break; case 2: { U d{b}; a = std::move(d); x.m = y.m; i = j; swapped = true; break; } case 3: { U d{b}; U e{std::move(d)}; swap(a, e); x.m = y.m; i = j; swapped = true; break; } case 4: a.template get<1>() = T{y.d[1]}; x.m.d[0] = y.m.d[1]; a.template get<3>() = y.d[0]; x.m.d[1] = y.m.d[0]; break; case 5: { a.swap(b); a.swap(b); break; } }
			sx_assert(a.template get<0>() == i && is(a.template get<1>(), x.m.d[0]) && is(a.template get<3>(), x.m.d[1]) && (a.template get<2>() == b.template get<2>()) == swapped, "operation"); sx_assert(b.template get<0>() == j && is(b.template get<1>(), y.m.d[0]) && is(b.template get<3>(), y.m.d[1]) && b.template get<2>().size() == 39, "other tuple");
		});
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
// what elements compare like plays no role when they are exchanged or assigned
SX_HARNESS(h_swap_alike) {
	using P = partial<0>; P::rel = static_cast<std::uint8_t>(sx_range("relation", 0, 4)); array<P, 3> a{P{1}, P{1}, P{2}}, b{P{2}, P{1}, P{1}}; if(sx_pick("friend", 2)) { using std::swap; swap(a, b); } else a.swap(b); sx_assert(a[0].who == 2 && a[1].who == 1 && a[2].who == 1 && b[0].who == 1 && b[1].who == 1 && b[2].who == 2, "swapped arrays");
	b = std::as_const(a); sx_assert(b[0].who == 2 && b[2].who == 1, "assigned array"); a.fill(P{1}); sx_assert(a[0].who == 1 && a[1].who == 1 && a[2].who == 1, "filled array");
	tuple<P, P, std::uint8_t> t{P{1}, P{2}, std::uint8_t(1)}, u{P{2}, P{1}, std::uint8_t(1)}; t.swap(u); sx_assert(t.get<0>().who == 2 && t.get<1>().who == 1 && u.get<0>().who == 1 && u.get<1>().who == 2, "swapped tuples"); t = std::as_const(u); sx_assert(t.get<0>().who == 1 && t.get<1>().who == 2, "assigned tuple"); swap(t, t); sx_assert(t.get<0>().who == 1 && t.get<1>().who == 2, "self-swapped tuple");
	sx_reach("end");
}
// arguments that are variables, or merely convert to the elements
SX_HARNESS(h_from_variables) {
	{
		auto x = sx_u16("x"); auto y = sx_u16("y"); const auto z = sx_u16("z");
		switch(sx_pick("how", 7)) {
			case 0: { auto i = x; auto j = y; array<std::uint16_t, 4> a{i, z, std::move(j), std::uint16_t(1)}; const std::uint16_t m[]{x, z, y, 1, 0}; check(a, m, "lvalues, const lvalues and rvalues"); i = 3; sx_assert(a[0] == x, "elements are copies"); break; }
			case 1: { auto i = x; auto j = y; array a{i, j}; static_assert(std::is_same_v<decltype(a), array<std::uint16_t, 2>>); const std::uint16_t m[]{x, y, 0}; check(a, m, "deduced from lvalues"); break; }
			case 2: { tracked i{x}, j{y}; const tracked k{z}; { array<tracked, 5> a{i, std::move(j), k, tracked{5}}; const std::uint16_t m[]{x, y, z, 5, 0, 0}; check(a, m, "lvalues are copied, rvalues moved"); sx_assert(!i.moved && i.get() == x && j.moved && !k.moved && sx_life_count() == 8, "lvalues are copied, rvalues moved"); } sx_assert(sx_life_count() == 3, "elements destroyed"); break; }
			case 3: { const auto n = static_cast<std::uint8_t>(x); auto o = static_cast<std::uint8_t>(y); array<std::uint32_t, 3> a{n, o, std::uint16_t(z)}; sx_assert(a[0] == n && a[1] == o && a[2] == z, "converted arguments"); break; }
			case 4: { char text[4]{'a', static_cast<char>(static_cast<std::uint8_t>(x) | 1), 'c', 0}; ptl::string i{std::string_view{text}}, j{std::string_view{"a text that does not fit in place"}}; const auto k{j}; array<ptl::string, 3> a{i, std::move(j), k}; array b{i, k}; sx_assert(a[0] == i && a[1] == k && a[2] == k && i.size() == 3 && i[1] == text[1] && j.empty() && b[0] == i && b[1] == k, "strings from variables"); break; }
			case 5: { array<std::uint16_t, 2> i{std::uint16_t(x), std::uint16_t(y)}; auto j = i; array<array<std::uint16_t, 2>, 3> a{i, std::as_const(i), std::move(j)}; bool ok{true}; for(auto & e : a) ok &= (e[0] == x) & (e[1] == y); sx_assert(ok && &a[0] != &i, "arrays of arrays"); auto b{i}; sx_assert(b[0] == x && b[1] == y, "an lvalue array is copied"); break; }
			case 6: { auto i = x; tracked j{y}; ptl::tuple<std::uint16_t, tracked, std::uint16_t> t{i, j, z}; sx_assert(t.get<0>() == x && rd(t.get<1>()) == y && t.get<2>() == z && !j.moved && j.get() == y, "tuple from lvalues"); break; }
		}
		sx_note("x", x);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end");
}
