// BOUND: objects of four types (one of them referenced both as const and as non-const, one only as const, one overloading &), symbolic values, every kind of binding, copy and assignment between references to any pair of objects, every access; histories of 3 (thorough: 4) rebindings and writes; references to 260 types, every pair of 8 of them, around the first, the last and 127 and 255
// OUTSIDE: longer histories, other lists of types, more than 260 of them
// NATIVEFLAGS: -O0 -g1
#include "iters.hpp"
#include "ptl/variant_ref.hpp"
using namespace sx;

struct plain { std::uint16_t v; };
struct odd { std::uint32_t v; odd * operator&() { return nullptr; } const odd * operator&() const { return nullptr; } };
using R = ptl::variant_ref<std::uint8_t, plain, const plain, const std::uint32_t, odd>; // indices 0..4
struct objects { std::uint8_t a[2]; plain p[2]; std::uint32_t c[2]; odd o[2]; };
static void init(objects & s) { for(int i{0}; i < 2; ++i) { s.a[i] = sx_u8("a"); s.p[i].v = sx_u16("p"); s.c[i] = sx_u32("c"); s.o[i].v = sx_u32("o"); } }
static bool same(const objects & l, const objects & r) { bool ok{true}; for(int i{0}; i < 2; ++i) ok &= (l.a[i] == r.a[i]) & (l.p[i].v == r.p[i].v) & (l.c[i] == r.c[i]) & (l.o[i].v == r.o[i].v); return ok; }
struct target { unsigned at; unsigned i; };
static const void * where(objects & s, target t) { switch(t.at) { case 0: return std::addressof(s.a[t.i]); case 1: case 2: return std::addressof(s.p[t.i]); case 3: return std::addressof(s.c[t.i]); default: return std::addressof(s.o[t.i]); } }
static target choose() { target t; t.at = static_cast<unsigned>(sx_pick("type", 5)); t.i = static_cast<unsigned>(sx_pick("object", 2)); return t; }
static R bind(objects & s, target t) { const objects & k = s; switch(t.at) { case 0: return R{s.a[t.i]}; case 1: return R{s.p[t.i]}; case 2: return R{k.p[t.i]}; case 3: if(sx_pick("as", 2)) return R{s.c[t.i]}; else return R{k.c[t.i]}; default: return R{s.o[t.i]}; } }
template<typename T> static void one(const R & r, const void * to, bool is, const char * what) {
	sx_assert(r.holds<T>() == is, what); static_assert(std::is_same_v<decltype(r.get_if<T>()), T *> && std::is_same_v<decltype(r.get<T>()), T &>); auto p = r.get_if<T>(); sx_assert((p != nullptr) == is, what);
	if(is) { sx_assert(p == to, what); sx_assert(std::addressof(r.get<T>()) == to, what); } else { bool t{false}; try { (void)r.get<T>(); } catch(const std::bad_variant_access &) { t = true; } sx_assert(t, "get of another type"); }
}
template<typename T> constexpr unsigned index_of = std::is_same_v<T, std::uint8_t> ? 0 : std::is_same_v<T, plain> ? 1 : std::is_same_v<T, const plain> ? 2 : std::is_same_v<T, const std::uint32_t> ? 3 : std::is_same_v<T, odd> ? 4 : 9;
static void check(const R & r, objects & s, target t, const char * what) {
	auto to = where(s, t); one<std::uint8_t>(r, to, t.at == 0, what); one<plain>(r, to, t.at == 1, what); one<const plain>(r, to, t.at == 2, what); one<const std::uint32_t>(r, to, t.at == 3, what); one<odd>(r, to, t.at == 4, what);
	unsigned calls{0}; auto f = [&](auto & x) -> const void * { ++calls; sx_assert(index_of<std::remove_reference_t<decltype(x)>> == t.at, "type and constness seen by a visitor"); return std::addressof(x); }; sx_assert(r.visit(f) == to && calls == 1, "visit");
	auto many = r.visit([&](std::uint8_t & x) { ++calls; return 10u + (std::addressof(x) == to); }, [&](plain & x) { ++calls; return 20u + (std::addressof(x) == to); }, [&](const plain & x) { ++calls; return 30u + (std::addressof(x) == to); }, [&](const std::uint32_t & x) { ++calls; return 40u + (std::addressof(x) == to); }, [&](odd & x) { ++calls; return 50u + (std::addressof(x) == to); }); sx_assert(many == 10 * t.at + 11 && calls == 2, "several visitors");
}
SX_HARNESS(h_bind) {
	objects s; init(s); objects old = s; auto t = choose(); R r = bind(s, t); check(r, s, t, "bound"); sx_assert(same(s, old), "binding modifies nothing");
	switch(sx_pick("then", 4)) {
		case 0: { R c{r}; check(c, s, t, "copy"); check(r, s, t, "source"); break; } case 1: { const R k{r}; R c = k; check(c, s, t, "copy of a const reference"); break; } case 2: { R c{std::move(r)}; check(c, s, t, "moved"); check(r, s, t, "source"); break; } case 3: { R & q = r; auto p = &(r = q); sx_assert(p == &r, "result"); check(r, s, t, "self-assignment"); break; }
	}
	sx_assert(same(s, old), "copying modifies nothing"); sx_note("at", t.at); sx_reach("end");
}
SX_HARNESS(h_assign) {
	objects s; init(s); objects old = s; auto t = choose(); auto u = choose(); R r = bind(s, t); R q = bind(s, u); R * p;
	switch(sx_pick("how", 5)) { case 0: p = &(r = q); break; case 1: p = &(r = static_cast<const R &>(q)); break; case 2: p = &(r = R{q}); break; case 3: { R c{r}; c = q; p = &(r = c); break; } default: { switch(u.at) { case 0: p = &(r = s.a[u.i]); break; case 1: p = &(r = s.p[u.i]); break; case 2: p = &(r = static_cast<const plain &>(s.p[u.i])); break; case 3: p = &(r = s.c[u.i]); break; default: p = &(r = s.o[u.i]); } } }
	sx_assert(p == &r, "result"); check(r, s, u, "assigned"); check(q, s, u, "source"); sx_assert(same(s, old), "rebinding modifies nothing"); q = bind(s, {0, 1}); check(r, s, u, "independent of the source"); sx_reach("end");
}
SX_HARNESS(h_write) {
	objects s; init(s); auto t = choose(); R r = bind(s, t); R c{r}; auto x = sx_u16("x"); const R & k = r; objects m = s; unsigned b = t.at == 0 ? x & 0xFF : x;
	switch(sx_pick("how", 4)) {
		case 0: k.visit([&](auto & y) { using T = std::remove_reference_t<decltype(y)>; if constexpr(std::is_same_v<T, std::uint8_t>) y = static_cast<std::uint8_t>(b); else if constexpr(!std::is_const_v<T>) y.v = x; }); break;
		case 1: if(t.at == 0) r.get<std::uint8_t>() = static_cast<std::uint8_t>(b); else if(t.at == 1) r.get<plain>().v = x; else if(t.at == 4) r.get<odd>().v = x; break;
		case 2: if(t.at == 0) *r.get_if<std::uint8_t>() = static_cast<std::uint8_t>(b); else if(t.at == 1) c.get_if<plain>()->v = x; else if(t.at == 4) k.get_if<odd>()->v = x; break;
		case 3: c.visit([&](std::uint8_t & y) { y = static_cast<std::uint8_t>(b); }, [&](plain & y) { y.v = x; }, [&](const plain &) {}, [&](const std::uint32_t &) {}, [&](odd & y) { y.v = x; }); break;
	}
	switch(t.at) { case 0: m.a[t.i] = static_cast<std::uint8_t>(b); break; case 1: m.p[t.i].v = x; break; case 4: m.o[t.i].v = x; break; }
	sx_assert(same(s, m), "a write reaches exactly the referenced object"); check(r, s, t, "after a write"); sx_note("x", x);
	if(t.at == 2) { s.p[t.i].v = 77; sx_assert(r.get<const plain>().v == 77, "a read sees the object"); } if(t.at == 3) { s.c[t.i] = 78; sx_assert(r.visit([](const auto & y) -> std::uint32_t { if constexpr(std::is_integral_v<std::decay_t<decltype(y)>>) return y; else return y.v; }) == 78, "a read sees the object"); }
	sx_reach("end");
}
// temporaries bind as const for the duration of the full expression; results by reference, visitors with state, mutable visitors
static std::uint32_t take(const R & r) { return r.visit([](const auto & x) -> std::uint32_t { if constexpr(std::is_integral_v<std::decay_t<decltype(x)>>) return x; else return x.v; }); }
SX_HARNESS(h_misc) {
	auto x = sx_u16("x"); switch(sx_pick("case", 6)) {
		case 0: sx_assert(take(plain{x}) == x, "temporary bound as const"); break; case 1: sx_assert(take(std::uint32_t{x}) == x, "temporary bound as const"); break; case 2: { const std::uint32_t k{x}; sx_assert(take(k) == x, "const object"); break; }
		case 3: { plain p{x}; R r{p}; struct counter { unsigned n{0}; const void * last{nullptr}; void operator()(const plain & y) { ++n; last = &y; } void operator()(std::uint8_t &) { n += 10; } void operator()(const std::uint32_t &) { n += 20; } void operator()(odd &) { n += 30; } } k; r.visit(k); sx_assert(k.n == 1 && k.last == &p, "the visitor itself is called"); const auto fix = [&](auto &) { return 3; }; sx_assert(r.visit(fix) == 3, "const visitor"); break; }
		case 4: { std::uint8_t a = 1; R r{a}; unsigned out{0}; auto & res = r.visit([&](auto &) -> unsigned & { return out; }); sx_assert(&res == &out, "result by reference"); break; }
		case 5: { ptl::variant_ref<plain> r{[&]() -> plain & { static plain p; p.v = x; return p; }()}; sx_assert(r.get<plain>().v == x && r.holds<plain>(), "one type only"); auto d = ptl::variant_ref<plain>{r}; d.get<plain>().v = 5; sx_assert(r.get<plain>().v == 5, "one type only"); break; }
	}
	sx_reach("end");
}
SX_HARNESS(h_history) {
	objects s; init(s); objects m = s; target t[2]{{0, 0}, {1, 1}}; R r[2]{bind(s, t[0]), bind(s, t[1])};
	for(unsigned k{0}; k < (SX_THOROUGH ? 4u : 3u); ++k) {
		auto w = sx_pick("which", 2);
		switch(sx_pick("op", 4)) { case 0: r[w] = r[1 - w]; t[w] = t[1 - w]; break; case 1: t[w] = {4, static_cast<unsigned>(k & 1)}; r[w] = s.o[k & 1]; break; case 2: t[w] = {2, 0}; r[w] = static_cast<const plain &>(s.p[0]); break; case 3: r[w].visit([&](auto & y) { using T = std::remove_reference_t<decltype(y)>; if constexpr(std::is_same_v<T, std::uint8_t>) { y = static_cast<std::uint8_t>(k); m.a[t[w].i] = static_cast<std::uint8_t>(k); } else if constexpr(!std::is_const_v<T>) { y.v = static_cast<std::uint16_t>(k); (t[w].at == 1 ? (void)(m.p[t[w].i].v = static_cast<std::uint16_t>(k)) : (void)(m.o[t[w].i].v = k)); } }); break; }
		for(int j{0}; j < 2; ++j) check(r[j], s, t[j], "history"); sx_assert(same(s, m), "history: objects");
	}
	sx_reach("end");
}

template<std::size_t I> struct nth { std::uint16_t v; }; struct numberer { template<std::size_t I> std::size_t operator()(const nth<I> & n) const { return I + 1000u * n.v; } };
template<typename> struct most_of; template<std::size_t... I> struct most_of<std::index_sequence<I...>> { using type = ptl::variant_ref<nth<I>...>; };
using M = most_of<std::make_index_sequence<260>>::type;
template<typename F> static void with_nth(std::size_t k, F f) { switch(k) { case 0: f(nth<0>{}); break; case 1: f(nth<1>{}); break; case 2: f(nth<127>{}); break; case 3: f(nth<128>{}); break; case 4: f(nth<255>{}); break; case 5: f(nth<256>{}); break; case 6: f(nth<257>{}); break; case 7: f(nth<259>{}); break; } }
SX_HARNESS(h_many_types) {
	static const std::size_t index[]{0, 1, 127, 128, 255, 256, 257, 259}; auto i = sx_pick("first", 8); auto j = sx_pick("second", 8); auto x = sx_u16("x"); auto y = sx_u16("y");
	with_nth(i, [&](auto p) { with_nth(j, [&](auto q) {
		p.v = x; q.v = y; M a{p}, b{q}; const void * to[]{&p, &q};
		auto is = [&](const M & r, std::size_t k, std::uint16_t v, const void * where, const char * what) { sx_assert(r.visit(numberer{}) == index[k] + 1000u * v, what); for(std::size_t l{0}; l < 8; ++l) with_nth(l, [&](auto t) { using T = decltype(t); sx_assert(r.holds<T>() == (l == k), what); sx_assert(static_cast<const void *>(r.get_if<T>()) == (l == k ? where : nullptr), what); }); };
		is(a, i, x, to[0], "bound"); is(b, j, y, to[1], "bound"); M c{a}; is(c, i, x, to[0], "copy"); switch(sx_pick("op", 3)) { case 0: a = b; break; case 1: a = q; break; case 2: std::swap(a, b); is(b, i, x, to[0], "swapped"); break; } is(a, j, y, to[1], "assigned"); a.get<decltype(q)>().v = 7; sx_assert(q.v == 7, "write");
	}); });
	sx_reach("end");
}
// what a reference can be made of: never a mutable reference to something const
SX_HARNESS(h_conversions) {
	using M = ptl::variant_ref<std::uint16_t, plain>; using C = ptl::variant_ref<const std::uint16_t, const plain>; using B = ptl::variant_ref<std::uint16_t, const plain>;
	sx_assert(std::is_constructible_v<M, std::uint16_t &> && std::is_constructible_v<M, plain &> && std::is_constructible_v<C, std::uint16_t &> && std::is_constructible_v<C, const std::uint16_t &> && std::is_constructible_v<B, plain &> && std::is_constructible_v<B, const plain &>, "references to listed types");
	sx_assert(!std::is_constructible_v<M, const std::uint16_t &> && !std::is_constructible_v<M, const plain &> && !std::is_constructible_v<B, const std::uint16_t &> && !std::is_constructible_v<M, std::uint16_t> && !std::is_constructible_v<M, plain>, "no mutable reference to something const or temporary");
	sx_assert(!std::is_constructible_v<M, std::uint32_t &> && !std::is_constructible_v<C, const odd &> && !std::is_constructible_v<M, int>, "no reference to other types");
	std::uint16_t a{sx_u16("a")}; plain p{sx_u16("p")}; C c{a}; B b{p}; sx_assert(c.holds<const std::uint16_t>() && &c.get<const std::uint16_t>() == &a && b.holds<const plain>() && b.get_if<const plain>() == &p && b.get_if<std::uint16_t>() == nullptr, "references"); c = p; b = a; sx_assert(c.get_if<const plain>() == &p && b.get_if<std::uint16_t>() == &a, "assigned"); sx_reach("end");
}
