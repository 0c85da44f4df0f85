// BOUND: signatures returning nothing, values, references and classes with registered lifetime, with 0 to 10 parameters by value, lvalue, const and rvalue reference, plain, const, noexcept and both; bound to functions, function pointers, function pointer objects, lambdas, mutable, const, overloaded and throwing function objects and other function_refs; every argument symbolic; histories of 3 (thorough: 5) bindings, copies, assignments and calls
// OUTSIDE: other signatures
#include "iters.hpp"
#include "ptl/function_ref.hpp"
using namespace sx; using ptl::function_ref;

static unsigned calls; static std::uint32_t last; static std::uint32_t cell;
static std::uint32_t mix(std::uint32_t a, std::uint16_t b, std::uint8_t c, std::uint64_t d) { return a * 3 + b * 5u + c * 7u + static_cast<std::uint32_t>(d >> 7); }
static std::uint32_t f4(std::uint32_t a, std::uint16_t b, std::uint8_t c, std::uint64_t d) { ++calls; return mix(a, b, c, d); }
static std::uint32_t f4n(std::uint32_t a, std::uint16_t b, std::uint8_t c, std::uint64_t d) noexcept { ++calls; return mix(a, b, c, d) + 1; }
static void f1(std::uint32_t a) { ++calls; last = a; }
static std::uint32_t & fref(std::uint32_t & a) { ++calls; return a; }
static const std::uint32_t & fcell() { ++calls; return cell; }
static std::uint32_t && fr(std::uint32_t && a) { ++calls; return std::move(a); }

SX_HARNESS(h_function) {
	calls = 0; auto a = sx_u32("a"); auto b = sx_u16("b"); auto c = sx_u8("c"); auto d = sx_u64("d"); auto want = mix(a, b, c, d);
	using S = std::uint32_t(std::uint32_t, std::uint16_t, std::uint8_t, std::uint64_t); using SC = std::uint32_t(std::uint32_t, std::uint16_t, std::uint8_t, std::uint64_t) const; using SN = std::uint32_t(std::uint32_t, std::uint16_t, std::uint8_t, std::uint64_t) noexcept; using SCN = std::uint32_t(std::uint32_t, std::uint16_t, std::uint8_t, std::uint64_t) const noexcept; std::uint32_t r;
	switch(sx_pick("bound to", 14)) {
		case 0: r = function_ref<S>{f4}(a, b, c, d); break; case 1: { function_ref<S> f{&f4}; r = f(a, b, c, d); break; } case 2: { const function_ref<SC> f{f4}; r = f(a, b, c, d); break; } case 3: { function_ref<SN> f{f4n}; r = f(a, b, c, d) - 1; break; } case 4: { function_ref<SCN> f{&f4n}; r = f(a, b, c, d) - 1; break; } case 5: { function_ref<S> f{f4n}; r = f(a, b, c, d) - 1; break; }
		case 6: { function_ref f{f4}; static_assert(std::is_same_v<decltype(f), function_ref<S>>); r = f(a, b, c, d); break; } case 7: { function_ref f{&f4n}; static_assert(std::is_same_v<decltype(f), function_ref<SN>>); r = f(a, b, c, d) - 1; break; } case 8: { S * p{f4}; function_ref<S> f{p}; p = f4n; r = f(a, b, c, d); break; } // a pointer to a function is followed when binding
		case 9: { function_ref<S> f{f4}; auto g{f}; f = function_ref<S>{f4n}; r = g(a, b, c, d); break; } case 10: { function_ref<S> f{f4n}; const function_ref<S> g{f4}; f = g; r = f(a, b, c, d); break; } case 11: { function_ref<S> f{f4n}; f = f4; r = f(a, b, c, d); break; } case 12: { function_ref<S> f{f4n}; f = &f4; r = f(a, b, c, d); break; } case 13: { function_ref<S> f{f4}; auto & s = f; f = s; function_ref<S> g{std::move(f)}; r = g(a, b, c, d); break; }
	}
	sx_assert(r == want, "result"); sx_assert(calls == 1, "called once"); sx_note("r", r); sx_reach("end");
}
SX_HARNESS(h_reference) { // references stay references to the caller's objects, as do results
	calls = 0; auto x = sx_u32("x"); std::uint32_t v{x}; cell = x;
	switch(sx_pick("case", 14)) {
		case 0: { function_ref<std::uint32_t &(std::uint32_t &)> f{fref}; auto & r = f(v); sx_assert(&r == &v, "result by reference"); r = 1; sx_assert(v == 1, "result by reference"); break; } case 1: { function_ref<const std::uint32_t &()> f{fcell}; auto & r = f(); sx_assert(&r == &cell && r == x, "result by const reference"); break; }
		case 2: { auto l = [&](std::uint32_t & y) -> std::uint32_t & { ++calls; return y; }; function_ref<std::uint32_t &(std::uint32_t &)> f{l}; sx_assert(&f(v) == &v, "result by reference"); break; } case 3: { auto l = [&](const std::uint32_t & y) { ++calls; return &y; }; function_ref<const std::uint32_t *(const std::uint32_t &)> f{l}; sx_assert(f(v) == &v, "argument by const reference"); break; }
		case 4: { auto l = [&](std::uint32_t & y) { ++calls; y = 5; }; function_ref<void(std::uint32_t &)> f{l}; f(v); sx_assert(v == 5, "argument by reference"); break; } case 5: { auto l = [&](std::uint32_t y) { ++calls; y = 6; }; function_ref<void(std::uint32_t)> f{l}; f(v); sx_assert(v == x, "argument by value"); break; } case 6: { auto l = [&]() -> std::uint32_t & { ++calls; return v; }; function_ref<std::uint32_t()> f{l}; sx_assert(f() == x, "reference converted to a value"); break; } case 7: { auto l = [&](std::uint32_t y) { ++calls; last = y; return y; }; function_ref<void(std::uint32_t)> f{l}; f(x); sx_assert(last == x, "result discarded"); break; }
		case 8: { auto l = [&](std::uint64_t y) -> std::uint8_t { ++calls; return static_cast<std::uint8_t>(y); }; function_ref<std::uint64_t(std::uint16_t)> f{l}; sx_assert(f(static_cast<std::uint16_t>(x)) == (x & 0xFF), "arguments and results are converted"); break; } case 9: { auto l = [&]() noexcept -> std::uint32_t & { ++calls; return v; }; function_ref<std::uint32_t &() noexcept> f{l}; sx_assert(&f() == &v, "result by reference"); break; } case 10: { const auto l = [&]() -> const std::uint32_t & { ++calls; return v; }; function_ref<const std::uint32_t &() const> f{l}; sx_assert(&f() == &v, "result by reference"); break; } case 11: { const auto l = [&]() noexcept -> std::uint32_t & { ++calls; return v; }; function_ref<const std::uint32_t &() const noexcept> f{l}; sx_assert(&f() == &v, "result by reference"); break; }
		case 12: { auto l = [&](std::uint32_t & y, const std::uint32_t & z) -> std::uint32_t & { ++calls; return x & 1 ? y : const_cast<std::uint32_t &>(z); }; function_ref<std::uint32_t &(std::uint32_t &, const std::uint32_t &)> f{l}; sx_assert(&f(v, cell) == (x & 1 ? &v : &cell), "result by reference"); break; } case 13: { struct base { std::uint32_t a; }; struct derived { std::uint32_t z; base b; operator base &() { return b; } } o{1, {x}}; auto l = [&](derived & y) -> base & { ++calls; return y.b; }; function_ref<base &(derived &)> f{l}; sx_assert(&f(o) == &o.b && f(o).a == x, "result by reference"); calls -= 1; break; }
	}
	sx_assert(calls == 1 || calls == 2, "called"); sx_reach("end");
}
SX_HARNESS(h_rvalue_reference) {
	calls = 0; auto x = sx_u32("x"); std::uint32_t v{x}; auto l = [&](std::uint32_t && y) { ++calls; return &y; };
	switch(sx_pick("case", 4)) { case 0: { function_ref<std::uint32_t &&(std::uint32_t &&)> f{fr}; auto && r = f(std::move(v)); sx_assert(&r == &v, "result by rvalue reference"); break; } case 1: { function_ref<const std::uint32_t *(std::uint32_t &&)> f{l}; sx_assert(f(std::move(v)) == &v, "argument by rvalue reference"); break; } case 2: { function_ref<const std::uint32_t *(std::uint32_t &&) const> f{l}; sx_assert(f(std::move(v)) == &v, "argument by rvalue reference"); break; } case 3: { auto k = [&](std::uint32_t && y) noexcept -> std::uint32_t && { ++calls; return std::move(y); }; function_ref<std::uint32_t &&(std::uint32_t &&) noexcept> f{k}; auto && r = f(std::move(v)); sx_assert(&r == &v, "result by rvalue reference"); break; } }
	sx_assert(calls == 1 && v == x, "called once"); sx_reach("end");
}
struct both { std::uint32_t n{0}; mutable std::uint32_t k{0}; std::uint32_t operator()(std::uint32_t x) { ++n; return x + n; } std::uint32_t operator()(std::uint32_t x) const { ++k; return 1000000 + x + k; } };
struct both_n { std::uint32_t n{0}; mutable std::uint32_t k{0}; std::uint32_t operator()(std::uint32_t x) noexcept { ++n; return x + n; } std::uint32_t operator()(std::uint32_t x) const noexcept { ++k; return 1000000 + x + k; } };
struct addressed { std::uint32_t n{0}; std::uint32_t operator()(std::uint32_t x) { ++n; return x + n; } addressed * operator&() { return nullptr; } };
struct over { const void * operator()(std::uint32_t &) const { return "l"; } const void * operator()(const std::uint32_t &) const { return "c"; } const void * operator()(std::uint32_t &&) const { return "r"; } };
SX_HARNESS(h_const_reference) {
	calls = 0; auto x = sx_u32("x"); cell = x; std::uint32_t v{x}; auto l = [&]() -> const std::uint32_t & { ++calls; return v; }; const auto k = [&](std::uint32_t) -> const std::uint32_t & { ++calls; return v; };
	switch(sx_pick("case", 4)) { case 0: { function_ref<const std::uint32_t &()> f{fcell}; auto & r = f(); sx_assert(&r == &cell, "result by const reference"); sx_assert(r == x, "result by const reference"); break; } case 1: { function_ref<const std::uint32_t &()> f{l}; auto & r = f(); sx_assert(&r == &v, "result by const reference"); break; } case 2: { function_ref<const std::uint32_t &(std::uint32_t)> f{k}; auto & r = f(x); sx_assert(&r == &v, "result by const reference"); break; } case 3: { function_ref<const std::uint32_t &(std::uint32_t) const> f{k}; auto & r = f(x); sx_assert(&r == &v, "result by const reference"); break; } }
	sx_assert(calls == 1, "called once"); sx_reach("end");
}
SX_HARNESS(h_functor) { // the object itself is called, with the constness of the signature; state changes happen in it
	auto x = sx_u32("x"); both o; both_n p; const both & c = o; bool as_const{false}; std::uint32_t r1, r2;
	switch(sx_pick("case", 11)) {
		case 0: { function_ref<std::uint32_t(std::uint32_t)> f{o}; r1 = f(x); r2 = f(x); break; } case 1: { function_ref<std::uint32_t(std::uint32_t) const> f{o}; r1 = f(x); r2 = f(x); as_const = true; break; } case 2: { function_ref<std::uint32_t(std::uint32_t)> f{c}; r1 = f(x); r2 = f(x); as_const = true; break; } case 3: { function_ref<std::uint32_t(std::uint32_t) const> f{c}; r1 = f(x); r2 = f(x); as_const = true; break; }
		case 4: { function_ref<std::uint32_t(std::uint32_t) noexcept> f{p}; r1 = f(x); r2 = f(x); o.n = p.n; o.k = p.k; break; } case 5: { function_ref<std::uint32_t(std::uint32_t) const noexcept> f{p}; r1 = f(x); r2 = f(x); as_const = true; o.n = p.n; o.k = p.k; break; } case 6: { function_ref<std::uint32_t(std::uint32_t)> f{o}; auto g{f}; r1 = f(x); r2 = g(x); break; } case 7: { both q; function_ref<std::uint32_t(std::uint32_t)> f{q}; function_ref<std::uint32_t(std::uint32_t)> g{o}; f = g; r1 = f(x); r2 = f(x); sx_assert(q.n == 0 && q.k == 0, "the former callable is not called"); break; }
		case 8: { both q; const function_ref<std::uint32_t(std::uint32_t)> g{o}; function_ref<std::uint32_t(std::uint32_t)> f{g}; r1 = g(x); r2 = f(x); break; } case 9: { both q; function_ref<std::uint32_t(std::uint32_t) const> g{q}; function_ref<std::uint32_t(std::uint32_t) const> f{o}; g = f; function_ref<std::uint32_t(std::uint32_t) const> h{g}; g = function_ref<std::uint32_t(std::uint32_t) const>{q}; r1 = h(x); r2 = f(x); as_const = true; sx_assert(q.n == 0 && q.k == 0, "the other callable is not called"); break; }
		case 10: { addressed a; function_ref<std::uint32_t(std::uint32_t)> f{a}; r1 = f(x); r2 = f(x); o.n = a.n; break; }
	}
	if(as_const) { sx_assert(o.n == 0 && o.k == 2, "the object is called as const"); sx_assert(r1 == 1000000 + x + 1 && r2 == 1000000 + x + 2, "result"); } else { sx_assert(o.n == 2 && o.k == 0, "the object is called as non-const"); sx_assert(r1 == x + 1 && r2 == x + 2, "result"); }
	{ over v; std::uint32_t y{x}; function_ref<const void *(std::uint32_t &)> f{v}; function_ref<const void *(const std::uint32_t &)> g{v}; function_ref<const void *(std::uint32_t)> k{v}; sx_assert(*static_cast<const char *>(f(y)) == 'l' && *static_cast<const char *>(g(y)) == 'c' && *static_cast<const char *>(k(y)) == 'r', "value category of arguments"); }
	sx_note("r", r1); sx_reach("end");
}
SX_HARNESS(h_objects) { // classes as arguments and results: lvalues are copied once, rvalues only moved, nothing leaks
	{
		auto x = sx_u16("x"); tracked t{x}; counts = {};
		switch(sx_pick("case", 7)) {
			case 0: { auto l = [](tracked a) { return a.get(); }; function_ref<std::uint16_t(tracked)> f{l}; sx_assert(f(t) == x && counts.copies == 1 && t.v == x && !t.moved, "an lvalue is copied once"); break; } case 1: { auto l = [](tracked a) { return a.get(); }; function_ref<std::uint16_t(tracked)> f{l}; sx_assert(f(std::move(t)) == x && counts.copies == 0 && t.moved, "an rvalue is moved"); break; } case 2: { auto l = [](tracked a) { return a.get(); }; function_ref<std::uint16_t(tracked)> f{l}; sx_assert(f(tracked{x}) == x && counts.copies == 0, "a temporary is moved"); break; }
			case 3: { auto l = [](const tracked & a) { return a.get(); }; function_ref<std::uint16_t(const tracked &)> f{l}; sx_assert(f(t) == x && counts.copies == 0 && counts.moves == 0, "a reference is passed on"); break; } case 4: { auto l = [](std::uint16_t y) { return tracked{y}; }; function_ref<tracked(std::uint16_t)> f{l}; auto r = f(x); sx_assert(r.get() == x && !r.moved && counts.copies == 0, "result"); break; } case 5: { auto l = [](tracked a, tracked b) { a.v ^= b.v; return a; }; function_ref<tracked(tracked, tracked)> f{l}; auto r = f(t, tracked{3}); sx_assert(r.get() == (x ^ 3) && t.get() == x && counts.copies == 1, "two arguments"); break; } case 6: { auto l = [](tracked & a) -> tracked & { a.v = 7; return a; }; function_ref<tracked &(tracked &)> f{l}; sx_assert(&f(t) == &t && t.get() == 7 && counts.copies == 0 && counts.moves == 0, "result by reference"); break; }
		}
		sx_assert(sx_life_count() == 1, "alive");
	}
	sx_assert(sx_life_count() == 0, "all destroyed"); sx_reach("end");
}
SX_HARNESS(h_object_rvalue_reference) {
	{ auto x = sx_u16("x"); tracked t{x}; counts = {}; auto l = [](tracked && a) { tracked b{std::move(a)}; return b.get(); }; function_ref<std::uint16_t(tracked &&)> f{l}; sx_assert(f(std::move(t)) == x && counts.copies == 0 && counts.moves == 1 && t.moved, "an rvalue reference is passed on"); over v; std::uint32_t y{x}; function_ref<const void *(std::uint32_t &&)> h{v}; sx_assert(*static_cast<const char *>(h(std::move(y))) == 'r', "value category of arguments"); }
	sx_assert(sx_life_count() == 0, "all destroyed"); sx_reach("end");
}
SX_HARNESS(h_throw) { // exceptions pass through signatures that are not noexcept
	auto x = sx_u8("x"); auto l = [&](std::uint8_t y) { ++calls; if(y & 1) throw user_error{y}; return y; }; calls = 0; function_ref<std::uint32_t(std::uint8_t)> f{l}; int code{-1}; std::uint32_t r{0}; try { r = f(x); } catch(const user_error & e) { code = e.code; } if(x & 1) { sx_assert(code == x, "exception"); sx_reach("thrown"); } else sx_assert(code == -1 && r == x, "result"); sx_assert(calls == 1, "called once"); sx_reach("end");
}
SX_HARNESS(h_history) {
	using S = std::uint32_t(std::uint32_t); struct adder { std::uint32_t id; std::uint32_t n{0}; std::uint32_t operator()(std::uint32_t x) { ++n; return x + id; } }; adder o[3]{{10}, {20}, {30}}; std::uint32_t want[3]{}; unsigned to[2]{0, 1}; function_ref<S> f[2]{o[0], o[1]}; auto x = sx_u32("x");
	for(unsigned i{0}; i < (SX_THOROUGH ? 5u : 3u); ++i) {
		auto w = sx_pick("which", 2);
		switch(sx_pick("op", 4)) { case 0: f[w] = f[1 - w]; to[w] = to[1 - w]; break; case 1: f[w] = function_ref<S>{o[2]}; to[w] = 2; break; case 2: std::swap(f[0], f[1]); std::swap(to[0], to[1]); break; case 3: { function_ref<S> t{f[w]}; f[w] = function_ref<S>{o[0]}; sx_assert(t(x) == x + o[to[w]].id, "copy"); ++want[to[w]]; to[w] = 0; break; } }
		for(int j{0}; j < 2; ++j) { sx_assert(f[j](x) == x + o[to[j]].id, "history: result"); ++want[to[j]]; } for(int j{0}; j < 3; ++j) sx_assert(o[j].n == want[j], "history: calls");
	}
	sx_reach("end");
}
// many and large parameters, large results, callables of any size and kind
struct block { std::uint64_t d[6]; }; struct odd_sized { std::uint8_t d[5]; };
struct large { std::uint64_t state[40]; std::uint64_t operator()(const block & b, odd_sized o) { state[39] += 1; return state[0] ^ b.d[5] ^ o.d[4]; } };
struct tiny { std::uint64_t operator()(const block & b, odd_sized o) const { return b.d[5] ^ o.d[4]; } };
static block whirl(block b, odd_sized o) { ++calls; for(auto & x : b.d) x += o.d[2]; return b; }
static std::uint64_t ten(std::uint8_t a, std::uint16_t b, std::uint32_t c, std::uint64_t d, bool e, const char * f, std::int8_t g, std::uint64_t & h, char16_t i, block j) { ++calls; h = d; return a + 3u * b + 5u * c + 7 * d + e + static_cast<std::uint8_t>(*f) + static_cast<std::uint64_t>(g) + i + j.d[3]; }
enum class shade : std::uint16_t {}; 
SX_HARNESS(h_wide) {
	calls = 0; block b; sx_bytes(&b, sizeof(b), "b"); odd_sized o; sx_bytes(&o, sizeof(o), "o"); auto x = sx_u64("x"); using S = std::uint64_t(const block &, odd_sized);
	switch(sx_pick("case", 12)) {
		case 0: { large l{}; l.state[0] = x; function_ref<S> f{l}; sx_assert(f(b, o) == (x ^ b.d[5] ^ o.d[4]), "large callable"); sx_assert(l.state[39] == 1, "the object itself is called"); break; } case 1: { tiny t; function_ref<S> f{t}; sx_assert(f(b, o) == (b.d[5] ^ o.d[4]), "empty callable"); break; } case 2: { const tiny t; function_ref<std::uint64_t(const block &, odd_sized) const> f{t}; sx_assert(f(b, o) == (b.d[5] ^ o.d[4]), "empty callable"); break; }
		case 3: { function_ref<block(block, odd_sized)> f{whirl}; auto r = f(b, o); bool ok{true}; for(int i{0}; i < 6; ++i) ok &= r.d[i] == b.d[i] + o.d[2]; sx_assert(ok && calls == 1, "large result"); break; } case 4: { auto l = [&](block & p, const block & q) -> block & { p = q; return p; }; function_ref<block &(block &, const block &)> f{l}; block c{}; sx_assert(&f(c, b) == &c && std::memcmp(&c, &b, sizeof(b)) == 0, "large objects by reference"); break; }
		case 5: { function_ref f{ten}; std::uint64_t h{0}; auto r = f(o.d[0], 2, static_cast<std::uint32_t>(x), x, o.d[1] & 1, reinterpret_cast<const char *>(&o.d[3]), static_cast<std::int8_t>(o.d[4]), h, u'c', b); sx_assert(r == o.d[0] + 6u + 5u * static_cast<std::uint32_t>(x) + 7 * x + (o.d[1] & 1) + o.d[3] + static_cast<std::uint64_t>(static_cast<std::int8_t>(o.d[4])) + u'c' + b.d[3] && h == x && calls == 1, "ten arguments"); break; }
		case 6: { auto l = [&](shade s) { return static_cast<shade>(static_cast<std::uint16_t>(s) + 1); }; function_ref<shade(shade)> f{l}; sx_assert(static_cast<std::uint16_t>(f(static_cast<shade>(x))) == static_cast<std::uint16_t>(x + 1), "enumerations"); break; } case 7: { auto l = [&](std::uint64_t * p) { *p = x; return p + 1; }; std::uint64_t a[2]{}; function_ref<std::uint64_t *(std::uint64_t *)> f{l}; sx_assert(f(a) == a + 1 && a[0] == x, "pointers"); break; } case 8: { auto l = [&](bool p) { return !p; }; function_ref<bool(bool)> f{l}; sx_assert(f(x & 1) == !(x & 1), "bool"); break; }
		case 9: { auto l = [&](std::uint64_t p) { ++calls; return p + x; }; function_ref<std::uint64_t(std::uint64_t)> f{l}; function_ref<std::uint32_t(std::uint16_t)> g{f}; sx_assert(g(7) == static_cast<std::uint32_t>(7 + x) && calls == 1, "a reference to a reference of another signature"); const auto k{f}; function_ref<std::uint8_t(std::uint8_t) const> h{k}; sx_assert(h(1) == static_cast<std::uint8_t>(1 + x) && calls == 2, "a reference to a reference of another signature"); break; }
		case 10: { std::uint64_t (*p)(const block &, odd_sized) = [](const block & q, odd_sized r) { ++calls; return q.d[1] + r.d[1]; }; function_ref<S> f{p}; p = nullptr; sx_assert(f(b, o) == b.d[1] + o.d[1] && calls == 1, "function pointer"); break; } case 11: { auto deep = [&](auto & self, function_ref<std::uint64_t(std::uint64_t)> f, unsigned n) -> std::uint64_t { if(n == 0) return f(x); auto l = [&](std::uint64_t y) { ++calls; return f(y) + 1; }; return self(self, l, n - 1); }; auto base = [](std::uint64_t y) { ++calls; return y; }; sx_assert(deep(deep, base, 6) == x + 6 && calls == 7, "nested references"); break; }
	}
	sx_reach("end");
}
template<typename T> static void returns() { auto x = sx_u64("x"); T v{}; std::memcpy(&v, &x, sizeof(T) < 8 ? sizeof(T) : 8); auto l = [&] { return v; }; function_ref<T()> f{l}; auto r = f(); sx_assert(std::memcmp(&r, &v, sizeof(T)) == 0, "result"); auto k = [&](T y) { v = y; }; T w{}; function_ref<void(T)> g{k}; g(w); sx_assert(std::memcmp(&w, &v, sizeof(T)) == 0, "argument"); }
SX_HARNESS(h_sizes) { switch(sx_pick("type", 8)) { case 0: returns<std::uint8_t>(); break; case 1: returns<std::int64_t>(); break; case 2: returns<block>(); break; case 3: returns<odd_sized>(); break; case 4: returns<void *>(); break; case 5: returns<std::pair<std::uint64_t, std::uint64_t>>(); break; case 6: returns<std::pair<std::uint32_t, std::uint32_t>>(); break; case 7: returns<wchar_t>(); break; } sx_reach("end"); }
// what can be bound: only what can be called as the signature says
struct only_mutable { std::uint32_t operator()(std::uint32_t x) { return x; } }; struct only_const { std::uint32_t operator()(std::uint32_t x) const { return x; } }; struct only_quiet { std::uint32_t operator()(std::uint32_t x) const noexcept { return x; } };
struct either { std::uint32_t operator()(std::uint32_t x) { return x + 1; } std::uint32_t operator()(std::uint32_t x) const { return x + 2; } };
SX_HARNESS(h_bindable) {
	using P = function_ref<std::uint32_t(std::uint32_t)>; using C = function_ref<std::uint32_t(std::uint32_t) const>; using N = function_ref<std::uint32_t(std::uint32_t) noexcept>; using CN = function_ref<std::uint32_t(std::uint32_t) const noexcept>;
	sx_assert(std::is_constructible_v<P, only_mutable &> && std::is_constructible_v<P, only_const &> && std::is_constructible_v<P, const only_const &> && std::is_constructible_v<C, only_const &> && std::is_constructible_v<C, const only_const &> && std::is_constructible_v<N, only_quiet &> && std::is_constructible_v<CN, const only_quiet &>, "callables");
	sx_assert(!std::is_constructible_v<C, only_mutable &> && !std::is_constructible_v<CN, only_mutable &> && !std::is_constructible_v<P, const only_mutable &>, "a const signature or object needs a const call operator");
	sx_assert(!std::is_constructible_v<N, only_const &> && !std::is_constructible_v<CN, only_const &> && !std::is_constructible_v<N, std::uint32_t(*)(std::uint32_t)>, "a noexcept signature needs a noexcept callable");
	sx_assert(!std::is_constructible_v<P, std::uint32_t(&)(std::uint32_t *)> && !std::is_constructible_v<P, int &> && !std::is_constructible_v<P, either *&> && !std::is_constructible_v<P, void(&)(std::uint32_t)>, "callables of other signatures");
	sx_assert(noexcept(std::declval<N &>()(1u)) && noexcept(std::declval<const CN &>()(1u)) && !noexcept(std::declval<P &>()(1u)), "noexcept");
	auto x = sx_range("x", 0, 1000000); auto y = static_cast<std::uint32_t>(x); either e; const either ce{}; P p{e}, pc{ce}; C c{e}, cc{ce}; sx_assert(p(y) == y + 1 && pc(y) == y + 2 && c(y) == y + 2 && cc(y) == y + 2, "which call operator"); p = pc; sx_assert(p(y) == y + 2, "assigned"); sx_reach("end");
}
// the value category of arguments is kept for every kind of signature and result, that of results too
static std::uint16_t seen; struct taker { void take(const tracked & a) const { seen = a.get(); } };
template<typename R> struct by_value : taker { R operator()(tracked a) const noexcept { take(a); if constexpr(!std::is_void_v<R>) return R(a.get()); } };
template<typename R> struct by_rvalue : taker { R operator()(tracked && a) const noexcept { tracked b{std::move(a)}; take(b); if constexpr(!std::is_void_v<R>) return R(b.get()); } };
template<typename R> static R function_by_value(tracked a) noexcept { seen = a.get(); if constexpr(!std::is_void_v<R>) return R(a.get()); }
template<typename F> static void handing(F && f, std::uint16_t x, bool rvalue) {
	tracked t{x}; seen = 0; counts = {}; auto k = sx_pick("argument", 3); if constexpr(std::is_invocable_v<F &, tracked &>) { if(k == 0) { f(t); sx_assert(counts.copies == 1 && !t.moved && t.get() == x, "an lvalue is copied once"); } }
	if(k == 1) { f(std::move(t)); sx_assert(counts.copies == 0 && t.moved && (!rvalue || counts.moves == 1), "an rvalue is moved"); } if(k == 2) { f(tracked{x}); sx_assert(counts.copies == 0, "a temporary is moved"); } if constexpr(!std::is_invocable_v<F &, tracked &>) { if(k == 0) return; } sx_assert(seen == x, "argument");
}
template<bool Rvalue, typename R, typename S> static void signatures(std::uint16_t x) { // R: of the signature, S: of the callable
	by_value<S> v; const by_value<S> c;
	if constexpr(Rvalue) { by_rvalue<S> r; switch(sx_pick("signature", 3)) { case 0: handing(function_ref<R(tracked &&)>{r}, x, true); break; case 1: handing(function_ref<R(tracked &&) const>{r}, x, true); break; case 2: { function_ref<R(tracked &&)> f{r}; auto g{f}; handing(function_ref<R(tracked &&)>{g}, x, true); break; } } }
	else switch(sx_pick("signature", 6)) { case 0: handing(function_ref<R(tracked)>{v}, x, false); break; case 1: handing(function_ref<R(tracked) const>{v}, x, false); break; case 2: handing(function_ref<R(tracked) noexcept>{v}, x, false); break; case 3: handing(function_ref<R(tracked) const noexcept>{c}, x, false); break; case 4: handing(function_ref<R(tracked)>{function_by_value<S>}, x, false); break; case 5: handing(function_ref<R(tracked) const noexcept>{function_by_value<S>}, x, false); break; }
}
template<bool Rvalue> static void categories() {
	{ auto x = sx_u16("x"); switch(sx_pick("result", 5)) { case 0: signatures<Rvalue, void, void>(x); break; case 1: signatures<Rvalue, std::uint16_t, std::uint16_t>(x); break; case 2: signatures<Rvalue, void, std::uint16_t>(x); break; case 3: signatures<Rvalue, std::int64_t, std::uint16_t>(x); break; case 4: signatures<Rvalue, tracked, tracked>(x); break; } }
	sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
SX_HARNESS(h_categories) { categories<false>(); }
SX_HARNESS(h_categories_rvalue) { categories<true>(); }
