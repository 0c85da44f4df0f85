// BOUND: one or two variants of four alternatives (one trivial, three lifetime-registered ones of which one also has a throwing list constructor), each holding any alternative; every operation from each such state, with every pair of alternatives, with the first, second or no copy or construction throwing; histories of 3 (thorough: 4) operations, each of which may throw
// OUTSIDE: longer histories, other lists of alternatives
#include "vars.hpp"
using namespace sx;

// constructed from one number it cannot throw, from a list it may
struct listy {
	std::uint16_t v; std::uint16_t n;
	listy() : v{0}, n{0} { burn(fuse.defaults); sx_life_ctor(this); }
	explicit listy(const wide & w) noexcept : v{w.v}, n{9} { sx_life_ctor(this); }
	listy(int, int) : v{5}, n{2} { burn(fuse.defaults); sx_life_ctor(this); }
	listy(std::initializer_list<std::uint16_t> l) : v{l.size() ? *l.begin() : std::uint16_t{0}}, n{1} { burn(fuse.defaults); sx_life_ctor(this); }
	listy(std::uint16_t x) noexcept : v{x}, n{1} { sx_life_ctor(this); }
	listy(const listy & o) : v{o.v}, n{o.n} { sx_life_check(&o); burn(fuse.copies); sx_life_ctor(this); }
	listy(listy && o) noexcept : v{o.v}, n{o.n} { sx_life_check(&o); sx_life_ctor(this); o.v = 0xDEAD; }
	listy & operator=(const listy & o) { sx_life_check(this); sx_life_check(&o); if(fuse.copies == 0) v = 0xFA11; burn(fuse.copies); v = o.v; n = o.n; return *this; }
	listy & operator=(listy && o) noexcept { sx_life_check(this); sx_life_check(&o); v = o.v; n = o.n; o.v = 0xDEAD; return *this; }
	~listy() { sx_life_dtor(this); v = 0xBEEF; }
};
using W = ptl::variant<std::uint8_t, tracked, wide, listy>;
template<typename T> constexpr unsigned at_of = std::is_same_v<T, listy> ? 3 : rank_of<T>;
static std::uint16_t number(const listy & l) { sx_life_check(&l); return l.v; } template<typename T> static std::uint16_t number(const T & t) { return num(t); }
static std::size_t reg(unsigned at) { return at != 0; }
template<typename F> static void typed(unsigned at, F f) { switch(at) { case 0: f(static_cast<std::uint8_t *>(nullptr)); break; case 1: f(static_cast<tracked *>(nullptr)); break; case 2: f(static_cast<wide *>(nullptr)); break; default: f(static_cast<listy *>(nullptr)); } }
static void is(const W & v, const alt & m, const char * what) { unsigned at; std::uint16_t x; v.visit([&](const auto & y) { at = at_of<std::decay_t<decltype(y)>>; x = number(y); }); sx_assert(at == m.at, what); sx_assert(x == m.v, what); sx_assert(v.holds<std::uint8_t>() == (m.at == 0) && v.holds<tracked>() == (m.at == 1) && v.holds<wide>() == (m.at == 2) && v.holds<listy>() == (m.at == 3), what); }
static void fill(W & v, alt & m, const char * name) { m.at = static_cast<unsigned>(sx_pick("alternative", 4)); m.v = cut(m.at, sx_u16(name)); typed(m.at, [&](auto * p) { using T = std::remove_pointer_t<decltype(p)>; v = make<T>(m.v); }); }
static void arm() { switch(sx_pick("fuse", 4)) { case 0: break; case 1: fuse.copies = 0; break; case 2: fuse.defaults = 0; break; case 3: fuse.copies = 1; break; } }
static void disarm() { fuse = {}; }
static void after(W & v) { v = wide{std::uint16_t{3}}; is(v, {2, 3}, "usable afterwards"); v.emplace<tracked>(std::uint16_t{4}); is(v, {1, 4}, "usable afterwards"); }

SX_HARNESS(h_construct) {
	{
		auto at = static_cast<unsigned>(sx_pick("type", 4)); auto x = cut(at, sx_u16("x"));
		typed(at, [&](auto * p) {
			using T = std::remove_pointer_t<decltype(p)>; T val = make<T>(x); W src{val}; const T & c = val; const W & s = src; std::size_t outside{2 * reg(at)}; arm(); auto how = sx_pick("how", 7);
			auto t = outcome([&] { switch(how) { case 0: { W v{c}; is(v, {at, x}, "value"); break; } case 1: { W v{s}; is(v, {at, x}, "copy"); break; } case 2: { W v{std::in_place_type<T>, c}; is(v, {at, x}, "in place"); break; } case 3: { W v{std::in_place_index<at_of<T>>}; is(v, {at, 0}, "in place"); break; } case 4: { W v{std::in_place_type<T>, static_cast<std::conditional_t<std::is_same_v<T, std::uint8_t>, std::uint8_t, std::uint16_t>>(x)}; is(v, {at, x}, "in place"); break; } case 5: { W v{std::move(val)}; is(v, {at, x}, "move"); break; } case 6: { W v{std::move(src)}; is(v, {at, x}, "move"); break; } } }); disarm();
			sx_assert(t == Thrown::none || t == Thrown::user, "what is thrown"); if(t == Thrown::user) sx_reach("constructor threw"); sx_assert(sx_life_count() == outside, "alive after construction"); if(how != 5) sx_assert(number(val) == x, "source"); if(how != 6) is(src, {at, x}, "source");
		});
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_one) {
	{
		W v; alt m; fill(v, m, "v"); auto at = static_cast<unsigned>(sx_pick("type", 4)); auto x = cut(at, sx_u16("x"));
		typed(at, [&](auto * p) {
			using T = std::remove_pointer_t<decltype(p)>; T val = make<T>(x); const T & c = val; alt n{at, x}; arm(); auto op = sx_pick("op", 13); if(op > 10 && m.at != at) op = 0;
			auto t = outcome([&] { switch(op) {
				case 0: v = c; break; case 1: v = val; break; case 2: v = std::move(val); break; case 3: v.emplace<T>(c); break; case 4: v.emplace<T>(std::move(val)); break; case 5: v.emplace<at_of<T>>(c); break; case 6: n.v = 0; v.emplace<T>(); break;
				case 7: v.emplace<T>(static_cast<std::conditional_t<std::is_same_v<T, std::uint8_t>, std::uint8_t, std::uint16_t>>(x)); break; case 8: if constexpr(std::is_same_v<T, tracked>) { n.v = x ^ 3; v.emplace<T>(x, std::uint16_t{3}); } else v.emplace<at_of<T>>(c); break;
				case 9: { wide w{x}; n.at = 3; n.v = x; v.emplace<listy>(w); break; } case 10: { n.v = 0; v.emplace<at_of<T>>(); break; } case 11: n = m; v = *v.get_if<T>(); break; case 12: n = m; v = std::move(*v.get_if<T>()); break;
			} }); disarm();
			sx_assert(t == Thrown::none || t == Thrown::user, "what is thrown"); if(t == Thrown::user) sx_reach("threw"); else m = n; if(t == Thrown::user && op == 7) sx_reach("list constructor threw");
			is(v, m, t == Thrown::user ? "a failed operation keeps the previous alternative" : "operation"); sx_assert(sx_life_count() == reg(m.at) + reg(at), "alive"); if(op != 2 && op != 4) sx_assert(number(val) == x, "the argument changed");
		});
		sx_note("at", m.at); after(v); sx_assert(sx_life_count() == 1, "alive");
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_two) {
	{
		W a, b; alt m, k; fill(a, m, "a"); fill(b, k, "b"); const W & c = b; arm(); bool moved{false}; auto op = sx_pick("op", 6);
		auto t = outcome([&] { switch(op) { case 0: a = c; break; case 1: a = b; break; case 2: a = std::move(b); break; case 3: a.swap(b); break; case 4: { W d{c}; is(d, k, "copy"); a = std::move(d); break; } case 5: { auto & self = a; a = self; a = std::move(self); a.swap(self); break; } } }); disarm();
		sx_assert(t == Thrown::none || t == Thrown::user, "what is thrown"); if(t == Thrown::user) sx_reach("copy threw"); else switch(op) { case 3: std::swap(m, k); break; case 5: break; case 2: moved = true; [[fallthrough]]; default: m = k; }
		is(a, m, t == Thrown::user ? "a failed assignment keeps the previous alternative" : "left"); if(!moved) is(b, k, "right"); sx_assert(sx_life_count() == reg(m.at) + reg(k.at), "alive"); after(b); sx_assert(sx_life_count() == reg(m.at) + 1, "alive"); is(a, m, "left"); after(a);
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_history) {
	{
		W o[2]; alt s[2];
		for(unsigned i{0}; i < (SX_THOROUGH ? 4u : 3u); ++i) {
			auto w = sx_pick("which", 2); auto & a = o[w]; auto & b = o[1 - w]; auto & x = s[w]; auto & y = s[1 - w]; auto k = static_cast<std::uint16_t>(10 + i); alt n;
			tracked t{k}; wide u{k}; listy l{k}; auto op = sx_pick("op", 8); if(op < 5 && sx_pick("fail", 2)) { fuse.copies = 0; fuse.defaults = 0; }
			auto r = outcome([&] { switch(op) { case 0: n = {1, k}; a = t; break; case 1: n = {2, k}; a.emplace<wide>(u); break; case 2: n = {3, k}; a.emplace<listy>(k); break; case 3: n = y; a = static_cast<const W &>(b); break; case 4: n = {3, 0}; a.emplace<listy>(); break; case 5: n = {0, k}; a = static_cast<std::uint8_t>(k); break; case 6: n = y; a.swap(b); y = x; break; case 7: n = y; a = std::move(b); b.emplace<std::uint8_t>(static_cast<std::uint8_t>(k)); y = {0, k}; break; } }); disarm(); if(r == Thrown::none) x = n; else sx_reach("history: threw");
			for(int j{0}; j < 2; ++j) is(o[j], s[j], "history"); sx_assert(sx_life_count() == 3 + reg(s[0].at) + reg(s[1].at), "history: alive");
		}
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
// a value that owns further variants: assigning one of those to its own owner
struct cell; struct link { cell * p; link() : p{nullptr} { sx_life_ctor(this); } explicit link(cell * c) : p{c} { sx_life_ctor(this); } link(const link & o); link(link && o) noexcept : p{o.p} { sx_life_check(&o); o.p = nullptr; sx_life_ctor(this); } link & operator=(link o) noexcept { std::swap(p, o.p); return *this; } ~link(); };
using N = ptl::variant<std::uint16_t, link>; struct cell { N v; };
link::link(const link & o) : p{nullptr} { sx_life_check(&o); if(o.p) p = new cell(*o.p); sx_life_ctor(this); } link::~link() { sx_life_dtor(this); delete p; }
SX_HARNESS(h_nested) {
	{
		auto x = sx_u16("x"); N v{link{new cell{N{link{new cell{N{x}}}}}}}; auto depth = sx_pick("depth", 2);
		if(depth == 0) { v = v.get<link>().p->v; sx_assert(v.holds<link>(), "assigned from a variant its value owns"); sx_assert(v.get<link>().p->v.get<std::uint16_t>() == x, "assigned from a variant its value owns"); sx_assert(sx_life_count() == 1, "alive"); v = v.get<link>().p->v; }
		else if(sx_pick("value", 2)) v = v.get<link>().p->v.get<link>().p->v.get<std::uint16_t>(); else v = v.get<link>().p->v.get<link>().p->v;
		sx_assert(v.holds<std::uint16_t>() && v.get<std::uint16_t>() == x, "assigned from a variant its value owns");
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
