// BOUND: one or two optionals of a lifetime-registered type, symbolic values, each empty, engaged, reset or re-engaged before; every operation with every single copy, construction or conversion of the value failing or none
// BOUND: histories of 3 (thorough: 4) operations on two optionals of values of 5 sizes (16 to 312 bytes) that know their own address
// OUTSIDE: longer operation sequences, values whose move or destructor throws (rejected by the library)
#define SX_TYPES_APART
#include "types.hpp"
#include "ptl/optional.hpp"
using namespace sx; using T = tracked; using O = ptl::optional<T>;

struct state { bool has{false}; std::uint16_t v{0}; };
static void fill(O & o, state & s, const char * name) {
	auto how = sx_pick("state", 4); if(how == 0) return; s.v = sx_u16(name); s.has = true;
	switch(how) { case 1: o = T(s.v); break; case 2: o.emplace(std::uint16_t{77}); o.reset(); s.has = false; break; case 3: o = T(std::uint16_t{5}); o = std::nullopt; o.emplace(s.v); break; }
}
static void is(const O & o, const state & s, const char * what) { sx_assert(o.has_value() == s.has, what); if(s.has) { sx_assert(val(*o) == s.v, what); sx_assert(!o->moved, what); } }
static void arm() { fuse.copies = static_cast<int>(sx_pick("copies", 3)) - 1; fuse.defaults = static_cast<int>(sx_pick("constructions", 3)) - 1; }
static void disarm() { fuse = {}; }

// engaged optionals keep a live value: the old one for emplace and reset-like operations, for assignment whatever the value's assignment leaves
SX_HARNESS(h_change) {
	{
		O o; state s; fill(o, s, "o"); auto x = sx_u16("x"); T v(x); auto live = sx_life_count(); auto before = s; auto op = sx_pick("op", 9); state p; O other; if(op == 5 || op == 6) { fill(other, p, "p"); live = sx_life_count(); }
		arm();
		auto t = outcome([&] {
			switch(op) {
				case 0: o = static_cast<const T &>(v); s = {true, x}; break; case 1: o = std::move(v); s = {true, x}; break; case 2: o.emplace(x); s = {true, x}; break; case 3: o.emplace(static_cast<const T &>(v)); s = {true, x}; break; case 4: o.emplace(x, std::uint16_t{0}); s = {true, x}; break;
				case 5: o = static_cast<const O &>(other); s = p; break; case 6: o = std::move(other); s = p; break; case 7: o = x; s = {true, x}; break; case 8: if(before.has) { o.emplace(static_cast<const T &>(*o)); } break;
			}
		});
		disarm(); auto gone = live - before.has;
		if(t == Thrown::none) { is(o, s, "operation on an optional"); sx_reach("done"); }
		else { sx_assert(t == Thrown::user, "the exception reaches the caller"); sx_assert(o.has_value() == before.has, "engaged state after an exception"); if(before.has && op != 0 && op != 1 && op != 5) is(o, before, "value after an exception"); sx_reach("failed"); }
		sx_assert(sx_life_count() == gone + o.has_value(), "exactly the value of an engaged optional is alive"); if(op == 5 || op == 6) sx_assert(other.has_value() == p.has, "the source keeps its state");
		sx_note("has", o.has_value()); o = T(std::uint16_t{4}); is(o, {true, 4}, "usable afterwards"); o.reset(); sx_assert(sx_life_count() == gone, "reset destroys the value"); o.reset(); sx_assert(sx_life_count() == gone, "reset destroys the value");
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_construct) {
	{
		state s; O a; fill(a, s, "a"); auto x = sx_u16("x"); T v(x); auto live = sx_life_count(); auto op = sx_pick("op", 8); bool has{false}; arm();
		auto t = outcome([&] {
			switch(op) {
				case 0: { O o{static_cast<const T &>(v)}; has = true; sx_assert(sx_life_count() == live + 1, "alive"); is(o, {true, x}, "construction"); break; } case 1: { O o{std::move(v)}; sx_assert(sx_life_count() == live + 1, "alive"); is(o, {true, x}, "construction"); break; }
				case 2: { O o{std::in_place, x}; sx_assert(sx_life_count() == live + 1, "alive"); is(o, {true, x}, "construction"); break; } case 3: { O o{std::in_place}; sx_assert(sx_life_count() == live + 1, "alive"); is(o, {true, 0}, "construction"); break; } case 4: { O o{static_cast<const O &>(a)}; sx_assert(sx_life_count() == live + s.has, "alive"); is(o, s, "copy"); break; }
				case 5: { O o{std::move(a)}; sx_assert(sx_life_count() == live + s.has, "alive"); is(o, s, "move"); break; } case 6: { auto q = static_cast<const O &>(a).value_or(x); sx_assert(val(q) == (s.has ? s.v : x), "value_or"); break; } case 7: { auto q = std::move(a).value_or(x); sx_assert(val(q) == (s.has ? s.v : x), "value_or"); break; }
			}
		});
		disarm(); sx_assert(t == Thrown::none || t == Thrown::user, "the exception reaches the caller"); sx_assert(sx_life_count() == live, "nothing stays alive"); sx_assert(a.has_value() == s.has, "the source keeps its state"); if(op != 5 && op != 7) is(a, s, "the source keeps its value"); if(t != Thrown::none) sx_reach("failed construction");
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_swap) {
	{
		O o, p; state s, t; fill(o, s, "o"); fill(p, t, "p"); fuse.copies = 0; fuse.defaults = 0; if(sx_pick("friend", 2)) { using std::swap; swap(o, p); } else o.swap(p); disarm(); // neither copies nor constructs anew
		is(o, t, "swap"); is(p, s, "swap"); sx_assert(sx_life_count() == std::size_t(s.has + t.has), "alive"); o = T(std::uint16_t{1}); p = T(std::uint16_t{2}); is(o, {true, 1}, "usable"); is(p, {true, 2}, "usable");
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
SX_HARNESS(h_history) {
	{
		O o[2]; state s[2]; unsigned thrown{0};
		for(unsigned i{0}; i < (SX_THOROUGH ? 4u : 3u); ++i) {
			auto w = sx_pick("which", 2); auto & a = o[w]; auto & b = o[1 - w]; auto & x = s[w]; auto & y = s[1 - w]; auto keep = x; T v(std::uint16_t(100 + i)); fuse.copies = static_cast<int>(sx_pick("copies", 2)) - 1;
			auto op = sx_pick("op", 6); auto r = outcome([&] { switch(op) { case 0: a = static_cast<const T &>(v); x = {true, std::uint16_t(100 + i)}; break; case 1: a.emplace(static_cast<const T &>(v)); x = {true, std::uint16_t(100 + i)}; break; case 2: a.reset(); x.has = false; break; case 3: a = static_cast<const O &>(b); x = y; break; case 4: a.swap(b); std::swap(x, y); break; case 5: { O t{a}; b = std::move(t); y = x; break; } } });
			disarm(); if(r != Thrown::none) { ++thrown; x = keep; if(x.has && (op == 0 || op == 3)) { sx_assert(a.has_value(), "history"); x.v = val(*a); } } for(int k{0}; k < 2; ++k) is(o[k], s[k], "history"); sx_assert(sx_life_count() == std::size_t(s[0].has + s[1].has + 1), "history: alive");
		}
		if(thrown) sx_reach("threw");
	}
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
// values of several sizes that know their address, without failures
template<typename T> static void sized() {
	{
		ptl::optional<T> o[2]; bool has[2]{}; std::uint8_t v[2]{};
		auto is = [&](int k, const char * what) { sx_assert(o[k].has_value() == has[k], what); if(has[k]) sx_assert(ty::is(*o[k], v[k]), what); };
		for(unsigned i{0}; i < (SX_THOROUGH ? 4u : SX_REDUCED ? 2u : 3u); ++i) {
			auto w = static_cast<int>(sx_pick("which", 2)), z = 1 - w; auto x = sx_u8("x"); T t(ty::make<T>(x));
			switch(sx_pick("op", 8)) { case 0: o[w] = static_cast<const T &>(t); has[w] = true; v[w] = x; break; case 1: o[w].emplace(x); has[w] = true; v[w] = x; break; case 2: o[w].reset(); has[w] = false; break; case 3: o[w] = static_cast<const ptl::optional<T> &>(o[z]); has[w] = has[z]; v[w] = v[z]; break; case 4: o[w].swap(o[z]); std::swap(has[0], has[1]); std::swap(v[0], v[1]); break; case 5: { ptl::optional<T> u{o[w]}; o[z] = std::move(u); has[z] = has[w]; v[z] = v[w]; break; } case 6: { ptl::optional<T> u{std::move(o[w])}; sx_assert(u.has_value() == has[w], "moved"); if(has[w]) sx_assert(ty::is(*u, v[w]), "moved"); o[w] = std::move(u); break; } case 7: { if(!has[w]) break; T u{std::move(o[w]).value()}; sx_assert(ty::is(u, v[w]), "value moved out"); o[w] = std::move(u); break; } }
			for(int k{0}; k < 2; ++k) is(k, "history of a large value"); sx_assert(sx_life_count() == std::size_t(has[0] + has[1] + 1), "history of a large value: alive");
		}
	}
	sx_assert(sx_life_count() == 0, "all values destroyed");
}
SX_HARNESS(h_sizes) { switch(sx_pick("size", SX_REDUCED ? 2 : 5)) { case 0: sized<ty::fixed<1>>(); break; case 1: sized<ty::fixed<40>>(); break; case 2: sized<ty::fixed<8>>(); break; case 3: sized<ty::fixed<16>>(); break; case 4: sized<ty::fixed<300>>(); break; } sx_reach("end"); }
