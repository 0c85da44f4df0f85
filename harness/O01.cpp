// BOUND: one or two optionals of a trivial and of a lifetime-registered type, symbolic 16-bit values, each empty, engaged, reset or re-engaged before; every operation once from each such state; all pairs of states of optionals of 12 further value types (numbers, bool, pointer, large class, owner of memory, string, vector, empty class, optional); histories of 4 (thorough: 5) operations on two optionals
// OUTSIDE: longer operation sequences, other value types
#include "types.hpp"
#include "ptl/optional.hpp"
using namespace sx; using ptl::optional;

struct state { bool has{false}; std::uint16_t v{0}; };
template<typename T> void check(const optional<T> & o, const state & s, const char * what) {
	sx_assert(o.has_value() == s.has, what); sx_assert(static_cast<bool>(o) == s.has, what);
	if(s.has) { sx_assert(val(*o) == s.v, what); sx_assert(val(o.value()) == s.v, "value"); sx_assert(o.operator->() == std::addressof(*o) && std::addressof(o.value()) == std::addressof(*o), "* , -> and value designate one object"); }
	else { bool t{false}; try { (void)o.value(); } catch(const std::bad_optional_access &) { t = true; } sx_assert(t, "value() of an empty optional"); }
	sx_assert(val(o.value_or(T(std::uint16_t{0x1234}))) == (s.has ? s.v : 0x1234), "value_or");
}
template<typename T> void fill(optional<T> & o, state & s, const char * name) {
	auto how = sx_pick("state", 4); if(how == 0) return; s.v = sx_u16(name); s.has = true;
	switch(how) { case 1: o = T(s.v); break; case 2: o.emplace(std::uint16_t{77}); o.reset(); s.has = false; break; case 3: o = T(std::uint16_t{5}); o = std::nullopt; o.emplace(s.v); break; }
}
template<typename T> void construct() {
	state e, s; s.has = true; s.v = sx_u16("v"); T v(s.v); const T & cv = v; bool moved{false};
	switch(sx_pick("how", 9)) {
		case 0: { optional<T> o; check(o, e, "default"); break; } case 1: { optional<T> o{std::nullopt}; check(o, e, "nullopt"); break; }
		case 2: { optional<T> o{cv}; check(o, s, "from a value"); break; } case 3: { optional<T> o{std::move(v)}; check(o, s, "from an rvalue"); moved = true; break; }
		case 4: { optional<T> o{std::in_place, s.v}; check(o, s, "in place"); break; }
		case 5: { optional<T> a; state m; fill(a, m, "a"); optional<T> o{static_cast<const optional<T> &>(a)}; check(o, m, "copy"); check(a, m, "source of a copy"); if(m.has) { *o = T(std::uint16_t(m.v + 1)); check(a, m, "a copy is independent"); } break; }
		case 6: { optional<T> a; state m; fill(a, m, "a"); optional<T> o{std::move(a)}; check(o, m, "move"); sx_assert(a.has_value() == m.has, "moved from"); a = T(std::uint16_t{9}); check(a, state{true, 9}, "assigning to a moved from optional"); check(o, m, "move"); break; }
		case 7: { optional<T> o = v; check(o, s, "from a value"); break; } case 8: { optional<T> o = std::nullopt; check(o, e, "nullopt"); break; }
	}
	if(!moved) sx_assert(val(v) == s.v, "the source value changed"); sx_note("v", s.v);
}
template<typename T> void one() {
	optional<T> o; state s; fill(o, s, "o"); auto x = sx_u16("x"); T v(x); const T & cv = v; optional<T> * r{&o}; bool moved{false};
	switch(sx_pick("op", 12)) {
		case 0: r = &(o = cv); s = {true, x}; break; case 1: r = &(o = std::move(v)); s = {true, x}; moved = true; break;
		case 2: r = &(o = std::nullopt); s.has = false; break; case 3: o.reset(); s.has = false; break;
		case 4: { auto & q = o.emplace(x); s = {true, x}; sx_assert(std::addressof(q) == std::addressof(*o), "result of emplace"); break; }
		case 5: { auto & q = o.emplace(cv); s = {true, x}; sx_assert(std::addressof(q) == std::addressof(*o), "result of emplace"); break; }
		case 6: { auto & a = o; o = static_cast<const optional<T> &>(a); break; } case 7: { auto & a = o; o = std::move(a); break; }
		case 8: o.swap(o); break; case 9: { using std::swap; swap(o, o); break; }
		case 10: if(s.has) { *o = T(x); s.v = x; } break;
		case 11: if(s.has) { auto a = sx_pick("how", 3); if(a == 1) o.emplace(*o); else if(a) o.emplace(std::move(*o)); else o = *static_cast<const optional<T> &>(o); } break;
	}
	sx_assert(r == &o, "result"); check(o, s, "operation on an optional"); if(!moved) sx_assert(val(v) == x, "the argument changed"); sx_note("has", o.has_value()); if(o) sx_note("value", val(*o));
}
template<typename T> void two() {
	optional<T> o, p; state s, t; fill(o, s, "o"); fill(p, t, "p"); auto op = sx_pick("op", 4); bool moved{false}; optional<T> * r{&o};
	switch(op) {
		case 0: r = &(o = static_cast<const optional<T> &>(p)); s = t; break; case 1: r = &(o = std::move(p)); s = t; moved = true; break;
		case 2: o.swap(p); std::swap(s, t); break; case 3: { using std::swap; swap(o, p); std::swap(s, t); break; }
	}
	sx_assert(r == &o, "result"); check(o, s, "left optional"); if(moved) { sx_assert(p.has_value() == t.has, "moved from"); p = T(std::uint16_t{3}); t = {true, 3}; } check(p, t, "right optional");
	if(s.has) { *o = T(std::uint16_t{0xABC}); s.v = 0xABC; } check(p, t, "optionals are independent"); check(o, s, "left optional"); p.reset(); check(o, s, "optionals are independent");
}
template<typename T> void access() {
	optional<T> o; state s; fill(o, s, "o"); auto x = sx_u16("x"); const auto & c = o;
	if(s.has) {
		sx_assert(std::addressof(*c) == std::addressof(*o) && std::addressof(c.value()) == std::addressof(*o) && c.operator->() == std::addressof(*o) && o.operator->() == std::addressof(*o), "one object");
		switch(sx_pick("how", 9)) {
			case 0: *o = T(x); s.v = x; break; case 1: o.value() = T(x); s.v = x; break; case 2: *o.operator->() = T(x); s.v = x; break;
			case 3: { T && q = *std::move(o); sx_assert(std::addressof(q) == std::addressof(*c), "rvalue access"); break; } case 4: { T && q = std::move(o).value(); sx_assert(std::addressof(q) == std::addressof(*c), "rvalue access"); break; }
			case 5: { const T && q = *std::move(c); sx_assert(std::addressof(q) == std::addressof(*c), "rvalue access"); break; } case 6: { const T && q = std::move(c).value(); sx_assert(std::addressof(q) == std::addressof(*c), "rvalue access"); break; }
			case 7: { T q = std::move(o).value_or(T(x)); sx_assert(val(q) == s.v, "value_or of an rvalue"); if constexpr(is_tracked<T>) { sx_assert(o->moved, "value_or of an rvalue moves"); o = T(s.v); } break; }
			case 8: { T q = c.value_or(x); sx_assert(val(q) == s.v, "value_or with a convertible default"); break; }
		}
	} else switch(sx_pick("how", 5)) {
			case 0: { bool t{false}; try { (void)o.value(); } catch(const std::bad_optional_access &) { t = true; } sx_assert(t, "value"); break; } case 1: { bool t{false}; try { (void)std::move(o).value(); } catch(const std::bad_optional_access &) { t = true; } sx_assert(t, "value"); break; } case 2: { bool t{false}; try { (void)std::move(c).value(); } catch(const std::bad_optional_access &) { t = true; } sx_assert(t, "value"); break; }
			case 3: { T d(x); T q = std::move(o).value_or(std::move(d)); sx_assert(val(q) == x, "value_or of an empty rvalue"); break; } case 4: { T d(x); T q = c.value_or(d); sx_assert(val(q) == x && val(d) == x, "value_or of an empty optional"); break; }
	}
	check(o, s, "access");
}
SX_HARNESS(h_construct) { if(sx_pick("type", 2)) construct<tracked>(); else construct<std::uint16_t>(); sx_reach("end"); }
SX_HARNESS(h_one) { if(sx_pick("type", 2)) one<tracked>(); else one<std::uint16_t>(); sx_reach("end"); }
SX_HARNESS(h_two) { if(sx_pick("type", 2)) two<tracked>(); else two<std::uint16_t>(); sx_reach("end"); }
SX_HARNESS(h_access) { if(sx_pick("type", 2)) access<tracked>(); else access<std::uint16_t>(); sx_reach("end"); }
// histories: every sequence of a few operations on two optionals
template<typename T> void history() {
	optional<T> o[2]; state s[2];
	for(unsigned i{0}; i < (SX_THOROUGH ? 5u : 4u); ++i) {
		auto w = sx_pick("which", 2); auto & a = o[w]; auto & b = o[1 - w]; auto & x = s[w]; auto & y = s[1 - w];
		switch(sx_pick("op", 7)) {
			case 0: { auto v = sx_u16("v"); a = T(v); x = {true, v}; break; } case 1: { auto v = sx_u16("v"); a.emplace(v); x = {true, v}; break; } case 2: a.reset(); x.has = false; break;
			case 3: a = static_cast<const optional<T> &>(b); x = y; break; case 4: { a = std::move(b); x = y; if(y.has) { *b = T(std::uint16_t{1}); y.v = 1; } break; } case 5: a.swap(b); std::swap(x, y); break; case 6: { optional<T> t{a}; a = std::move(t); break; }
		}
		for(int k{0}; k < 2; ++k) { sx_assert(o[k].has_value() == s[k].has, "history"); if(s[k].has) sx_assert(val(*o[k]) == s[k].v, "history"); } alive<T>(s[0].has + s[1].has);
	}
}
SX_HARNESS(h_history) { history<tracked>(); sx_reach("end"); }

// values of many kinds
template<typename T> struct any_state { bool has; std::uint8_t v; };
template<typename T> static void k_is(const optional<T> & o, const any_state<T> & s, const char * what) {
	sx_assert(o.has_value() == s.has && static_cast<bool>(o) == s.has && (o == std::nullopt) == !s.has && (std::nullopt != o) == s.has, what); if(s.has) { sx_assert(is(*o, s.v), what); sx_assert(std::addressof(o.value()) == std::addressof(*o), what); sx_assert(o.operator->() == std::addressof(*o) && const_cast<optional<T> &>(o).operator->() == std::addressof(*o), "->"); } else { bool t{false}; try { (void)o.value(); } catch(const std::bad_optional_access &) { t = true; } sx_assert(t, what); }
	T d = o.value_or(make<T>(std::is_same_v<T, bool> ? 1 : 77)); sx_assert(is(d, s.has ? s.v : std::is_same_v<T, bool> ? 1 : 77), "value_or");
}
template<typename T> static any_state<T> k_fill(optional<T> & o, const char * name, std::size_t i) { any_state<T> s{false, value<T>(name, i)}; T t = make<T>(s.v); switch(sx_pick("state", 4)) { case 0: break; case 1: o = t; s.has = true; break; case 2: o = t; o.reset(); break; case 3: o.emplace(make<T>(s.v)); s.has = true; break; } return s; }
SX_HARNESS(h_types) {
	{
		each_type([](auto t) {
			using T = decltype(t); optional<T> o, p; auto s = k_fill(o, "o", 1), q = k_fill(p, "p", 2); auto x = value<T>("x", 3); T val = make<T>(x); const T & c = val; k_is(o, s, "state"); optional<T> * r{&o};
			switch(sx_pick("op", 17)) {
				case 0: r = &(o = c); s = {true, x}; break; case 1: r = &(o = T{val}); s = {true, x}; break; case 2: sx_assert(std::addressof(o.emplace(c)) == std::addressof(*o), "result of emplace"); s = {true, x}; break; case 3: o.emplace(T{val}); s = {true, x}; break; case 4: r = &(o = std::nullopt); s.has = false; break; case 5: o.reset(); s.has = false; break;
				case 6: r = &(o = static_cast<const optional<T> &>(p)); s = q; break; case 7: { optional<T> m{p}; r = &(o = std::move(m)); s = q; break; } case 8: o.swap(p); std::swap(s, q); break; case 9: swap(o, p); std::swap(s, q); break; case 10: { optional<T> m{static_cast<const optional<T> &>(o)}; k_is(m, s, "copy"); o = c; k_is(m, s, "copies are independent"); s = {true, x}; break; } case 11: { optional<T> m{std::move(o)}; k_is(m, s, "move"); o = std::move(m); break; }
				case 12: { optional<T> m{c}, n{T{val}}, k{std::in_place, c}; any_state<T> v{true, x}; k_is(m, v, "from a value"); k_is(n, v, "from an rvalue"); k_is(k, v, "in place"); break; } case 13: { auto & self = o; o = self; o = std::move(self); o.swap(self); break; } case 14: if(s.has) { *o = c; s.v = x; } break; case 15: if(s.has) { T got = *std::move(o); sx_assert(is(got, s.v), "moved out"); o = got; } break; case 16: { T d = std::move(o).value_or(val); sx_assert(is(d, s.has ? s.v : x), "value_or"); if(s.has) o = d; break; }
			}
			sx_assert(r == &o, "result"); k_is(o, s, "operation"); k_is(p, q, "other optional"); sx_assert(is(val, x), "the argument changed");
		});
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
SX_HARNESS(h_nested) { // an empty optional is a value, too
	using I = optional<std::uint16_t>; using O = optional<I>; auto x = sx_u16("x"); O o; std::size_t m{0}; std::uint16_t v{0}; // 0 empty, 1 holding an empty one, 2 holding x
	auto put = [&](O & p, std::size_t k) { switch(k) { case 0: p.reset(); break; case 1: p.emplace(); break; case 2: p = I{x}; break; } }; auto is_in = [&](const O & p, std::size_t k) { sx_assert(p.has_value() == (k != 0), "outer"); if(k) { sx_assert(p->has_value() == (k == 2), "inner"); if(k == 2) sx_assert(**p == x, "value"); } };
	for(int i{0}; i < 3; ++i) { m = sx_pick("put", 3); put(o, m); is_in(o, m); } (void)v; O c{o}; is_in(c, m); O d{std::move(c)}; is_in(d, m); auto k = sx_pick("other", 3); O e; put(e, k); e.swap(d); is_in(e, m); is_in(d, k); sx_assert((e == d) == (m == k) && (e < d) == (m < k) && (e != d) == (m != k), "comparison"); e = d; is_in(e, k); if(m == 2) { **o = 5; sx_assert(o->value() == 5 && o.value().value() == 5, "write"); *o = std::nullopt; is_in(o, 1); } sx_reach("end");
}
// what values compare like plays no role when they are exchanged or assigned
SX_HARNESS(h_alike) {
	using P = partial<0>; using Q = ptl::optional<P>; P::rel = static_cast<std::uint8_t>(sx_range("relation", 0, 4)); Q a{P{1}}, b{P{2}}; const Q c{P{2}}; P v{2};
	switch(sx_pick("op", 7)) { case 0: a.swap(b); sx_assert(a->who == 2 && b->who == 1, "swap"); break; case 1: a = c; sx_assert(a->who == 2, "copy"); break; case 2: a = std::move(b); sx_assert(a->who == 2, "move"); break; case 3: a = std::as_const(v); sx_assert(a->who == 2, "value"); break; case 4: a = P{2}; sx_assert(a->who == 2, "value"); break; case 5: a.emplace(v); sx_assert(a->who == 2, "emplace"); break; case 6: sx_assert(a.value_or(v).who == 1 && Q{}.value_or(v).who == 2, "value_or"); break; }
	sx_reach("end");
}
