// BOUND: all pairs of empty and engaged optionals with symbolic 16-bit values, of a totally ordered type and of a partially ordered type (less, equal, greater, unordered or equivalent without being equal chosen by the solver)
// OUTSIDE: none for these types; other value types differ only in their comparison operators
#include "iters.hpp"
#include "ptl/optional.hpp"
using namespace sx; using ptl::optional;

// rank: empty is -1, everything else its value
template<typename L, typename R> void ordered(const L & l, const R & r, long a, long b) {
	bool eq = a == b, lt = a < b; sx_assert((l == r) == eq, "=="); sx_assert((l != r) == !eq, "!="); sx_assert((l < r) == lt, "<"); sx_assert((l <= r) == (lt || eq), "<="); sx_assert((l > r) == !(lt || eq), ">"); sx_assert((l >= r) == !lt, ">="); sx_note("less", lt);
}
template<typename T> static void rank(optional<T> & o, long & k, const char * name) { switch(sx_pick("state", 3)) { case 0: k = -1; break; case 1: { auto v = sx_u16(name); o = T(v); k = v; break; } case 2: o = T(sx_u16("stale")); o.reset(); k = -1; break; } }
template<typename T> static void values() {
	optional<T> l; long a; rank(l, a, "l");
	switch(sx_pick("with", 6)) {
		case 0: { optional<T> r; long b; rank(r, b, "r"); ordered(l, r, a, b); break; } case 1: ordered(l, l, a, a); break; case 2: ordered(l, std::nullopt, a, -1); break; case 3: ordered(std::nullopt, l, -1, a); break;
		case 4: { auto v = sx_u16("r"); ordered(l, T(v), a, v); break; } case 5: { auto v = sx_u16("r"); ordered(T(v), l, v, a); break; }
	}
}
SX_HARNESS(h_values) { if(sx_pick("type", 2)) values<int>(); else values<std::uint16_t>(); sx_reach("end"); }
// unordered values: both optionals engaged, one side engaged
SX_HARNESS(h_partial) {
	using P = partial<0>; P::rel = static_cast<std::uint8_t>(sx_range("relation", 0, 4)); optional<P> l{P{1}}, r{P{2}}, e;
	switch(sx_pick("form", 7)) { case 0: related(l, r, P::rel); break; case 1: related(l, P{2}, P::rel); break; case 2: related(P{1}, r, P::rel); break; case 3: related(e, r, 0); break; case 4: related(l, e, 2); break; case 5: related(e, P{2}, 0); break; case 6: related(P{1}, e, 2); break; }
	sx_reach("end");
}
