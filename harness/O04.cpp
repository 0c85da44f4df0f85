// BOUND: one source object of each supported kind (object, ptl and std optional, raw pointer, optional_ref; const and non-const), empty or engaged, symbolic 16-bit values of plain, address-overloading and lifetime-registered types; every access and copy
// OUTSIDE: user-defined optional-like types other than the harness' own one
#include "iters.hpp"
#include "ptl/optional.hpp"
#include "ptl/optional_ref.hpp"
using namespace sx; using ptl::optional_ref;

struct thing { std::uint16_t v; unsigned touched{0}; thing(std::uint16_t x) : v{x} {} thing * operator&() { return nullptr; } const thing * operator&() const { return nullptr; } }; // overloads &
static std::uint16_t get(const thing & t) { return t.v; } static std::uint16_t get(const tracked & t) { sx_assert(!t.moved, "the object was moved from"); return t.get(); } static std::uint16_t get(const std::uint16_t & t) { return t; }
static void put(thing & t, std::uint16_t x) { t.v = x; } static void put(tracked & t, std::uint16_t x) { sx_life_check(std::addressof(t)); t.v = x; } static void put(std::uint16_t & t, std::uint16_t x) { t = x; }
template<typename T> struct handle { T * p; T & operator*() const { return *p; } explicit operator bool() const { return p; } }; // optional-like

template<typename T> void check(const optional_ref<T> & r, T * to, const char * what) {
	sx_assert(r.has_value() == (to != nullptr), what); sx_assert(static_cast<bool>(r) == (to != nullptr), what); using V = std::remove_const_t<T>; V d(std::uint16_t{0x777});
	if(to) { sx_assert(std::addressof(*r) == to && r.operator->() == to && std::addressof(r.value()) == to, what); sx_assert(get(r.value_or(d)) == get(*to), "value_or"); auto x = sx_u16("write"); if constexpr(!std::is_const_v<T>) { switch(sx_pick("through", 3)) { case 0: put(*r, x); break; case 1: put(r.value(), x); break; case 2: put(*r.operator->(), x); break; } sx_assert(get(*to) == x, "a write reaches the object"); } else { put(const_cast<V &>(*to), x); sx_assert(get(*r) == x && get(r.value()) == x, "a read sees the object"); } sx_note("v", get(*r)); }
	else { bool t{false}; try { (void)r.value(); } catch(const std::bad_optional_access &) { t = true; } sx_assert(t, "value() of an empty reference"); sx_assert(get(r.value_or(d)) == 0x777, "value_or"); sx_assert(get(r.value_or(std::uint16_t{0x888})) == 0x888, "value_or with a convertible default"); }
}
template<typename T> void copies(const optional_ref<T> & r, T * to) {
	switch(sx_pick("copy", 7)) {
		case 0: check(r, to, "constructed"); break; case 1: { optional_ref<T> c{r}; check(c, to, "copy"); break; } case 2: { optional_ref<T> c; c = r; check(c, to, "assigned"); break; } case 3: { optional_ref<const T> c{r}; check<const T>(c, to, "as const"); break; }
		case 4: { optional_ref<T> m{r}; optional_ref<T> c{m}; check(c, to, "copy of an lvalue"); break; } case 5: { std::remove_const_t<T> o(std::uint16_t{5}); optional_ref<T> c{o}; c = r; check(c, to, "rebinding"); sx_assert(get(o) == 5, "rebinding does not modify the object"); break; } case 6: { optional_ref<T> c{r}; c = std::nullopt; check<T>(c, nullptr, "nullopt assigned"); check(r, to, "constructed"); break; }
	}
}
template<typename V> void from() {
	auto x = sx_u16("v"); bool has = sx_pick("engaged", 2); V o(x), other(std::uint16_t{1});
	switch(sx_pick("source", 16)) {
		case 0: { optional_ref<V> r; copies<V>(r, nullptr); break; } case 1: { optional_ref<V> r{std::nullopt}; copies<V>(r, nullptr); break; } case 2: { optional_ref<V> r{o}; copies<V>(r, std::addressof(o)); break; } case 3: { const V & c = o; optional_ref<const V> r{c}; copies<const V>(r, std::addressof(o)); break; } case 4: { optional_ref<const V> r{o}; copies<const V>(r, std::addressof(o)); break; }
		case 5: { ptl::optional<V> s; if(has) s = o; optional_ref<V> r{s}; copies<V>(r, has ? std::addressof(*s) : nullptr); break; } case 6: { ptl::optional<V> s; if(has) s = o; optional_ref<const V> r{s}; copies<const V>(r, has ? std::addressof(*s) : nullptr); break; } case 7: { ptl::optional<V> s; if(has) s = o; const auto & c = s; optional_ref<const V> r{c}; copies<const V>(r, has ? std::addressof(*s) : nullptr); break; }
		case 8: { std::optional<V> s; if(has) s.emplace(x); optional_ref<V> r{s}; copies<V>(r, has ? std::addressof(*s) : nullptr); break; } case 9: { std::optional<V> s; if(has) s.emplace(x); const auto & c = s; optional_ref<const V> r{c}; copies<const V>(r, has ? std::addressof(*s) : nullptr); break; }
		case 10: { V * s = has ? std::addressof(o) : nullptr; optional_ref<V> r{s}; copies<V>(r, s); break; } case 11: { const V * s = has ? std::addressof(o) : nullptr; optional_ref<const V> r{s}; copies<const V>(r, s); break; } case 12: { V * const s = has ? std::addressof(o) : nullptr; optional_ref<const V> r{s}; copies<const V>(r, s); break; }
		case 13: { optional_ref<V> s; if(has) s = optional_ref<V>{o}; optional_ref<V> r{s}; copies<V>(r, has ? std::addressof(o) : nullptr); break; } case 14: { handle<V> s{has ? std::addressof(o) : nullptr}; optional_ref<V> r{s}; copies<V>(r, s.p); break; }
		case 15: { ptl::optional<V> s; if(has) s = o; auto r = optional_ref(s); static_assert(std::is_same_v<decltype(r), optional_ref<V>>); const auto & c = s; auto q = optional_ref(c); static_assert(std::is_same_v<decltype(q), optional_ref<const V>>); sx_assert(q.has_value() == has && r.has_value() == has, "deduced"); copies<V>(r, has ? std::addressof(*s) : nullptr); break; }
	}
	sx_assert(get(other) == 1, "an unrelated object changed");
}
SX_HARNESS(h_from) { switch(sx_pick("type", 3)) { case 0: from<std::uint16_t>(); break; case 1: from<thing>(); break; case 2: from<tracked>(); alive<tracked>(0); break; } sx_reach("end"); }
// a reference stays with its object when an optional is emptied and filled again, and several references share it
SX_HARNESS(h_shared) {
	auto x = sx_u16("x"); auto y = sx_u16("y"); std::uint16_t a{x}, b{y}; optional_ref<std::uint16_t> r{a}, s{a}, t{b}; optional_ref<const std::uint16_t> c{a}; *r = y; sx_assert(a == y && *s == y && *c == y, "all see the write"); r = t; sx_assert(a == y && b == y, "rebinding modifies nothing"); *r = 7; sx_assert(b == 7 && *t == 7 && a == y && *s == y, "writes reach the new object only");
	optional_ref<std::uint16_t> e; r = e; sx_assert(!r && b == 7, "emptying modifies nothing"); e = s; sx_assert(std::addressof(*e) == &a, "rebinding"); auto & self = e; e = self; sx_assert(std::addressof(*e) == &a, "self-assignment"); sx_reach("end");
}
// what a reference can be made of: never a mutable reference to something const
SX_HARNESS(h_conversions) {
	using V = std::uint16_t; using M = optional_ref<V>; using C = optional_ref<const V>; using O = ptl::optional<V>; using S = std::optional<V>;
	sx_assert(std::is_constructible_v<M, V &> && std::is_constructible_v<C, V &> && std::is_constructible_v<C, const V &> && std::is_constructible_v<M, O &> && std::is_constructible_v<C, O &> && std::is_constructible_v<C, const O &> && std::is_constructible_v<M, S &> && std::is_constructible_v<C, const S &> && std::is_constructible_v<C, M &> && std::is_constructible_v<M, std::nullopt_t>, "references to compatible objects");
	sx_assert(!std::is_constructible_v<M, const V &> && !std::is_constructible_v<M, V> && !std::is_constructible_v<M, const O &> && !std::is_constructible_v<M, const S &> && !std::is_constructible_v<M, C &> && !std::is_constructible_v<M, const V *&>, "no mutable reference to something const or temporary");
	sx_assert(!std::is_constructible_v<M, std::optional<std::uint32_t> &> && !std::is_constructible_v<M, std::uint32_t &>, "no reference to another type");
	V a{sx_u16("a")}; const V b{sx_u16("b")}; M m{a}; C c{b}, d{a}; sx_assert(&*m == &a && &*c == &b && &*d == &a && std::is_same_v<decltype(*m), V &> && std::is_same_v<decltype(*c), const V &> && std::is_same_v<decltype(c.value()), const V &> && std::is_same_v<decltype(m.operator->()), V *>, "references"); sx_reach("end");
}
