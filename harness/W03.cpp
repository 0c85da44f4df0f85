// BOUND: all pairs of variants over four alternatives (integers, a lifetime-registered class, two kinds of partially ordered values whose relation - less, equal, greater, unordered, equivalent without being equal - the solver chooses), symbolic values; all six operators; variants of two and of one alternative; a variant of 130 alternatives, every pair of 8 of them, around the first and last and around 127; a variant of strings, vectors and numbers
// OUTSIDE: other lists of alternatives
// NATIVEFLAGS: -O0 -g1
#include "vars.hpp"
#include "ptl/string.hpp"
#include "ptl/vector.hpp"
using namespace sx;

using X = ptl::variant<std::uint8_t, partial<0>, wide, partial<1>, std::int32_t>;
static void pickx(X & x, unsigned & at, std::int64_t & v, const char * name, std::uint8_t who) {
	at = static_cast<unsigned>(sx_pick("alternative", 5)); v = 0; bool detour = sx_pick("detour", 2);
	if(detour) x = wide{std::uint16_t{3}};
	switch(at) { case 0: { auto n = sx_u8(name); x = n; v = n; break; } case 1: x = partial<0>{who}; break; case 2: { auto n = sx_u16(name); x = wide{n}; v = n; break; } case 3: x = partial<1>{who}; break; case 4: { auto n = static_cast<std::int32_t>(sx_u32(name)); x = n; v = n; break; } }
}
SX_HARNESS(h_order) {
	X l, r; unsigned a, b; std::int64_t p, q; pickx(l, a, p, "l", 1); pickx(r, b, q, "r", 2); partial<0>::rel = static_cast<std::uint8_t>(sx_range("relation", 0, 4)); partial<1>::rel = static_cast<std::uint8_t>(sx_range("relation", 0, 4));
	std::uint8_t rel; if(a != b) rel = a < b ? 0 : 2; else if(a == 1) rel = partial<0>::rel; else if(a == 3) rel = partial<1>::rel; else rel = p < q ? 0 : p == q ? 1 : 2;
	related(l, r, rel); related(r, l, rel >= 3 ? rel : 2 - rel); related(static_cast<const X &>(l), r, rel); related(X{l}, X{r}, rel); if(a != 1 && a != 3) related(l, l, 1);
	sx_reach("end");
}
SX_HARNESS(h_small) {
	using Y = ptl::variant<std::int16_t, std::uint16_t>; using Z = ptl::variant<std::uint32_t>; auto p = sx_u16("p"); auto q = sx_u16("q");
	switch(sx_pick("form", 5)) {
		case 0: { Y l{static_cast<std::int16_t>(p)}, r{static_cast<std::int16_t>(q)}; auto s = static_cast<std::int16_t>(p), t = static_cast<std::int16_t>(q); related(l, r, s < t ? 0 : s == t ? 1 : 2); break; } case 1: { Y l{p}, r{q}; related(l, r, p < q ? 0 : p == q ? 1 : 2); break; }
		case 2: { Y l{static_cast<std::int16_t>(p)}, r{q}; related(l, r, 0); break; } case 3: { Y l{p}, r{static_cast<std::int16_t>(q)}; related(l, r, 2); break; } case 4: { Z l{sx_u32("p")}; Z r{sx_u32("q")}; auto s = l.get<std::uint32_t>(), t = r.get<std::uint32_t>(); related(l, r, s < t ? 0 : s == t ? 1 : 2); break; }
	}
	sx_reach("end");
}

template<std::size_t I> struct nth { std::uint16_t v; friend bool operator==(const nth & a, const nth & b) { return a.v == b.v; } friend bool operator!=(const nth & a, const nth & b) { return a.v != b.v; } friend bool operator<(const nth & a, const nth & b) { return a.v < b.v; } friend bool operator>(const nth & a, const nth & b) { return a.v > b.v; } friend bool operator<=(const nth & a, const nth & b) { return a.v <= b.v; } friend bool operator>=(const nth & a, const nth & b) { return a.v >= b.v; } };
template<typename> struct most_of; template<std::size_t... I> struct most_of<std::index_sequence<I...>> { using type = ptl::variant<nth<I>...>; };
using M = most_of<std::make_index_sequence<130>>::type;
static M m_make(std::size_t k, std::uint16_t v) { switch(k) { case 0: return nth<0>{v}; case 1: return nth<1>{v}; case 2: return nth<15>{v}; case 3: return nth<16>{v}; case 4: return nth<126>{v}; case 5: return nth<127>{v}; case 6: return nth<128>{v}; default: return nth<129>{v}; } }
SX_HARNESS(h_many_alternatives) { auto i = sx_pick("l", 8); auto j = sx_pick("r", 8); auto x = sx_u16("x"); auto y = sx_u16("y"); M l = m_make(i, x), r = m_make(j, y); related(l, r, i != j ? (i < j ? 0 : 2) : x < y ? 0 : x == y ? 1 : 2); sx_reach("end"); }
// values of variable length
using S = ptl::variant<ptl::string, std::int8_t, ptl::vector<std::uint8_t>>;
SX_HARNESS(h_sequences) {
	{
		S o[2]; std::size_t at[2]; std::uint8_t d[2][4]; std::size_t n[2]; for(int k{0}; k < 2; ++k) { at[k] = sx_pick("alternative", 3); n[k] = at[k] == 1 ? 1 : sx_pick("size", 4); sx_bytes(d[k], n[k], "d"); switch(at[k]) { case 0: o[k] = ptl::string{std::string_view{reinterpret_cast<char *>(d[k]), n[k]}}; break; case 1: o[k] = static_cast<std::int8_t>(d[k][0]); break; case 2: o[k] = ptl::vector<std::uint8_t>(d[k], d[k] + n[k]); break; } }
		std::uint8_t rel; if(at[0] != at[1]) rel = at[0] < at[1] ? 0 : 2; else if(at[0] == 1) { auto p = static_cast<std::int8_t>(d[0][0]), q = static_cast<std::int8_t>(d[1][0]); rel = p < q ? 0 : p == q ? 1 : 2; } else { rel = n[0] < n[1] ? 0 : n[0] == n[1] ? 1 : 2; for(auto i = n[0] < n[1] ? n[0] : n[1]; i != 0; --i) rel = d[0][i - 1] == d[1][i - 1] ? rel : d[0][i - 1] < d[1][i - 1] ? 0 : 2; }
		related(o[0], o[1], rel); related(o[1], o[0], 2 - rel);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
