// BOUND: every operation that receives or relocates a value (construction, assignment, emplace, value_or, swap, get, visit, insertion, growth, erasure, shrinking) of optional, optional_ref, variant, variant_ref, vector, array, tuple, function_ref and string, once from each state of the object; values symbolic; vectors of 0 to 8 (thorough: 14) elements at every position, exact and spare capacity; moved or swapped vectors and strings of up to 60 elements
// ASSUME: the number of copies is counted by the element type (copy constructor and copy assignment)
// OUTSIDE: other sizes; the number of moves, which is not promised
#include "vec.hpp"
#include <memory>
#include "ptl/optional.hpp"
#include "ptl/optional_ref.hpp"
#include "ptl/variant.hpp"
#include "ptl/variant_ref.hpp"
#include "ptl/array.hpp"
#include "ptl/tuple.hpp"
#include "ptl/function_ref.hpp"
#include "ptl/string.hpp"
using namespace sx; using std::get; using std::in_place;

struct uncopied { // nothing is copied while one of these lives
	unsigned before{counts.copies + counts.copy_assigns}; const char * what; explicit uncopied(const char * w) : what{w} {}
	~uncopied() noexcept(false) { sx_assert(counts.copies + counts.copy_assigns == before, what); }
};
static void end() { sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end"); }
static bool holds(const tracked & t, std::uint16_t x) { t.here(); return (!t.moved) & (t.v == x); }

using opt = ptl::optional<tracked>;
static void fill(opt & o, bool has, std::uint16_t x) { if(has) o.emplace(x); }
SX_HARNESS(h_optional) {
	{
		auto x = sx_u16("x"); auto y = sx_u16("y"); bool has = sx_pick("has", 2), other = sx_pick("other", 2); opt o, p; fill(o, has, y); fill(p, other, x); tracked v{x};
		switch(sx_pick("op", 15)) {
			case 0: { uncopied u{"construction from an rvalue"}; opt q{std::move(v)}; sx_assert(holds(*q, x), "constructed"); break; } case 1: { uncopied u{"construction in place"}; opt q{in_place, std::move(v)}; sx_assert(holds(*q, x), "constructed"); break; }
			case 2: { uncopied u{"assignment of an rvalue"}; o = std::move(v); sx_assert(holds(*o, x), "assigned"); break; } case 3: { uncopied u{"emplace of an rvalue"}; o.emplace(std::move(v)); sx_assert(holds(*o, x), "emplaced"); break; }
			case 4: { uncopied u{"value_or of an rvalue"}; auto t{std::move(o).value_or(std::move(v))}; sx_assert(holds(t, has ? y : x), "value_or"); break; }
			case 5: if(!has) { uncopied u{"value_or of an empty optional"}; auto t{o.value_or(std::move(v))}; sx_assert(holds(t, x), "value_or"); } break;
			case 6: { uncopied u{"move construction"}; opt q{std::move(p)}; sx_assert(q.has_value() == other, "moved"); if(other) sx_assert(holds(*q, x), "moved"); break; }
			case 7: { uncopied u{"move assignment"}; o = std::move(p); sx_assert(o.has_value() == other, "moved"); if(other) sx_assert(holds(*o, x), "moved"); break; }
			case 8: { uncopied u{"swap"}; o.swap(p); sx_assert(o.has_value() == other && p.has_value() == has, "swapped"); if(other) sx_assert(holds(*o, x), "swapped"); if(has) sx_assert(holds(*p, y), "swapped"); break; }
			case 9: { uncopied u{"swap"}; swap(o, p); sx_assert(o.has_value() == other && p.has_value() == has, "swapped"); if(other) sx_assert(holds(*o, x), "swapped"); if(has) sx_assert(holds(*p, y), "swapped"); break; }
			case 10: if(other) { uncopied u{"operator* of an rvalue"}; tracked t{*std::move(p)}; sx_assert(holds(t, x), "taken"); } break; case 11: if(other) { uncopied u{"value of an rvalue"}; tracked t{std::move(p).value()}; sx_assert(holds(t, x), "taken"); } break;
			case 12: { uncopied u{"reset and reading"}; (void)(o == p); (void)(o < p); (void)o.has_value(); const auto & c = o; if(has) sx_assert(std::addressof(*c) == c.operator->() && holds(c.value(), y), "read"); o.reset(); p = std::nullopt; break; }
			case 13: { uncopied u{"emplace of something else"}; o.emplace(x); p.emplace(x); sx_assert(holds(*o, x), "emplaced"); break; } case 14: { uncopied u{"a function's result"}; auto f = [&] { opt q; q.emplace(std::move(v)); return q; }; o = f(); sx_assert(holds(*o, x), "returned"); break; }
		}
		sx_note("has", has * 2u + other);
	}
	end();
}
SX_HARNESS(h_optional_ref) {
	{
		auto x = sx_u16("x"); auto y = sx_u16("y"); tracked v{x}, w{y}; ptl::optional_ref<tracked> e, r{w}; ptl::optional_ref<const tracked> c{r};
		{ uncopied u{"value_or of an empty reference"}; auto t{e.value_or(std::move(v))}; sx_assert(holds(t, x), "value_or"); } { uncopied u{"use of a reference"}; sx_assert(holds(*c, y) && holds(r.value(), y) && r->get() == y, "refers"); ptl::optional_ref<tracked> s{r}; s = e; s = r; }
		auto t{r.value_or(tracked{x})}; sx_assert(holds(t, y) && holds(w, y), "value_or leaves the value referred to");
	}
	end();
}
struct other_t { std::uint16_t v; other_t(std::uint16_t x) : v{x} {} };
struct third_t { tracked t; third_t(std::uint16_t x) : t{x} {} third_t(tracked && v) : t{std::move(v)} {} }; // relocated as a whole
using var = ptl::variant<tracked, other_t, third_t>;
static void fill(var & o, unsigned which, std::uint16_t x) { switch(which) { case 0: o.emplace<tracked>(x); break; case 1: o.emplace<other_t>(x); break; case 2: o.emplace<third_t>(x); break; } }
static bool is(const var & o, unsigned which, std::uint16_t x) { switch(which) { case 0: return o.holds<tracked>() && holds(o.get<tracked>(), x); case 1: return o.holds<other_t>() && o.get<other_t>().v == x; default: return o.holds<third_t>() && holds(o.get<third_t>().t, x); } }
struct by_value { template<typename T> std::uint16_t operator()(T t) const { if constexpr(std::is_same_v<T, tracked>) return t.get(); else if constexpr(std::is_same_v<T, other_t>) return t.v; else return t.t.get(); } };
SX_HARNESS(h_variant) {
	{
		auto x = sx_u16("x"); auto y = sx_u16("y"); auto a = static_cast<unsigned>(sx_pick("a", 3)), b = static_cast<unsigned>(sx_pick("b", 3)); var o{other_t{1}}, p{other_t{2}}; fill(o, a, y); fill(p, b, x); tracked v{x}; third_t w{x};
		switch(sx_pick("op", 20)) {
			case 0: { uncopied u{"construction from an rvalue"}; var q{std::move(v)}; sx_assert(is(q, 0, x), "constructed"); break; } case 1: { uncopied u{"construction from an rvalue"}; var q{std::move(w)}; sx_assert(is(q, 2, x), "constructed"); break; }
			case 2: { uncopied u{"construction in place"}; var q{std::in_place_type<tracked>, std::move(v)}; sx_assert(is(q, 0, x), "constructed"); break; } case 3: { uncopied u{"construction in place"}; var q{std::in_place_index<2>, std::move(w)}; sx_assert(is(q, 2, x), "constructed"); break; }
			case 4: { uncopied u{"assignment of an rvalue"}; o = std::move(v); sx_assert(is(o, 0, x), "assigned"); break; } case 5: { uncopied u{"assignment of an rvalue"}; o = std::move(w); sx_assert(is(o, 2, x), "assigned"); break; }
			case 6: { uncopied u{"emplace of an rvalue"}; o.emplace<tracked>(std::move(v)); sx_assert(is(o, 0, x), "emplaced"); break; } case 7: { uncopied u{"emplace of an rvalue"}; o.emplace<2>(std::move(w)); sx_assert(is(o, 2, x), "emplaced"); break; }
			case 8: { uncopied u{"move construction"}; var q{std::move(p)}; sx_assert(is(q, b, x), "moved"); break; } case 9: { uncopied u{"move assignment"}; o = std::move(p); sx_assert(is(o, b, x), "moved"); break; }
			case 10: { uncopied u{"swap"}; o.swap(p); sx_assert(is(o, b, x) && is(p, a, y), "swapped"); break; } case 11: { uncopied u{"swap"}; swap(o, p); sx_assert(is(o, b, x) && is(p, a, y), "swapped"); break; }
			case 12: if(b == 0) { uncopied u{"get from an rvalue"}; tracked t{std::move(p).get<tracked>()}; sx_assert(holds(t, x), "taken"); } else if(b == 2) { uncopied u{"get from an rvalue"}; third_t t{std::move(p).get<third_t>()}; sx_assert(holds(t.t, x), "taken"); } break;
			case 13: { uncopied u{"visiting an rvalue"}; sx_assert(std::move(p).visit(by_value{}) == x, "visited"); break; }
			case 14: { uncopied u{"visitors handed over"}; tracked s{y}; auto f = [s{std::move(s)}](const auto &) { return s.get(); }; struct g_t { tracked s; std::uint16_t operator()(const tracked &, int) const { return s.get(); } }; auto r = o.visit(std::move(f), g_t{std::move(v)}); sx_assert(r == y, "visited"); break; }
			case 15: { uncopied u{"reading"}; const auto & c = o; sx_assert(is(c, a, y), "held"); const auto r = c.visit([&](const auto & e) { return static_cast<const void *>(std::addressof(e)); }); sx_assert(r == static_cast<const void *>(std::addressof(c)), "a visitor sees the value itself"); break; }
			case 16: { uncopied u{"a function's result"}; auto f = [&] { var q{other_t{3}}; q.emplace<tracked>(std::move(v)); return q; }; o = f(); sx_assert(is(o, 0, x), "returned"); break; }
			case 18: { uncopied u{"emplace from an rvalue of another type"}; o.emplace<third_t>(std::move(v)); sx_assert(is(o, 2, x), "emplaced"); break; } case 19: { uncopied u{"construction in place from an rvalue of another type"}; var q{std::in_place_type<third_t>, std::move(v)}; o = std::move(q); sx_assert(is(o, 2, x), "constructed"); break; }
			case 17: { uncopied u{"one's own value"}; auto & s = o; o = std::move(s); swap(o, s); break; }
		}
		sx_note("states", a * 3u + b);
	}
	end();
}
SX_HARNESS(h_variant_ref) {
	{
		auto x = sx_u16("x"); auto y = sx_u16("y"); tracked v{x}; other_t w{y}; bool b = sx_pick("b", 2); ptl::variant_ref<tracked, other_t> r{v}; if(b) r = ptl::variant_ref<tracked, other_t>{w};
		{ uncopied u{"visitors handed over"}; tracked s{7}, t{9}; auto f = [s{std::move(s)}](tracked & e) -> std::uint16_t { return static_cast<std::uint16_t>(s.get() + e.get()); }; auto g = [t{std::move(t)}](other_t & e) -> std::uint16_t { return static_cast<std::uint16_t>(t.get() + e.v); }; auto h = [](std::nullptr_t) -> std::uint16_t { return 0; }; auto n = r.visit(std::move(f), std::move(g), std::move(h)); sx_assert(n == static_cast<std::uint16_t>(b ? 9 + y : 7 + x), "visited"); }
	}
	end();
}
static std::uint16_t take(tracked t) { return t.get(); }
SX_HARNESS(h_function_ref) {
	{
		auto x = sx_u16("x"); tracked v{x}, w{4}; uncopied u{"an argument handed on"}; 
		switch(sx_pick("op", 4)) {
			case 0: { ptl::function_ref<std::uint16_t(tracked)> f{take}; sx_assert(f(std::move(v)) == x, "called"); break; } case 1: { auto l = [](tracked t) { return t.get(); }; ptl::function_ref<std::uint16_t(tracked)> f{l}; auto g = f; sx_assert(g(std::move(v)) == x, "called"); break; }
			case 2: { tracked out{0}; auto l = [&](tracked && t) { out = std::move(t); }; ptl::function_ref<void(tracked &&)> f{l}; f(std::move(v)); sx_assert(holds(out, x), "called"); break; } case 3: { auto l = [&](tracked a, const tracked & b, tracked & c) -> tracked { c.v = 5; sx_assert(std::addressof(b) == std::addressof(w) && std::addressof(c) == std::addressof(w), "references stay references"); return a; }; ptl::function_ref<tracked(tracked, const tracked &, tracked &)> f{l}; auto t = f(std::move(v), w, w); sx_assert(holds(t, x) && w.v == 5, "called"); break; }
		}
	}
	end();
}

using vec = ptl::vector<tracked>;
constexpr std::size_t most{SX_THOROUGH ? 14 : 8};
struct seq { std::uint16_t m[most + 4]; std::size_t n; };
static void fill(vec & v, seq & s) { s.n = sx_pick("n", most + 1); if(sx_pick("spare", 2)) v.reserve(s.n + 5); for(std::size_t i{0}; i < s.n; ++i) { s.m[i] = sx_u16("e"); v.emplace_back(s.m[i]); } }
static void put(seq & s, std::size_t at, std::uint16_t x) { for(std::size_t i{s.n}; i > at; --i) s.m[i] = s.m[i - 1]; s.m[at] = x; ++s.n; }
static void same(const vec & v, const seq & s) { sx_assert(v.size() == s.n, "size"); bool ok{true}; for(std::size_t i{0}; i < s.n; ++i) ok &= holds(v.data()[i], s.m[i]); sx_assert(ok, "elements"); }
SX_HARNESS(h_vector) {
	{
		vec v; seq s; { uncopied u{"emplace_back"}; fill(v, s); } auto x = sx_u16("x"); auto op = sx_pick("op", 11); auto where = [&] { return static_cast<std::ptrdiff_t>(sx_pick("pos", s.n + 1)); };
		switch(op) {
			case 0: { tracked t{x}; uncopied u{"push_back of an rvalue"}; v.push_back(std::move(t)); put(s, s.n, x); break; } case 1: { tracked t{x}; uncopied u{"emplace_back of an rvalue"}; v.emplace_back(std::move(t)); put(s, s.n, x); break; }
			case 2: { tracked t{x}; auto i = where(); uncopied u{"insert of an rvalue"}; v.insert(v.cbegin() + i, std::move(t)); put(s, static_cast<std::size_t>(i), x); break; } case 3: { tracked t{x}; auto i = where(); uncopied u{"emplace of an rvalue"}; v.emplace(v.cbegin() + i, std::move(t)); put(s, static_cast<std::size_t>(i), x); break; }
			case 4: { uncopied u{"reserve"}; v.reserve(s.n + 9); break; } case 5: { uncopied u{"shrink_to_fit"}; v.shrink_to_fit(); break; }
			case 6: { auto i = where(); auto k = static_cast<std::ptrdiff_t>(sx_pick("k", s.n - static_cast<std::size_t>(i) + 1)); uncopied u{"erase"}; v.erase(v.cbegin() + i, v.cbegin() + i + k); for(auto j = static_cast<std::size_t>(i + k); j < s.n; ++j) s.m[j - static_cast<std::size_t>(k)] = s.m[j]; s.n -= static_cast<std::size_t>(k); break; }
			case 7: { tracked t[]{tracked{x}, tracked{1}, tracked{2}}; auto i = where(); uncopied u{"insert of moved elements"}; v.insert(v.cbegin() + i, std::make_move_iterator(t), std::make_move_iterator(t + 3)); put(s, static_cast<std::size_t>(i), 2); put(s, static_cast<std::size_t>(i), 1); put(s, static_cast<std::size_t>(i), x); break; }
			case 8: { tracked t[]{tracked{x}, tracked{1}}; uncopied u{"assign of moved elements"}; v.assign(std::make_move_iterator(t), std::make_move_iterator(t + 2)); s.m[0] = x; s.m[1] = 1; s.n = 2; break; }
			case 9: { uncopied u{"resize"}; auto n = sx_pick("to", most + 3); v.resize(n); for(auto i = s.n; i < n; ++i) s.m[i] = 0; s.n = n; break; }
			case 10: { uncopied u{"removal"}; if(s.n) { if(sx_pick("how", 2)) { v.pop_back(); --s.n; } else { v.clear(); s.n = 0; } } break; }
		}
		same(v, s); sx_note("n", s.n);
	}
	end();
}
SX_HARNESS(h_vector_whole) { // handing over a whole vector touches no element
	{
		vec a, b; seq s, t; fill(a, s); t.n = sx_pick("other", 3); for(std::size_t i{0}; i < t.n; ++i) { t.m[i] = sx_u16("o"); b.emplace_back(t.m[i]); }
		auto pa = a.data(), pb = b.data(); auto before = counts; auto untouched = [&] { sx_assert(counts.copies == before.copies && counts.moves == before.moves && counts.copy_assigns == before.copy_assigns && counts.move_assigns == before.move_assigns && counts.ctors == before.ctors, "elements were touched"); };
		switch(sx_pick("op", 5)) {
			case 0: { vec c{std::move(a)}; untouched(); sx_assert(s.n == 0 || c.data() == pa, "the buffer is handed over"); same(c, s); break; } case 1: { b = std::move(a); untouched(); sx_assert(s.n == 0 || b.data() == pa, "the buffer is handed over"); same(b, s); break; }
			case 2: { a.swap(b); untouched(); sx_assert((s.n == 0 || b.data() == pa) && (t.n == 0 || a.data() == pb), "the buffers are swapped"); same(b, s); same(a, t); break; } case 3: { swap(a, b); untouched(); sx_assert((s.n == 0 || b.data() == pa) && (t.n == 0 || a.data() == pb), "the buffers are swapped"); same(b, s); same(a, t); break; }
			case 4: { auto i = static_cast<std::ptrdiff_t>(sx_pick("pos", s.n + 1)); a.erase(a.cbegin() + i, a.cbegin() + i); a.reserve(0); a.reserve(s.n); sx_assert(s.n == 0 || a.data() == pa, "nothing to do"); untouched(); same(a, s); same(b, t); break; }
		}
	}
	end();
}
SX_HARNESS(h_array_tuple) {
	{
		auto x = sx_u16("x"); auto y = sx_u16("y"); auto z = sx_u16("z"); using arr = ptl::array<tracked, 3>; using tup = ptl::tuple<tracked, std::uint16_t, tracked>; tracked p{x}, q{y}, r{z};
		uncopied u{"rvalues of an array or tuple"};
		auto all = [&](const arr & a) { sx_assert(holds(a[0], x) && holds(a[1], y) && holds(a[2], z), "elements"); }; auto both = [&](const tup & t) { sx_assert(holds(t.get<0>(), x) && t.get<1>() == y && holds(t.get<2>(), z), "elements"); };
		switch(sx_pick("op", 9)) {
			case 0: { arr a{std::move(p), std::move(q), std::move(r)}; all(a); arr b{std::move(a)}; all(b); break; } case 1: { arr a{std::move(p), std::move(q), std::move(r)}; arr b; b = std::move(a); all(b); break; }
			case 2: { arr a{std::move(p), std::move(q), std::move(r)}; arr b; b.swap(a); all(b); swap(a, b); all(a); break; } case 3: { arr a{std::move(p), std::move(q), std::move(r)}; tracked t{get<1>(std::move(a))}; sx_assert(holds(t, y), "get"); break; }
			case 4: { tup t{std::move(p), y, std::move(r)}; both(t); tup b{std::move(t)}; both(b); break; } case 5: { tup t{std::move(p), y, std::move(r)}; tup b; b = std::move(t); both(b); break; } case 6: { tup t{std::move(p), y, std::move(r)}; tup b; b.swap(t); both(b); swap(b, t); both(t); break; }
			case 7: { tup t{std::move(p), y, std::move(r)}; tracked e{std::move(t).get<2>()}; sx_assert(holds(e, z), "get"); tracked f{std::move(t).get<0>()}; sx_assert(holds(f, x), "get"); break; } case 8: { ptl::array a{std::move(p), std::move(q)}; sx_assert(holds(a[0], x) && holds(a[1], y), "elements"); ptl::tuple t{std::move(a), std::move(r)}; sx_assert(holds(t.get<0>()[1], y) && holds(t.get<1>(), z), "elements"); break; }
		}
		sx_note("x", x);
	}
	end();
}
SX_HARNESS(h_string_whole) { // handing over a long string hands over its buffer
	char c[61], d[61]; auto n = one_of("n", {24, 30, 60}); auto k = one_of("k", {0, 5, 22, 23, 24, 47}); sx_bytes(c, n, "c"); sx_bytes(d, k, "d"); ptl::string a{std::string_view{c, n}}, b{std::string_view{d, k}}; auto p = a.data();
	auto is_a = [&](const ptl::string & s) { sx_assert(s.size() == n && s.data() == p && std::memcmp(s.data(), c, n) == 0 && s.data()[n] == 0, "the buffer is handed over"); };
	switch(sx_pick("op", 4)) {
		case 0: { ptl::string s{std::move(a)}; is_a(s); break; } case 1: b = std::move(a); is_a(b); break; case 2: a.swap(b); is_a(b); sx_assert(a.size() == k && std::memcmp(a.data(), d, k) == 0, "swapped"); break;
		case 3: { ptl::vector<ptl::string> v; v.push_back(std::move(a)); is_a(v[0]); v.reserve(9); is_a(v[0]); v.emplace(v.cbegin(), std::move(b)); is_a(v[1]); ptl::optional<ptl::string> o{std::move(v[1])}; is_a(*o); ptl::variant<int, ptl::string> w{*std::move(o)}; is_a(w.get<ptl::string>()); w = 5; break; }
	}
	sx_reach("end");
}
