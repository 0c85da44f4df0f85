// BOUND: strings of 0, 5, 22, 23 and 48 characters, vectors of 0, 3 and 12 elements (int, lifetime-registered, string), bitsets of 0, 7, 8, 65 and 129 bits, optionals, variants, arrays, tuples, references and views of small values; contents symbolic; every reading operation on an object on the heap, that of a copy included; operations on objects of one's own next to them
// ASSUME: a write by an operation that only reads, to heap memory allocated before it or to static data of ptl (initialisation of local statics apart), is a data race if two threads run that operation; reads are not
// STUB: streams: a minimal in-memory model of std::ostream (the real one natively)
// OUTSIDE: which interleavings then misbehave (none is explored: without a write there is nothing to interleave); other sizes; atomic operations (ptl has none)
#include "streams.hpp"
#include "str.hpp"
#include "vec.hpp"
#include "ptl/string_ref.hpp"
#include "ptl/array_ref.hpp"
#include "ptl/array.hpp"
#include "ptl/tuple.hpp"
#include "ptl/bitset.hpp"
#include "ptl/optional.hpp"
#include "ptl/optional_ref.hpp"
#include "ptl/variant.hpp"
#include "ptl/variant_ref.hpp"
#include "ptl/function_ref.hpp"
using namespace sx; using ptl::string; using ptl::vector;

namespace sx { inline bool operator<=(const tracked & a, const tracked & b) { return !(b < a); } inline bool operator>(const tracked & a, const tracked & b) { return b < a; } inline bool operator>=(const tracked & a, const tracked & b) { return !(a < b); } }
template<typename T> struct held { // on the heap, where writes to it are noticed
	T * p; template<typename... A> explicit held(A &&... a) : p{new T{std::forward<A>(a)...}} {} held(const held &) = delete; ~held() { delete p; } const T & c() const { return *p; } T & m() { return *p; }
};
template<typename T> static bool ordered(const T & a, const T & b) { int k = (a < b) + (a == b) + (a > b); return k <= 1 && (a != b) == !(a == b) && (a <= b) + (a > b) >= 1; }
SX_HARNESS(h_string) {
	{
		auto n = one_of("n", {0, 5, 22, 23, 48}); model m; held<string> a, b; fill(a.m(), m, n, sx_pick("mode", modes)); char other[2]; sx_bytes(other, 2, "o"); b.m() = string{std::string_view{other, 2}}; const auto & s = a.c(); const auto & t = b.c(); auto i = n ? sx_range("i", 0, n - 1) : 0; auto op = sx_pick("op", 15); std::string_view v{m.d, m.n};
		shared([&] {
			switch(op) {
				case 0: check(s, m, "element access"); sx_assert(s.c_str() == s.data() && s.capacity() >= n && s.max_size() > n, "element access"); break;
				case 1: { string c{s}; check(c, m, "copy"); c.append(3, 'x'); check(s, m, "source of a copy"); break; } case 2: { string c; c = s; check(c, m, "copy"); c.clear(); c = string{s}; c.insert(c.begin(), 'y'); check(s, m, "source of a copy"); break; }
				case 3: { std::size_t k{0}; for(auto x : s) sx_assert(x == m.d[k++], "iteration"); for(auto j = s.rbegin(); j != s.rend(); ++j) sx_assert(*j == m.d[--k], "iteration"); sx_assert(s.cend() - s.cbegin() == static_cast<std::ptrdiff_t>(n) && s.crend() - s.crbegin() == static_cast<std::ptrdiff_t>(n), "iteration"); break; }
				case 4: { auto & w = a.m(); if(n) sx_assert(w.data()[i] == m.d[i] && w[i] == m.d[i] && w.at(i) == m.d[i] && w.begin()[static_cast<std::ptrdiff_t>(i)] == m.d[i] && w.front() == m.d[0] && w.back() == m.d[n - 1] && *w.rbegin() == m.d[n - 1], "element access of a string that could be modified"); sx_assert(w.end() - w.begin() == static_cast<std::ptrdiff_t>(n) && w.data()[n] == 0, "element access of a string that could be modified"); break; }
				case 5: if(n) sx_assert(s[i] == m.d[i] && s.at(i) == m.d[i] && s.front() == m.d[0] && s.back() == m.d[n - 1], "element access"); sx_assert(outcome([&] { (void)s.at(n); }) == Thrown::range, "at"); break;
				case 6: sx_assert(ordered(s, t) && ordered(t, s) && s == s && !(s < s), "comparison"); break; case 7: sx_assert(s == v && v <= s && !(s != v) && !(v > s) && s >= v && !(s < v) && s != "another one", "comparison"); break;
				case 8: sx_assert(std::hash<string>{}(s) == std::hash<std::string_view>{}(v), "hash"); break; case 9: { text_out o; o.os << s; sx_assert(o.size() == n && same(o.data(), m.d, n), "streaming"); break; }
				case 10: { std::string_view w = s; sx_assert(w.size() == n && (n == 0 || w.data() == s.data()), "conversion"); break; } case 11: { string c = s + t; sx_assert(c.size() == n + 2, "concatenation"); string d = 'x' + s; sx_assert(d.size() == n + 1, "concatenation"); string e = s + std::string_view{"yz"}; sx_assert(e.size() == n + 2 && e.back() == 'z', "concatenation"); break; }
				case 12: { auto c = s.substr(n / 2); sx_assert(c.size() == n - n / 2 && same(c.data(), m.d + n / 2, n - n / 2), "substr"); auto d = s.substr(0, n / 2); sx_assert(d.size() == n / 2, "substr"); break; } case 13: { string c; c.append(s); c += s; c.assign(s); c.insert(c.begin(), s); c.replace(c.begin(), c.begin() + static_cast<std::ptrdiff_t>(n), s); sx_assert(c.size() == 2 * n, "argument"); break; }
				case 14: { string c{std::string_view{m.d, n}}, d{std::string_view{"something else that is quite long"}}; swap(c, d); d.append(9, 'k'); c.reserve(100); c = std::move(d); c.shrink_to_fit(); c.pop_back(); c.erase(c.begin()); c.resize(60, 'z'); usable(c); break; } // own strings
			}
		});
		check(s, m, "unchanged"); note(s);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
template<typename T> static void vectors() {
	auto n = one_of("n", {0, 3, 12}); vmodel m; held<vector<T>> a, b; fill(a.m(), m, n, sx_pick("mode", v_modes)); b.m().push_back(T(std::uint16_t(7))); const auto & s = a.c(); const auto & t = b.c(); auto op = sx_pick("op", 9);
	shared([&] {
		switch(op) {
			case 0: check(s, m, "element access"); sx_assert(s.max_size() > n, "element access"); break; case 1: { vector<T> c{s}; check(c, m, "copy"); c.push_back(T(std::uint16_t(1))); c.clear(); check(s, m, "source of a copy"); break; } case 2: { vector<T> c; c.resize(2); c = s; check(c, m, "copy"); usable(c); check(s, m, "source of a copy"); break; }
			case 3: { std::size_t k{0}; for(auto & x : s) sx_assert(val(x) == m.d[k++], "iteration"); for(auto j = s.crbegin(); j != s.crend(); ++j) sx_assert(val(*j) == m.d[--k], "iteration"); break; } case 4: { auto & w = a.m(); if(n) sx_assert(&w[0] == s.data() && &w.at(n - 1) == &w.back() && &w.front() == w.data() && &*w.begin() == s.data() && &*w.rbegin() == &w[n - 1], "element access of a vector that could be modified"); sx_assert(w.end() - w.begin() == static_cast<std::ptrdiff_t>(n), "element access of a vector that could be modified"); break; }
			case 5: sx_assert((s == t) == !(s != t) && s == s && !(s < s) && s <= s && s >= s && (s < t) == (t > s) && (s >= t) == !(s < t), "comparison"); break; case 6: if(n) sx_assert(val(s[n - 1]) == m.d[n - 1] && val(s.at(0)) == m.d[0] && &s.front() == s.data() && &s.back() == s.data() + n - 1, "element access"); sx_assert(outcome([&] { (void)s.at(n); }) == Thrown::range, "at"); break;
			case 7: { vector<T> c; c.push_back(T(std::uint16_t(3))); c.insert(c.begin(), s.begin(), s.end()); c.assign(s.begin(), s.end()); check(c, m, "argument"); if(n) { c.push_back(s[0]); c.insert(c.begin(), 3, s.back()); c.resize(40, s.front()); } usable(c); break; }
			case 8: { vector<T> c, d; for(std::uint16_t i{0}; i < 14; ++i) c.push_back(T(i)); d = c; swap(c, d); c.erase(c.begin(), c.begin() + 3); c.shrink_to_fit(); c.reserve(50); d = std::move(c); usable(d); break; } // own vectors
		}
	});
	check(s, m, "unchanged"); note(s);
}
SX_HARNESS(h_vector) { if(sx_pick("type", 2)) vectors<tracked>(); else vectors<int>(); sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end"); }
SX_HARNESS(h_vector_strings) {
	{
		held<vector<string>> a; auto n = sx_pick("n", 3); char x[30]; sx_bytes(x, 30, "x"); for(std::size_t i{0}; i < n; ++i) a.m().push_back(string{std::string_view{x, i ? 30u : 4u}}); const auto & s = a.c(); auto op = sx_pick("op", 4);
		shared([&] { switch(op) { case 0: { auto c{s}; sx_assert(c == s && c.size() == n, "copy"); for(auto & e : c) e.append(40, 'x'); break; } case 1: { vector<string> c; c.resize(4); c = s; c.insert(c.end(), s.begin(), s.end()); sx_assert(c.size() == 2 * n, "copy"); break; } case 2: if(n) { ptl::optional<string> o{s[n - 1]}; ptl::variant<int, string> v{s.back()}; sx_assert(*o == s[n - 1] && v.template get<string>() == *o, "copy of an element"); o->clear(); } break; case 3: sx_assert(!(s != s) && !(s < s), "comparison"); break; } });
		for(std::size_t i{0}; i < n; ++i) sx_assert(s[i] == std::string_view(x, i ? 30u : 4u), "unchanged");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
template<std::size_t N> static void bits_() {
	using B = ptl::bitset<N>; held<B> a, b; bool m[N + 1]{}; auto w = sx_u8("w"); for(std::size_t i{0}; i < N; ++i) { m[i] = i < 3 || i + 3 > N ? w >> (i % 8) & 1 : i % 3 == 0; a.m().set(i, m[i]); } b.m().set(); const B & s = a.c(); const B & t = b.c(); auto i = N ? sx_range("i", 0, N ? N - 1 : 0) : 0; auto n = sx_pick("n", 3); auto op = sx_pick("op", 9);
	shared([&] {
		switch(op) {
			case 0: { std::size_t k{0}; for(std::size_t j{0}; j < N; ++j) k += m[j]; sx_assert(s.count() == k && s.any() == (k > 0) && s.none() == (k == 0) && s.all() == (k == N) && s.size() == N, "queries"); break; } case 1: if constexpr(N > 0) { sx_assert(s.test(i) == s[i] && s[i] == m[i], "bits"); auto r = a.m()[i]; bool x = r; bool y = ~r; sx_assert(x == m[i] && y != x, "bits of a bitset that could be modified"); } sx_assert(outcome([&] { (void)s.test(N); }) == Thrown::range, "test"); break;
			case 2: { B c = s << n; B d = s >> n; B e = ~s; sx_assert((e == s) == (N == 0) && c.size() == d.size(), "results of their own"); break; } case 3: { B c = s & t; sx_assert(c == s, "&"); B d = s | t; sx_assert(d == t, "|"); B e = s ^ s; sx_assert(e.none(), "^"); break; } case 4: sx_assert(s == s && (s == t) == !(s != t), "comparison"); break; case 5: { auto h = std::hash<B>{}(s); sx_assert(h == std::hash<B>{}(s), "hash"); break; }
			case 6: { text_out o; o.os << s; sx_assert(o.size() == N, "streaming"); break; } case 7: { B c{s}; B d; d = s; c.flip(); d.reset(); swap(c, d); sx_assert(c.none(), "copy"); break; } case 8: { B c; c |= s; c &= t; c ^= s; sx_assert(c.none(), "argument"); break; }
		}
	});
	bool ok{true}; for(std::size_t j{0}; j < N; ++j) ok &= s[j] == m[j]; sx_assert(ok, "unchanged");
}
SX_HARNESS(h_bitset) { switch(sx_pick("size", 5)) { case 0: bits_<0>(); break; case 1: bits_<7>(); break; case 2: bits_<8>(); break; case 3: bits_<65>(); break; case 4: bits_<129>(); break; } sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end"); }
SX_HARNESS(h_optional) {
	{
		using O = ptl::optional<tracked>; auto x = sx_u16("x"), y = sx_u16("y"); held<O> a, b; held<tracked> v{y}; bool full = sx_pick("engaged", 2); if(full) a.m() = tracked{x}; b.m().emplace(y); const O & s = a.c(); const O & t = b.c(); auto op = sx_pick("op", 8);
		shared([&] {
			switch(op) {
				case 0: sx_assert(s.has_value() == full && static_cast<bool>(s) == full, "state"); break; case 1: if(full) sx_assert((*s).get() == x && s->get() == x && s.value().get() == x && a.m()->get() == x && (*a.m()).get() == x && a.m().value().get() == x, "value"); else sx_assert(outcome([&] { try { (void)s.value(); } catch(const std::bad_optional_access &) { throw user_error{1}; } }) == Thrown::user, "value"); break;
				case 2: { auto z = s.value_or(v.c()); sx_assert(z.get() == (full ? x : y), "value_or"); break; } case 3: { O c{s}; sx_assert(c.has_value() == full && (!full || (*c).get() == x), "copy"); c = t; c.reset(); break; } case 4: { O c{tracked{std::uint16_t(1)}}; c = s; sx_assert(c.has_value() == full, "copy"); c = v.c(); sx_assert((*c).get() == y, "copy"); c.emplace(v.c()); break; }
				case 5: { bool e = full && x == y; sx_assert((s == t) == e && (s != t) == !e && (s == v.c()) == e && (s == std::nullopt) == !full && (v.c() != s) == !e, "equality"); break; } case 6: sx_assert((s < t) == (!full || x < y) && (s > t) == (full && x > y) && (s <= v.c()) == (!full || x <= y) && (s >= t) == (full && x >= y) && !(s < std::nullopt) && !(t <= std::nullopt), "order"); break;
				case 7: { ptl::optional_ref<const tracked> r{s}; ptl::optional_ref<tracked> q{b.m()}; auto p = r; sx_assert(r.has_value() == full && p.has_value() == full && q && q->get() == y && (!full || (&*r == &*s && r.value().get() == x)), "optional_ref"); q = b.m(); tracked z = r.value_or(v.c()); sx_assert(z.get() == (full ? x : y), "optional_ref"); break; }
			}
		});
		sx_assert(s.has_value() == full && (!full || (*s).get() == x) && (*t).get() == y, "unchanged"); sx_note("x", x);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
SX_HARNESS(h_variant) {
	{
		using V = ptl::variant<std::uint8_t, tracked, string>; auto x = sx_u16("x"); held<V> a, b; auto k = sx_pick("alternative", 3); if(k == 0) a.m() = std::uint8_t(x); else if(k == 1) a.m() = tracked{x}; else a.m() = string{std::string_view{"a string that does not fit in place"}}; b.m() = string{std::string_view{"short"}}; const V & s = a.c(); const V & t = b.c(); auto op = sx_pick("op", 8);
		struct index { std::size_t operator()(const std::uint8_t &) const { return 0; } std::size_t operator()(const tracked &) const { return 1; } std::size_t operator()(const string &) const { return 2; } };
		shared([&] {
			switch(op) {
				case 0: sx_assert(s.holds<std::uint8_t>() == (k == 0) && s.holds<tracked>() == (k == 1) && s.holds<string>() == (k == 2), "holds"); break; case 1: sx_assert((s.get_if<tracked>() != nullptr) == (k == 1) && (a.m().get_if<string>() != nullptr) == (k == 2) && (k != 1 || s.get<tracked>().get() == x) && (k != 0 || a.m().get<std::uint8_t>() == std::uint8_t(x)), "get"); break;
				case 2: sx_assert(s.visit(index{}) == k && a.m().visit(index{}) == k && std::move(s).visit(index{}) == k && s.visit([](const string & z) { return z.size() > 5 ? 2u : 9u; }, [](auto &) { return 1u; }) == (k == 2 ? 2u : 1u), "visit"); break; case 3: { V c{s}; sx_assert(c == s, "copy"); c = t; c = std::uint8_t(1); break; } case 4: { V c; c = s; sx_assert(c == s, "copy"); swap(c, c); V d{std::move(c)}; d.emplace<string>(std::string_view{"forty characters, or at least quite a few"}); break; }
				case 5: sx_assert((s == t) == false && s != t && s == s, "equality"); break; case 6: { bool l = k < 2 || s.get<string>() < t.get<string>(); sx_assert((s < t) == l && (s <= t) == l && (s > t) == !l && (s >= t) == !l, "order"); break; }
				case 7: { if(k == 1) { ptl::variant_ref<const tracked, const string> r{s.get<tracked>()}; auto q = r; q = r; sx_assert(r.holds<const tracked>() && &q.get<const tracked>() == s.get_if<tracked>() && r.get_if<const string>() == nullptr && r.visit(index{}) == 1, "variant_ref"); } break; }
			}
		});
		sx_assert(s.visit(index{}) == k && (k != 1 || s.get<tracked>().get() == x) && (k != 2 || s.get<string>() == "a string that does not fit in place") && t.get<string>() == "short", "unchanged"); sx_note("x", x);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
SX_HARNESS(h_array_and_tuple) {
	{
		using A = ptl::array<tracked, 3>; using T = ptl::tuple<std::uint8_t, tracked, string>; auto x = sx_u16("x"), y = sx_u16("y"); held<A> a{tracked{x}, tracked{y}}; held<T> t{std::uint8_t(x), tracked{y}, string{std::string_view{"a string that does not fit in place"}}}; const A & c = a.c(); const T & u = t.c(); auto i = sx_range("i", 0, 2); auto op = sx_pick("op", 8);
		shared([&] {
			switch(op) {
				case 0: sx_assert(&c[i] == c.data() + i && &c.at(i) == &a.m()[i] && &c.front() == c.data() && &c.back() == c.data() + 2 && &a.m().at(i) == a.m().data() + i && &*a.m().begin() == c.data() && a.m().end() - a.m().begin() == 3, "element access"); sx_assert(outcome([&] { (void)c.at(3); }) == Thrown::range, "at"); break; case 1: { A d{c}; A e; e = c; sx_assert(d == c && e == d && c[0].get() == x, "copy"); d.fill(tracked{std::uint16_t(1)}); swap(d, e); d.fill(c[1]); sx_assert(d[2].get() == y, "fill"); break; }
				case 2: sx_assert(c == c && !(c != c) && !(c < c) && c <= c && !(c > c) && c >= c, "comparison"); break; case 3: { std::size_t n{0}; for(auto & e : c) n += &e == c.data() + n; for(auto j = c.crbegin(); j != c.crend(); ++j) n += &*j == c.data() + (5 - n); sx_assert(n == 6, "iteration"); break; }
				case 4: sx_assert(u.get<0>() == std::uint8_t(x) && u.get<1>().get() == y && t.m().get<1>().get() == y && u.get<2>().size() == 35, "get"); break; case 5: { T d{u}; sx_assert(d == u && d.get<1>().get() == y, "copy"); d.get<2>().clear(); d = u; T e{std::move(d)}; sx_assert(e.get<2>().size() == 35, "copy"); break; } case 6: sx_assert(u == u && !(u != u) && !(u < u) && u <= u && !(u > u) && u >= u, "comparison"); break;
				case 7: { ptl::array_ref<const tracked> r{c.data(), 3}; ptl::array_ref<tracked> q{a.m().data(), 3}; auto p = r.subrange(1); sx_assert(p.size() == 2 && &p[0] == c.data() + 1 && &r.at(i) == c.data() + i && &q.back() == c.data() + 2 && q.end() - q.begin() == 3 && &r.first(1)[0] == c.data() && &r.last(1)[0] == c.data() + 2, "array_ref"); break; }
			}
		});
		sx_assert(c[0].get() == x && c[1].get() == y && c[2].get() == 0 && u.get<1>().get() == y && u.get<2>().size() == 35, "unchanged"); sx_note("x", x);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
SX_HARNESS(h_references) {
	{
		struct adder { std::uint16_t k; std::uint16_t operator()(std::uint16_t x) const { return static_cast<std::uint16_t>(x + k); } }; auto k = sx_u16("k"), x = sx_u16("x"); held<adder> f{adder{k}}; held<ptl::function_ref<std::uint16_t(std::uint16_t) const>> r{f.c()}; char text[9]; sx_bytes(text, 9, "t"); held<string> s{std::string_view{text, 9}}; held<ptl::string_ref> v{std::string_view{s.c()}}; held<ptl::variant_ref<tracked, string>> q{s.m()}; held<ptl::optional_ref<string>> o{s.m()}; auto op = sx_pick("op", 6);
		shared([&] {
			switch(op) {
				case 0: { sx_assert(r.c()(x) == static_cast<std::uint16_t>(x + k), "call"); auto c{r.c()}; sx_assert(c(x) == static_cast<std::uint16_t>(x + k), "call of a copy"); c = r.c(); sx_assert(c(x) == static_cast<std::uint16_t>(x + k), "call of a copy"); break; } case 1: { const auto & c = v.c(); sx_assert(c.size() == 9 && c.data() == s.c().data() && c[4] == text[4] && c.at(8) == text[8] && c.front() == text[0] && c.back() == text[8] && c == s.c() && !(c < s.c()) && std::hash<ptl::string_ref>{}(c) == std::hash<string>{}(s.c()), "string_ref"); auto d{c}; d.remove_suffix(2); d.remove_prefix(1); sx_assert(d.size() == 6, "string_ref"); break; }
				case 2: { text_out out; out.os << v.c(); sx_assert(out.size() == 9 && same(out.data(), text, 9), "streaming"); std::size_t n{0}; for(auto e : v.c()) n += e == text[n]; sx_assert(n == 9, "iteration"); break; } case 3: { const auto & c = q.c(); auto d{c}; d = c; sx_assert(c.holds<string>() && !c.holds<tracked>() && &c.get<string>() == s.p && c.get_if<tracked>() == nullptr && &d.get<string>() == s.p, "variant_ref"); break; }
				case 4: { sx_assert(q.c().visit([&](string & z) { return &z == s.p; }, [](tracked &) { return false; }), "visit"); break; } case 5: { const auto & c = o.c(); auto d{c}; sx_assert(c && c.has_value() && &*c == s.p && &c.value() == s.p && c->size() == 9 && &*d == s.p, "optional_ref"); break; }
			}
		});
		sx_assert(s.c() == std::string_view(text, 9) && f.c().k == k, "unchanged"); sx_note("k", k);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
