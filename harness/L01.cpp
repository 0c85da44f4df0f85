// BOUND: strings and vectors of lengths around 0, 22/23 and the capacity steps in four ways of reaching them plus one further operation; optionals and variants of seven and four types in every state and after every kind of operation; bitsets of 1..129 bits after every operation; arrays, tuples, views and references; every value symbolic
// OUTSIDE: other element types; layouts of other targets than x86-64
#include "vars.hpp"
#include "str.hpp"
#include "vec.hpp"
#include "bits.hpp"
#include "ptl/optional.hpp"
#include "ptl/array.hpp"
#include "ptl/tuple.hpp"
#include "ptl/string_ref.hpp"
#include "ptl/array_ref.hpp"
#include "ptl/optional_ref.hpp"
#include "ptl/variant_ref.hpp"
#include "ptl/function_ref.hpp"
using namespace sx;

template<typename W, typename T> static W word(const T & o, std::size_t at) { W w; std::memcpy(&w, reinterpret_cast<const unsigned char *>(std::addressof(o)) + at, sizeof(W)); return w; }
using dealloc_t = void(*)(char *);

// strings
static void layout(const ptl::string & s, const model & m) {
	sx_assert(sizeof(s) == 32, "size of a string"); auto d = word<dealloc_t>(s, 0); auto raw = reinterpret_cast<const char *>(&s);
	if(!d) { sx_assert(m.n <= 22 && s.capacity() == 22, "inline strings have at most 22 characters"); sx_assert(word<unsigned char>(s, 8) == m.n, "size byte of an inline string"); sx_assert(same(raw + 9, m.d, m.n) && raw[9 + m.n] == 0, "characters and NUL of an inline string"); sx_assert(s.data() == raw + 9, "characters in place"); sx_reach("inline"); }
	else { auto p = word<const char *>(s, 8); auto cap = word<std::size_t>(s, 16); auto siz = word<std::size_t>(s, 24); sx_assert(siz == m.n && cap >= m.n, "size and capacity of a heap string"); sx_assert(cap == s.capacity(), "capacity of a heap string"); sx_assert(p == s.data() && same(p, m.d, m.n) && p[m.n] == 0, "buffer of a heap string"); sx_reach("heap"); }
}
SX_HARNESS(h_string) {
	{
		ptl::string s; layout(s, model{}); auto n = SX_REDUCED ? one_of("n", {0, 5, 22, 23}) : few_lengths("n"); model m; fill_any(s, m, n); layout(s, m); ptl::string t{"Z"}; model k{"Z", 1}; if(sx_pick("other", 2)) { k.set("0123456789abcdefghijklmnopq", 27); t = "0123456789abcdefghijklmnopq"; } auto c = static_cast<char>(sx_u8("c"));
		switch(sx_pick("op", SX_REDUCED ? 8 : 14)) {
			case 0: s.push_back(c); m.splice(m.n, 0, &c, 1); break; case 1: s.swap(t); std::swap(m, k); break; case 2: s = t; m = k; break; case 3: s = std::move(t); m = k; layout(s, m); t = "y"; k.set("y", 1); break; case 4: { ptl::string u{std::move(s)}; layout(u, m); s.assign(1, c); m.set(&c, 1); break; } case 5: { ptl::string u{s}; layout(u, m); break; } case 6: s.shrink_to_fit(); break; case 7: if(n) { s.pop_back(); m.splice(m.n - 1, 1, m.d, 0); } break;
			case 8: s.reserve(60); break; case 9: s.clear(); m.n = 0; break; case 10: s.resize(n / 2); m.n = n / 2; break; case 11: s.insert(s.begin(), c); m.splice(0, 0, &c, 1); break; case 12: { if(n) { s.erase(s.begin()); m.splice(0, 1, m.d, 0); } s.shrink_to_fit(); break; } case 13: swap(t, s); std::swap(m, k); break;
		}
		layout(s, m); layout(t, k); note(s);
	}
	sx_reach("end");
}
// vectors
template<typename T> static void layout(const ptl::vector<T> & v, const vmodel & m) {
	sx_assert(sizeof(v) == 32, "size of a vector"); auto d = word<dealloc_t>(v, 0); auto p = word<const T *>(v, 8); auto cap = word<std::size_t>(v, 16); auto siz = word<std::size_t>(v, 24);
	sx_assert(siz == m.n && cap >= m.n && cap == v.capacity(), "size and capacity of a vector"); sx_assert(p == v.data(), "buffer of a vector"); if(d) { sx_assert(p != nullptr && same(p, m.d, m.n), "elements of a vector"); sx_reach("buffer"); } else { sx_assert(p == nullptr && cap == 0, "a vector without buffer"); sx_reach("no buffer"); }
}
template<typename T> static void vectors() {
	ptl::vector<T> v; layout(v, vmodel{}); auto n = one_of("n", {0, 1, 5, 10, 11, 21}); vmodel m; fill_any(v, m, n); layout(v, m); ptl::vector<T> w; vmodel k; if(sx_pick("other", 2)) { w.push_back(T(std::uint16_t{3})); k.fill(0, 1, 3); } auto x = sx_u16("x");
	switch(sx_pick("op", 12)) {
		case 0: v.push_back(T(x)); m.fill(m.n, 1, x); break; case 1: v.swap(w); std::swap(m, k); break; case 2: v = w; m = k; break; case 3: v = std::move(w); m = k; layout(v, m); w.clear(); w.push_back(T(x)); k.n = 0; k.fill(0, 1, x); break; case 4: { ptl::vector<T> u{std::move(v)}; layout(u, m); v.clear(); m.n = 0; break; } case 5: { ptl::vector<T> u{v}; layout(u, m); break; } case 6: v.shrink_to_fit(); break; case 7: v.clear(); m.n = 0; break; case 8: v.reserve(40); break; case 9: v.insert(v.begin(), T(x)); m.fill(0, 1, x); break; case 10: if(n) { v.erase(v.begin()); m.erase(0, 1); } break; case 11: v.clear(); m.n = 0; v.shrink_to_fit(); break;
	}
	layout(v, m); layout(w, k); note(v);
}
SX_HARNESS(h_vector) { if(sx_pick("type", 2)) vectors<std::uint16_t>(); else vectors<tracked>(); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end"); }

// optionals: the value, then 0 or 1
struct odd3 { unsigned char a[3]; }; inline bool operator==(const odd3 & l, const odd3 & r) { return l.a[0] == r.a[0]; }
template<typename T> static void optionals() {
	using O = ptl::optional<T>; sx_assert(sizeof(O) == sizeof(T) + 1, "size of an optional"); unsigned char a[sizeof(T)], b[sizeof(T)]; sx_bytes(a, sizeof(T), "a"); sx_bytes(b, sizeof(T), "b"); if constexpr(std::is_same_v<T, bool>) { a[0] &= 1; b[0] &= 1; } T x, y; std::memcpy(&x, a, sizeof(T)); std::memcpy(&y, b, sizeof(T));
	auto is = [](const O & o, const unsigned char * v, const char * what) { auto f = word<unsigned char>(o, sizeof(T)); sx_assert(f == (v ? 1 : 0), what); if(v) { bool ok{true}; for(std::size_t i{0}; i < sizeof(T); ++i) ok &= word<unsigned char>(o, i) == v[i]; sx_assert(ok, what); sx_assert(static_cast<const void *>(std::addressof(*o)) == std::addressof(o), what); } };
	O o, e; O f{x}; is(o, nullptr, "empty"); is(f, a, "engaged"); const O g{y}; bool start = sx_pick("engaged", 2); if(start) o = x; is(o, start ? a : nullptr, "assigned");
	switch(sx_pick("op", 18)) {
		case 0: o = y; is(o, b, "assigned"); break; case 1: o = std::move(y); is(o, b, "assigned"); break; case 2: o = g; is(o, b, "assigned"); break; case 3: o = O{g}; is(o, b, "assigned"); break; case 4: o = e; is(o, nullptr, "assigned"); break; case 5: o = std::nullopt; is(o, nullptr, "nullopt"); break; case 6: o.reset(); is(o, nullptr, "reset"); break; case 7: o.emplace(y); is(o, b, "emplace"); break; case 8: o.swap(f); is(o, a, "swap"); is(f, start ? a : nullptr, "swap"); break; case 9: swap(o, e); is(o, nullptr, "swap"); is(e, start ? a : nullptr, "swap"); break;
		case 10: { O t{g}; is(t, b, "copy"); break; } case 11: { O t{o}; is(t, start ? a : nullptr, "copy"); break; } case 12: { O t{std::move(o)}; is(t, start ? a : nullptr, "move"); break; } case 13: { O t{std::nullopt}; is(t, nullptr, "nullopt"); break; } case 14: { O t{std::in_place, y}; is(t, b, "in place"); break; } case 15: { O t{std::move(y)}; is(t, b, "from an rvalue"); break; } case 16: { auto & s = o; o = s; is(o, start ? a : nullptr, "self-assignment"); break; } case 17: o = O{}; is(o, nullptr, "assigned"); break;
	}
	// object bytes made elsewhere are understood here
	unsigned char raw[sizeof(T) + 1]; std::memcpy(raw, b, sizeof(T)); raw[sizeof(T)] = 1; { O t; std::memcpy(static_cast<void *>(&t), raw, sizeof(raw)); sx_assert(t.has_value(), "flag byte 1"); is(t, b, "foreign"); raw[sizeof(T)] = 0; std::memcpy(static_cast<void *>(&t), raw, sizeof(raw)); sx_assert(!t.has_value(), "flag byte 0"); }
}
SX_HARNESS(h_optional) { switch(sx_pick("type", 7)) { case 0: optionals<std::uint8_t>(); break; case 1: optionals<bool>(); break; case 2: optionals<std::uint16_t>(); break; case 3: optionals<std::uint32_t>(); break; case 4: optionals<std::uint64_t>(); break; case 5: optionals<odd3>(); break; case 6: optionals<const char *>(); break; } sx_reach("end"); }

// variants: the alternatives share the start, the index byte follows the largest
SX_HARNESS(h_variant) {
	{
		sx_assert(sizeof(V) == sizeof(wide) + 1, "size of a variant"); auto is = [](const V & v, const alt & m, const char * what) { sx_assert(word<unsigned char>(v, sizeof(wide)) == m.at, what); switch(m.at) { case 0: sx_assert(word<std::uint8_t>(v, 0) == m.v, what); break; case 1: sx_assert(word<std::uint16_t>(v, 0) == m.v && word<std::uint8_t>(v, 2) == 0, what); break; case 2: sx_assert(word<std::uint16_t>(v, 0) == m.v && word<std::uint16_t>(v, 2) == static_cast<std::uint16_t>(m.v + 1) && word<std::uint16_t>(v, 10) == static_cast<std::uint16_t>(m.v + 1), what); break; case 3: sx_assert(word<std::uint32_t>(v, 0) == m.v, what); break; } v.visit([&](auto & x) { sx_assert(static_cast<const void *>(std::addressof(x)) == std::addressof(v), what); }); };
		V a, b; alt m, k; is(a, {0, 0}, "default"); sx::fill(a, m, "a"); is(a, m, "filled"); sx::fill(b, k, "b", 1); is(b, k, "filled"); auto x = sx_u16("x");
		switch(sx_pick("op", 9)) { case 0: a = b; m = k; break; case 1: a = std::move(b); m = k; is(a, m, "moved"); b = std::uint8_t{1}; k = {0, 1}; break; case 2: a.swap(b); std::swap(m, k); break; case 3: a.emplace<wide>(x); m = {2, x}; break; case 4: a = tracked{x}; m = {1, x}; break; case 5: a.emplace<3>(x); m = {3, x}; break; case 6: { V c{a}; is(c, m, "copy"); break; } case 7: { V c{std::move(a)}; is(c, m, "move"); a = std::uint32_t{2}; m = {3, 2}; break; } case 8: { V c{std::in_place_index<2>, x}; is(c, {2, x}, "in place"); V d{std::in_place_type<std::uint32_t>, x}; is(d, {3, x}, "in place"); break; } }
		is(a, m, "operation"); is(b, k, "other"); sx_note("at", m.at);
	}
	{ using U = ptl::variant<char, std::uint64_t, std::uint16_t>; sx_assert(sizeof(U) == 9, "size of a variant"); U u; auto x = sx_u64("y"); unsigned char raw[9]; std::memcpy(raw, &x, 8); raw[8] = 1; std::memcpy(static_cast<void *>(&u), raw, 9); sx_assert(u.holds<std::uint64_t>() && u.get<std::uint64_t>() == x, "foreign"); raw[8] = 2; std::memcpy(static_cast<void *>(&u), raw, 9); sx_assert(u.holds<std::uint16_t>() && u.get<std::uint16_t>() == static_cast<std::uint16_t>(x), "foreign"); raw[8] = 0; std::memcpy(static_cast<void *>(&u), raw, 9); sx_assert(u.holds<char>() && u.get<char>() == static_cast<char>(x), "foreign"); }
	sx_assert(sx_life_count() == 0, "all values destroyed"); sx_reach("end");
}
// bitsets: bit i is bit i%8 of byte i/8, unused bits are zero
template<std::size_t N> static void layout(const ptl::bitset<N> & s, const bits<N> & m, const char * what) { sx_assert(sizeof(s) == bytes_of<N>, "size of a bitset"); bool ok{true}; for(std::size_t i{0}; i < sizeof(s) * 8; ++i) ok &= (word<unsigned char>(s, i / 8) >> (i % 8) & 1) == (i < N ? m.b[i] : 0); sx_assert(ok, what); }
SX_HARNESS(h_bitset) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; ptl::bitset<N> s, o; bits<N> m, k; layout(s, m, "no bits"); fill(s, m); fill(o, k, "c"); layout(s, m, "any bits"); auto sh = N ? N / 3 : 0;
		switch(sx_pick("op", 14)) {
			case 0: s.set(); for(std::size_t i{0}; i < N; ++i) m.b[i] = 1; break; case 1: s.reset(); for(auto & x : m.b) x = 0; break; case 2: s.flip(); for(auto & x : m.b) x ^= 1; break; case 3: s = ~s; for(auto & x : m.b) x ^= 1; break; case 4: s &= o; for(std::size_t i{0}; i < N; ++i) m.b[i] &= k.b[i]; break; case 5: s |= o; for(std::size_t i{0}; i < N; ++i) m.b[i] |= k.b[i]; break; case 6: s ^= o; for(std::size_t i{0}; i < N; ++i) m.b[i] ^= k.b[i]; break; case 7: s.swap(o); std::swap(m, k); break;
			case 8: { s <<= sh; bits<N> t; for(std::size_t i{sh}; i < N; ++i) t.b[i] = m.b[i - sh]; m = t; break; } case 9: { s >>= sh; bits<N> t; for(std::size_t i{0}; i + sh < N; ++i) t.b[i] = m.b[i + sh]; m = t; break; } case 10: if(N) { s.set(N - 1); m.b[N - 1] = 1; } break; case 11: if(N) { s.flip(N / 2); m.b[N / 2] ^= 1; } break; case 12: if(N) { s[N - 1] = o[0]; m.b[N - 1] = k.b[0]; } break; case 13: { auto v = static_cast<std::uint64_t>(sx_range("v", 0, 15)) << (8 * sx_pick("at", 8)); ptl::bitset<N> t{v}; bits<N> e; for(std::size_t i{0}; i < N && i < 64; ++i) e.b[i] = v >> i & 1; layout(t, e, "from an integer"); break; }
		}
		for(std::size_t i{N}; i < N + 1; ++i) m.b[i] = 0; layout(s, m, "after an operation"); layout(o, k, "right operand");
	});
	sx_reach("end");
}
// arrays and tuples
SX_HARNESS(h_aggregate) {
	auto x = sx_u32("x"); auto y = sx_u16("y"); auto z = sx_u8("z"); auto w = sx_u64("w");
	{ ptl::array<std::uint16_t, 5> a{std::uint16_t(y), std::uint16_t(1), std::uint16_t(x), std::uint16_t(z)}, b{a}; sx_assert(sizeof(a) == 10, "size of an array"); auto is = [&](const auto & c) { sx_assert(word<std::uint16_t>(c, 0) == y && word<std::uint16_t>(c, 2) == 1 && word<std::uint16_t>(c, 4) == static_cast<std::uint16_t>(x) && word<std::uint16_t>(c, 6) == z && word<std::uint16_t>(c, 8) == 0, "elements of an array"); }; is(a); is(b); a.fill(3); a.swap(b); is(a); for(int i{0}; i < 5; ++i) sx_assert(word<std::uint16_t>(b, 2 * i) == 3, "elements of an array"); ptl::array<odd3, 3> c{}; sx_assert(sizeof(c) == 9 && sizeof(ptl::array<std::uint64_t, 1>) == 8 && sizeof(ptl::array<std::uint8_t, 7>) == 7, "size of an array"); }
	{ using T = ptl::tuple<std::uint8_t, std::uint32_t, std::uint16_t, std::uint64_t>; sx_assert(sizeof(T) == 15, "size of a tuple"); T t{std::uint8_t(z), std::uint32_t(x), std::uint16_t(y), std::uint64_t(w)}; auto is = [&](const T & u) { sx_assert(word<std::uint64_t>(u, 0) == w && word<std::uint16_t>(u, 8) == y && word<std::uint32_t>(u, 10) == x && word<std::uint8_t>(u, 14) == z, "elements of a tuple"); }; is(t); auto u{std::as_const(t)}; is(u); t.get<0>() = 1; t.get<1>() = 2; t.get<2>() = 3; t.get<3>() = 4; swap(t, u); is(t); sx_assert(word<std::uint64_t>(u, 0) == 4 && word<std::uint16_t>(u, 8) == 3 && word<std::uint32_t>(u, 10) == 2 && word<std::uint8_t>(u, 14) == 1, "elements of a tuple"); u = std::as_const(t); is(u); sx_assert(sizeof(ptl::tuple<>) == 1 && sizeof(ptl::tuple<std::uint64_t, char>) == 9 && sizeof(ptl::tuple<odd3, odd3>) == 6, "size of a tuple"); unsigned char raw[15]; std::memcpy(raw, &w, 8); std::memcpy(raw + 8, &y, 2); std::memcpy(raw + 10, &x, 4); raw[14] = 9; std::memcpy(static_cast<void *>(&u), raw, 15); sx_assert(u.get<0>() == 9 && u.get<1>() == x && u.get<2>() == y && u.get<3>() == w, "foreign"); }
	sx_note("x", x); sx_reach("end");
}
// views: begin, end
SX_HARNESS(h_views) {
	char c[6]; sx_bytes(c, 6, "c"); for(int i{0}; i < 5; ++i) if(c[i] == 0) c[i] = 1; c[5] = 0; auto n = sx_pick("n", 6); std::uint32_t d[5]; sx_bytes(d, 20, "d");
	sx_assert(sizeof(ptl::string_ref) == 16 && sizeof(ptl::array_ref<std::uint32_t>) == 16 && sizeof(ptl::array_ref<const char>) == 16, "size of a view"); auto is = [&](const ptl::string_ref & r, const char * f, std::size_t k) { sx_assert(word<const char *>(r, 0) == f && word<const char *>(r, 8) == f + k, "begin and end of a string_ref"); sx_assert(r.data() == f && r.size() == k, "view"); }; auto ia = [&](const auto & r, const std::uint32_t * f, std::size_t k) { sx_assert(word<const std::uint32_t *>(r, 0) == f && word<const std::uint32_t *>(r, 8) == f + k, "begin and end of an array_ref"); sx_assert(r.data() == f && r.size() == k, "view"); };
	{ ptl::string_ref e; sx_assert(word<const char *>(e, 0) == nullptr && word<const char *>(e, 8) == nullptr, "empty view"); ptl::string_ref r{c, n}; is(r, c, n); ptl::string_ref q{c}; is(q, c, 5); ptl::string_ref w{std::string_view{c, n}}; is(w, c, n); auto s{r}; is(s, c, n); s = q; is(s, c, 5); std::swap(s, r); is(s, c, n); is(r, c, 5); r.remove_prefix(1); is(r, c + 1, 4); r.remove_suffix(2); is(r, c + 1, 2); auto t = q.substr(2, 2); is(t, c + 2, 2); const char * raw[]{c + 1, c + n}; if(n) { std::memcpy(static_cast<void *>(&r), raw, 16); is(r, c + 1, n - 1); } }
	{ ptl::array_ref<std::uint32_t> e; sx_assert(word<const void *>(e, 0) == nullptr && word<const void *>(e, 8) == nullptr, "empty view"); ptl::array_ref<std::uint32_t> r{d}; ia(r, d, 5); auto k = n > 5 ? 5 : n; ptl::array_ref<std::uint32_t> q{d, d + k}; ia(q, d, k); ptl::array_ref<const std::uint32_t> z{q}; ia(z, d, k); auto s{r}; ia(s, d, 5); std::swap(s, q); ia(s, d, k); ia(q, d, 5); s = q; ia(s, d, 5); ptl::array<std::uint32_t, 3> a; ptl::array_ref<std::uint32_t> t{a}; ia(t, a.data(), 3); std::uint32_t * raw[]{d + 1, d + 4}; std::memcpy(static_cast<void *>(&t), raw, 16); ia(t, d + 1, 3); }
	sx_reach("end");
}
// references
static std::uint32_t thunk(const void * self, std::uint32_t x) { return **static_cast<std::uint32_t * const *>(self) + x; }
static std::uint32_t twice(std::uint32_t x) { return 2 * x; }
SX_HARNESS(h_references) {
	auto x = sx_u32("x"); std::uint32_t o{x}; std::uint16_t p{static_cast<std::uint16_t>(x)};
	{ using R = ptl::optional_ref<std::uint32_t>; sx_assert(sizeof(R) == 8, "size of an optional_ref"); R e, r{o}, n{std::nullopt}; sx_assert(word<void *>(e, 0) == nullptr && word<void *>(n, 0) == nullptr && word<void *>(r, 0) == &o, "optional_ref is a pointer"); auto c{r}; sx_assert(word<void *>(c, 0) == &o, "optional_ref is a pointer"); c = e; sx_assert(word<void *>(c, 0) == nullptr, "optional_ref is a pointer"); ptl::optional<std::uint32_t> q{x}, k; R s{q}, t{k}; sx_assert(word<void *>(s, 0) == std::addressof(*q) && word<void *>(t, 0) == nullptr, "optional_ref is a pointer"); void * raw{&o}; std::memcpy(static_cast<void *>(&t), &raw, 8); sx_assert(t.has_value() && &*t == &o, "foreign"); }
	{ using R = ptl::variant_ref<std::uint32_t, const std::uint16_t, std::uint16_t>; sx_assert(sizeof(R) == 16, "size of a variant_ref"); R r{o}; auto is = [](const R & v, const void * to, std::size_t at) { sx_assert(word<const void *>(v, 0) == to, "object pointer of a variant_ref"); sx_assert(word<std::size_t>(v, 8) == at, "index of a variant_ref"); }; is(r, &o, 0); R s{p}; is(s, &p, 2); R t{std::as_const(p)}; is(t, &p, 1); R c{s}; is(c, &p, 2); c = r; is(c, &o, 0); r = t; is(r, &p, 1); struct { void * p; std::size_t i; } raw{&p, 2}; std::memcpy(static_cast<void *>(&r), &raw, 16); sx_assert(r.holds<std::uint16_t>() && &r.get<std::uint16_t>() == &p && !r.get_if<const std::uint16_t>(), "foreign"); }
	{ using R = ptl::function_ref<std::uint32_t(std::uint32_t)>; sx_assert(sizeof(R) == 16, "size of a function_ref"); auto y = sx_u32("y"); auto f = [&](std::uint32_t v) { return v + o; }; R r{f}; using T = std::uint32_t(*)(const void *, std::uint32_t); sx_assert(word<void *>(r, 0) == &f, "object pointer of a function_ref"); void * w{word<void *>(r, 0)}; sx_assert(word<T>(r, 8)(&w, y) == y + x, "thunk of a function_ref"); auto c{r}; sx_assert(word<void *>(c, 0) == &f && word<T>(c, 8) == word<T>(r, 8), "copy"); R g{twice}; sx_assert(word<std::uint32_t(*)(std::uint32_t)>(g, 0) == twice, "function pointer of a function_ref"); c = g; w = word<void *>(c, 0); sx_assert(word<T>(c, 8)(&w, y) == 2 * y, "thunk of a function_ref"); struct { void * p; T t; } raw{&o, thunk}; std::memcpy(static_cast<void *>(&c), &raw, 16); sx_assert(c(y) == x + y, "foreign"); const auto k{c}; sx_assert(k(y) == x + y, "foreign"); }
	sx_reach("end");
}
