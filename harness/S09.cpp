// BOUND: sources of 0..7 and 30 elements; every sub-range (symbolic bounds) of them; every 64-bit index for at; element types char, uint16 and int (const and mutable); every element symbolic
// BOUND: 128, 255, 256, 300, 65536, 70000 elements (thorough: 12 counts) with every sub-range and every index
// OUTSIDE: invalid ranges; sub-ranges beyond the size
#include "sx.hpp"
#include <vector>
#include <ostream>
#include "ptl/string_ref.hpp"
#include "ptl/array_ref.hpp"
#include "ptl/array.hpp"
#include "ptl/string.hpp"
#include "ptl/vector.hpp"
using namespace sx; using ptl::string_ref; using ptl::array_ref;

static bool is(const string_ref & r, const char * p, std::size_t n) { return r.data() == p && r.size() == n && r.empty() == (n == 0) && std::string_view{r}.data() == p && std::string_view{r}.size() == n && r.max_size() >= n; }
template<typename T> static bool is(const array_ref<T> & r, T * p, std::size_t n) { return r.data() == p && r.size() == n && r.empty() == (n == 0); }
static std::size_t size() { return one_of("n", {0, 1, 2, 3, 5, 7, 30}); }

template<typename R, typename P> static void walk(R & r, P * p, std::size_t n) { // all iterators designate the source's elements in order
	std::size_t i{0}; for(auto & x : r) { sx_assert(i < n && &x == p + i, "forward iteration"); ++i; } sx_assert(i == n, "forward iteration");
	i = 0; for(auto it = r.cbegin(); it != r.cend(); ++it) { sx_assert(&*it == p + i, "const iteration"); ++i; } sx_assert(i == n, "const iteration");
	i = n; for(auto it = r.rbegin(); it != r.rend(); ++it) { --i; sx_assert(&*it == p + i, "reverse iteration"); } sx_assert(i == 0, "reverse iteration");
	i = n; for(auto it = r.crbegin(); it != r.crend(); ++it) { --i; sx_assert(&*it == p + i, "const reverse iteration"); } sx_assert(i == 0, "const reverse iteration");
	const R & c = r; i = 0; for(auto it = c.begin(); it != c.end(); it++) { sx_assert(&*it == p + i, "iteration over a const view"); ++i; } sx_assert(i == n, "iteration over a const view");
	i = n; for(auto it = c.rbegin(); it != c.rend(); ++it) { --i; sx_assert(&*it == p + i, "reverse iteration over a const view"); } sx_assert(i == 0, "reverse iteration over a const view");
	for(i = 0; i < n; ++i) sx_assert(&c[i] == p + i && &c.at(i) == p + i, "indexing"); if(n) sx_assert(&c.front() == p && &c.back() == p + (n - 1), "front and back");
}
template<typename R, typename P> static void at_any(const R & r, P * p, std::size_t n) {
	auto i = sx_u64("index"); P * q{nullptr}; auto t = outcome([&] { q = &r.at(i); });
	sx_assert(t == (i < n ? Thrown::none : Thrown::range), "at throws out_of_range for exactly the indices not below the size"); if(t == Thrown::none) sx_assert(q == p + i, "at");
}
SX_HARNESS(h_string_ref) {
	char c[40]; auto n = size(); sx_bytes(c, n, "c"); char copy[40]; std::memcpy(copy, c, n); string_ref r;
	sx_assert(r.data() == nullptr && r.size() == 0 && r.empty(), "default constructed string_ref");
	switch(sx_pick("from", 5)) {
		case 0: r = string_ref{c, n}; break; case 1: r = string_ref{std::string_view{c, n}}; break; case 2: r = std::string_view{c, n}; break;
		case 3: { std::size_t l{0}; c[n] = 0; if(n > 7) sx_assume(false); for(std::size_t i{0}; i < n; ++i) sx_assume(c[i] != 0); r = string_ref{static_cast<const char *>(c)}; (void)l; sx_reach("C string"); break; }
		case 4: { using namespace ptl::literals; r = operator""_sr(c, n); break; }
	}
	sx_assert(is(r, c, n), "string_ref does not cover the source"); string_ref o{r}; sx_assert(is(o, c, n), "copy");
	walk(r, static_cast<const char *>(c), n); at_any(r, static_cast<const char *>(c), n);
	auto off = sx_range("off", 0, n); sx_assume(off <= n); auto cnt = sx_range("cnt", 0, n); sx_assume(cnt <= n - off);
	sx_assert(is(r.substr(off), c + off, n - off), "substr(offset)"); sx_assert(is(r.substr(off, cnt), c + off, cnt), "substr(offset, count)");
	auto a = r; a.remove_prefix(off); sx_assert(is(a, c + off, n - off), "remove_prefix"); a.remove_suffix(cnt); sx_assert(is(a, c + off, n - off - cnt), "remove_suffix"); auto b = r; b.remove_suffix(off); sx_assert(is(b, c, n - off), "remove_suffix");
	sx_assert(is(r, c, n) && is(o, c, n), "the view itself changed"); bool same{true}; for(std::size_t i{0}; i < n; ++i) same &= c[i] == copy[i]; sx_assert(same, "the source changed");
	sx_reach("end");
}
template<typename T> static void views(T * p, std::size_t n) { // parts of a view over p
	array_ref<T> r{p, n}; auto off = sx_range("off", 0, n); auto cnt = sx_range("cnt", 0, n); sx_assume(cnt <= n - off);
	sx_assert(is(array_ref<T>{p, p + n}, p, n) && is(r, p, n), "array_ref of a range"); sx_assert(is(r.first(cnt), p, cnt), "first"); sx_assert(is(r.last(cnt), p + (n - cnt), cnt), "last"); sx_assert(is(r.subrange(off), p + off, n - off), "subrange(offset)"); sx_assert(is(r.subrange(off, cnt), p + off, cnt), "subrange(offset, count)"); sx_assert(is(r.subrange(off).last(cnt), p + (n - cnt), cnt), "part of a part");
	walk(r, p, n); at_any(r, p, n); array_ref<T> o; sx_assert(is(o, static_cast<T *>(nullptr), 0), "default constructed array_ref"); o = r; sx_assert(is(o, p, n), "assigned array_ref");
}
template<typename T> static void writes(T * p, std::size_t n) {
	array_ref<T> r{p, n}; T copy[40]; for(std::size_t i{0}; i < n; ++i) copy[i] = p[i]; if(n == 0) return; auto i = sx_concretize(sx_range("i", 0, n - 1)); auto v = static_cast<T>(sx_u32("v"));
	switch(sx_pick("by", 6)) { case 0: r[i] = v; break; case 1: r.at(i) = v; break; case 2: *(r.begin() + i) = v; break; case 3: r.rbegin()[n - 1 - i] = v; break; case 4: r.data()[i] = v; break; case 5: r.front() = v; r.back() = v; copy[0] = v; copy[n - 1] = v; i = 0; break; }
	copy[i] = v; for(std::size_t k{0}; k < n; ++k) sx_assert(p[k] == copy[k], "writing through a view");
}
SX_HARNESS(h_array_ref) {
	auto n = size();
	switch(sx_pick("type", 4)) {
		case 0: { std::uint16_t a[32]; sx_bytes(a, 2 * n, "a"); views(a, n); writes(a, n); break; }
		case 1: { int a[32]; sx_bytes(a, 4 * n, "a"); views<const int>(a, n); break; }
		case 2: { char a[32]; sx_bytes(a, n, "a"); views(a, n); writes(a, n); break; }
		case 3: { struct S { std::uint8_t x[3]; }; sx_assume(n <= 3); S a[4]; sx_bytes(a, 3 * n, "a"); views(a, n); break; }
	}
	sx_reach("end");
}
SX_HARNESS(h_containers) {
	{
		auto n = one_of("n", {0, 1, 3, 7});
		switch(sx_pick("from", 9)) {
			case 0: { int a[5]; sx_bytes(a, 20, "a"); array_ref<int> r{a}; sx_assert(is(r, a, 5), "of a C array"); array_ref<const int> c{a}; sx_assert(is<const int>(c, a, 5), "of a C array"); array_ref d{a}; sx_assert(is(d, a, 5), "deduced"); break; }
			case 1: { ptl::array<int, 4> a{1, 2, 3, 4}; array_ref<int> r{a}; sx_assert(is(r, a.data(), 4), "of a ptl::array"); const auto & c = a; array_ref<const int> k{c}; sx_assert(is(k, c.data(), 4), "of a const ptl::array"); array_ref d{c}; sx_assert(is(d, c.data(), 4), "deduced"); break; }
			case 2: { ptl::vector<std::uint16_t> v(n, 3); array_ref<std::uint16_t> r{v}; sx_assert(is(r, v.data(), n), "of a vector"); const auto & c = v; array_ref<const std::uint16_t> k{c}; sx_assert(is(k, c.data(), n), "of a const vector"); array_ref d{v}; sx_assert(is(d, v.data(), n), "deduced"); for(auto & x : r) x = 9; for(auto x : v) sx_assert(x == 9, "write through a view of a vector"); break; }
			case 3: { ptl::string s(n, 'x'); array_ref<const char> r{s}; sx_assert(is<const char>(r, s.data(), n), "of a string"); string_ref q{s}; sx_assert(n == 0 ? q.empty() : is(q, s.data(), n), "string_ref of a string"); break; }
			case 4: { std::vector<int> v(n, 3); array_ref<int> r{v}; sx_assert(is(r, v.data(), n), "of a std::vector"); array_ref<const int> k{v}; sx_assert(is<const int>(k, v.data(), n), "of a std::vector"); break; }
			case 5: { std::array<int, 6> v{}; array_ref<int> r{v}; sx_assert(is(r, v.data(), 6), "of a std::array"); break; }
			case 6: { int a[5]{1, 2, 3, 4, 5}; array_ref<int> r{a, n % 5}; array_ref<int> q{r}; sx_assert(is(q, a, n % 5), "of an array_ref"); array_ref<const int> k{r}; sx_assert(is<const int>(k, a, n % 5), "const view of a mutable view"); break; }
			case 7: { static const char lit[]{"literal\0tail"}; using namespace ptl::literals; auto r = "literal\0tail"_sr; sx_assert(r.size() == 12 && r[8] == 't' && r[7] == 0, "literal with an embedded NUL"); auto e = ""_sr; sx_assert(e.empty(), "empty literal"); string_ref q{lit}; sx_assert(is(q, lit, 7), "C string ends at NUL"); break; }
			case 8: { std::initializer_list<int> l{4, 5, 6}; array_ref<const int> r{l}; sx_assert(is<const int>(r, l.begin(), 3), "of an initializer_list"); break; }
		}
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_large) {
	std::size_t n = SX_THOROUGH ? one_of("n", {127, 128, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 65537, 70000}) : one_of("n", {128, 255, 256, 300, 65536, 70000}); static std::uint16_t e[70001]; static char c[70001]; e[0] = 1; e[n - 1] = 2; c[0] = 'a'; c[n - 1] = 'z';
	array_ref<std::uint16_t> r{e, n}; string_ref s{c, n}; sx_assert(is(r, e, n) && is(s, c, n), "view of many elements"); array_ref<const std::uint16_t> q{r}; sx_assert(is<const std::uint16_t>(q, e, n), "view of many elements");
	at_any(r, e, n); at_any(s, static_cast<const char *>(c), n); auto off = sx_range("off", 0, n); auto cnt = sx_range("cnt", 0, n); sx_assume(cnt <= n - off);
	sx_assert(is(r.first(cnt), e, cnt) && is(r.last(cnt), e + (n - cnt), cnt) && is(r.subrange(off), e + off, n - off) && is(r.subrange(off, cnt), e + off, cnt), "part of many elements"); sx_assert(is(s.substr(off), c + off, n - off) && is(s.substr(off, cnt), c + off, cnt), "part of many characters");
	auto a = s; a.remove_prefix(off); sx_assert(is(a, c + off, n - off), "remove_prefix"); a.remove_suffix(cnt); sx_assert(is(a, c + off, n - off - cnt), "remove_suffix");
	sx_assert(r.end() - r.begin() == static_cast<std::ptrdiff_t>(n) && &r.front() == e && &r.back() == e + (n - 1) && &*r.rbegin() == e + (n - 1) && r.rend() - r.rbegin() == static_cast<std::ptrdiff_t>(n) && s.cend() - s.cbegin() == static_cast<std::ptrdiff_t>(n) && &*s.rbegin() == c + (n - 1), "iterators");
	{ ptl::string str(n, 'x'); string_ref v{str}; sx_assert(is(v, str.data(), n), "string_ref of a long string"); array_ref<const char> w{str}; sx_assert(is<const char>(w, str.data(), n), "array_ref of a long string"); ptl::vector<std::uint16_t> vec(n, std::uint16_t{1}); array_ref<std::uint16_t> x{vec}; sx_assert(is(x, vec.data(), n), "array_ref of a long vector"); static int big[300]; array_ref<int> y{big}; sx_assert(is(y, big, 300), "array_ref of a long array"); }
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
// what a view can be made of: never a mutable view of something const
SX_HARNESS(h_conversions) {
	using M = array_ref<std::uint16_t>; using C = array_ref<const std::uint16_t>; using V = ptl::vector<std::uint16_t>; using A = ptl::array<std::uint16_t, 3>; using O = ptl::vector<std::uint32_t>;
	sx_assert(std::is_constructible_v<M, V &> && std::is_constructible_v<M, A &> && std::is_constructible_v<C, V &> && std::is_constructible_v<C, const V &> && std::is_constructible_v<C, A &> && std::is_constructible_v<C, const A &> && std::is_constructible_v<C, M &> && std::is_constructible_v<C, const M &> && std::is_constructible_v<M, std::uint16_t(&)[3]> && std::is_constructible_v<C, const std::uint16_t(&)[3]>, "views of compatible ranges");
	sx_assert(!std::is_constructible_v<M, const V &> && !std::is_constructible_v<M, const A &> && !std::is_constructible_v<M, C &> && !std::is_constructible_v<M, const C &> && !std::is_constructible_v<M, const std::uint16_t(&)[3]>, "no mutable view of something const");
	sx_assert(!std::is_constructible_v<M, O &> && !std::is_constructible_v<C, O &> && !std::is_constructible_v<C, int> && !std::is_constructible_v<M, std::uint16_t &>, "no view of something else");
	sx_assert(std::is_convertible_v<const char *, string_ref> && std::is_convertible_v<std::string_view, string_ref> && std::is_convertible_v<ptl::string &, string_ref> == std::is_convertible_v<const ptl::string &, string_ref> && std::is_convertible_v<string_ref, std::string_view>, "conversions of string_ref");
	auto n = sx_pick("n", 3); std::uint16_t a[3]; sx_bytes(a, 6, "a"); V v(a, a + n); const V & cv{v}; const M m{v}; const C c{cv}, d{m}, e{v}; sx_assert(is(m, v.data(), n) && is(c, cv.data(), n) && is(d, cv.data(), n) && is(e, cv.data(), n), "views");
	using std::begin; sx_assert(std::is_same_v<decltype(m[0]), std::uint16_t &> && std::is_same_v<decltype(m.front()), std::uint16_t &> && std::is_same_v<decltype(c[0]), const std::uint16_t &> && std::is_same_v<decltype(c.data()), const std::uint16_t *> && std::is_same_v<decltype(*std::declval<M &>().begin()), std::uint16_t &> && std::is_same_v<decltype(*std::declval<C &>().begin()), const std::uint16_t &>, "element types");
	sx_reach("end");
}
