// BOUND: the const and mutable iterators of array, array_ref, string, string_ref and vector over ranges of 0, 1 and 7 elements (inline and heap strings; thorough: also 26), every pair of positions, reached by each kind of movement, symbolic elements; every pair of positions in ranges of up to 2^20 bytes of elements of 1, 2, 12 and 24 bytes (position arithmetic and comparison; 8 positions each when the size is not a power of two)
// OUTSIDE: what elements of longer ranges contain; positions outside the range (undefined)
#include "str.hpp"
#include "vec.hpp"
#include "ptl/array.hpp"
#include "ptl/array_ref.hpp"
#include "ptl/string_ref.hpp"
using namespace sx;

template<typename It, typename E> static void is_at(It it, It begin, It end, E * data, std::size_t n, std::size_t i, const char * what) { // E: (const) element
	static_assert(std::is_same_v<decltype(*it), E &> && std::is_same_v<decltype(it.operator->()), E *>);
	if(i < n) { sx_assert(std::addressof(*it) == data + i, what); sx_assert(it.operator->() == data + i, what); sx_assert(std::addressof(it[0]) == data + i, what); } else sx_assert(it == end && !(it != end), what);
	sx_assert(it - begin == static_cast<std::ptrdiff_t>(i), what); sx_assert(end - it == static_cast<std::ptrdiff_t>(n - i), what); sx_assert((it == begin) == (i == 0), what);
}
template<typename It> static It reach(It begin, It end, std::size_t n, std::size_t i, std::size_t how) {
	auto d = static_cast<std::ptrdiff_t>(i), r = static_cast<std::ptrdiff_t>(n - i); It it{begin};
	switch(how) { case 0: return begin + d; case 1: return d + begin; case 2: it += d; return it; case 3: for(; d; --d) ++it; return it; case 4: for(; d; --d) it++; return it; case 5: return end - r; case 6: it = end; it -= r; return it; case 7: it = end; for(; r; --r) --it; return it; case 8: it = end; for(; r; --r) it--; return it; case 9: it = end; it += -r; return it; case 10: return end + -r; case 11: it -= -d; return it; default: return begin - -d; }
}
template<typename L, typename R> static void order(const L & l, const R & r, std::ptrdiff_t d, const char * what) { sx_assert((l == r) == (d == 0), what); sx_assert((l != r) == (d != 0), what); sx_assert((l < r) == (d < 0), what); sx_assert((l <= r) == (d <= 0), what); sx_assert((l > r) == (d > 0), what); sx_assert((l >= r) == (d >= 0), what); sx_assert(l - r == d, what); }
template<typename It, typename E> static void laws(It begin, It end, E * data, std::size_t n) {
	using T = std::iterator_traits<It>; static_assert(std::is_base_of_v<std::random_access_iterator_tag, typename T::iterator_category> && std::is_same_v<typename T::reference, E &> && std::is_same_v<typename T::pointer, E *> && std::is_same_v<typename T::value_type, std::remove_const_t<E>> && std::is_same_v<typename T::difference_type, std::ptrdiff_t>);
	auto i = sx_concretize(sx_range("i", 0, n)); auto j = sx_concretize(sx_range("j", 0, n)); auto d = static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i); auto how = sx_pick("how", 13);
	const It a = reach(begin, end, n, i, how); const It b = reach(begin, end, n, j, 0); is_at<It, E>(a, begin, end, data, n, i, "moving to a position"); is_at<It, E>(b, begin, end, data, n, j, "moving to a position");
	order(a, b, -d, "comparing positions"); order(b, a, d, "comparing positions"); order(a, a, 0, "comparing positions"); is_at<It, E>(a + d, begin, end, data, n, j, "+"); is_at<It, E>(d + a, begin, end, data, n, j, "+"); is_at<It, E>(b - d, begin, end, data, n, i, "-"); is_at<It, E>(a - -d, begin, end, data, n, j, "-"); if(j < n) sx_assert(std::addressof(a[d]) == data + j, "[]");
	{ It t{a}; auto r = &(t += d); sx_assert(r == &t, "+="); is_at<It, E>(t, begin, end, data, n, j, "+="); auto s = &(t -= d); sx_assert(s == &t, "-="); is_at<It, E>(t, begin, end, data, n, i, "-="); t = b; is_at<It, E>(t, begin, end, data, n, j, "assignment"); t = t; is_at<It, E>(t, begin, end, data, n, j, "assignment"); is_at<It, E>(a, begin, end, data, n, i, "operands stay where they are"); is_at<It, E>(b, begin, end, data, n, j, "operands stay where they are"); }
	if(i < n) { It t{a}; auto p = &++t; sx_assert(p == &t, "++"); is_at<It, E>(t, begin, end, data, n, i + 1, "++"); auto q = &--t; sx_assert(q == &t, "--"); is_at<It, E>(t, begin, end, data, n, i, "--"); It o{t++}; is_at<It, E>(o, begin, end, data, n, i, "postfix ++"); is_at<It, E>(t, begin, end, data, n, i + 1, "postfix ++"); It u{t--}; is_at<It, E>(u, begin, end, data, n, i + 1, "postfix --"); is_at<It, E>(t, begin, end, data, n, i, "postfix --"); std::reverse_iterator<It> v{t + 1}; sx_assert(std::addressof(*v) == data + i, "reverse"); if(i + 1 < n) { E & x = *o++; sx_assert(std::addressof(x) == data + i && std::addressof(*o) == data + i + 1, "*it++"); } }
	{ It x, y; sx_assert(x == y && !(x != y) && x - y == 0 && !(x < y) && x <= y && x >= y && !(x > y), "default constructed iterators are equal"); x = a; is_at<It, E>(x, begin, end, data, n, i, "assigned to a default constructed iterator"); It z{}; sx_assert(z == y, "value-initialised"); std::swap(x, y); is_at<It, E>(y, begin, end, data, n, i, "swapped"); sx_assert(std::distance(a, b) == d && std::next(a, d) == b && std::prev(b, d) == a, "generic algorithms"); }
	sx_note("d", static_cast<std::uint64_t>(d));
}
template<typename It, typename CIt> static void mixed(It begin, It end, CIt cbegin, CIt cend, std::size_t n) { // conversion keeps the position; both kinds compare and subtract
	auto i = sx_concretize(sx_range("i", 0, n)); auto j = sx_concretize(sx_range("j", 0, n)); auto d = static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i); It a{begin + static_cast<std::ptrdiff_t>(i)}; CIt b{cbegin + static_cast<std::ptrdiff_t>(j)}; CIt c{a}; static_assert(std::is_convertible_v<It, CIt> && (std::is_same_v<It, CIt> || !std::is_convertible_v<CIt, It>));
	sx_assert(c - cbegin == static_cast<std::ptrdiff_t>(i) && cend - c == static_cast<std::ptrdiff_t>(n - i), "conversion keeps the position"); if(i < n) sx_assert(std::addressof(*c) == std::addressof(*a), "conversion keeps the position"); order(CIt{a}, b, -d, "comparing with a const iterator"); order(b, CIt{a}, d, "comparing with a const iterator"); c = end; sx_assert(c == cend, "assignment from a mutable iterator"); It e{}; CIt f{e}; sx_assert(f == CIt{}, "converted default"); sx_assert(begin + (cend - cbegin) == end, "distance");
}
template<typename C, typename E> static void container(C & c, E * data, std::size_t n) {
	const C & k = c; using I = decltype(c.begin()); using K = decltype(k.begin()); sx_assert(c.size() == n, "size"); sx_assert(c.end() - c.begin() == static_cast<std::ptrdiff_t>(n) && k.end() - k.begin() == static_cast<std::ptrdiff_t>(n) && k.cend() - k.cbegin() == static_cast<std::ptrdiff_t>(n), "length of the range");
	using KE = std::remove_reference_t<decltype(*k.begin())>;
	switch(sx_pick("iterators", 3)) { case 0: laws<I, E>(c.begin(), c.end(), data, n); break; case 1: laws<K, KE>(k.cbegin(), k.cend(), data, n); break; case 2: mixed<I, K>(c.begin(), c.end(), k.begin(), k.end(), n); break; }
	if(n) { auto i = n / 2; sx_assert(std::addressof(*(c.rbegin() + static_cast<std::ptrdiff_t>(i))) == data + (n - 1 - i) && std::addressof(*(k.crbegin() + static_cast<std::ptrdiff_t>(i))) == data + (n - 1 - i) && std::addressof(*(k.rend() - 1)) == data && std::addressof(*(c.rend() - 1)) == data && std::addressof(*(k.crend() - 1)) == data && std::addressof(*k.rbegin()) == data + n - 1, "reverse iterators"); } else sx_assert(c.rbegin() == c.rend() && k.rbegin() == k.rend() && k.crbegin() == k.crend(), "reverse iterators");
}
static std::size_t count() { return SX_THOROUGH ? one_of("n", {0, 1, 2, 7, 26}) : one_of("n", {0, 1, 7}); }
SX_HARNESS(h_vector) { { auto n = count(); ptl::vector<std::uint16_t> v; vmodel m; fill(v, m, n, sx_pick("mode", 2) ? v_spare : v_exact); container(v, v.data(), n); if(n) { auto x = sx_u16("x"); *(v.begin() + static_cast<std::ptrdiff_t>(n - 1)) = x; v.begin()[0] = x; m.d[0] = m.d[n - 1] = x; check(v, m, "write through an iterator"); } } sx_reach("end"); }
SX_HARNESS(h_vector_class) { { auto n = count(); ptl::vector<tracked> v; vmodel m; fill(v, m, n, v_exact); container(v, v.data(), n); if(n) { (v.end() - 1)->v = 5; m.d[n - 1] = 5; check(v, m, "write through an iterator"); } } sx_reach("end"); }
SX_HARNESS(h_string) { { auto n = sx_pick("long", 2) ? 25 : count(); ptl::string s; model m; fill(s, m, n, tight); container(s, s.data(), n); if(n) { auto x = static_cast<char>(sx_u8("x")); *(s.end() - 1) = x; s.begin()[0] = x; m.d[0] = m.d[n - 1] = x; check(s, m, "write through an iterator"); } } sx_reach("end"); }
template<std::size_t N> static void arrays() { ptl::array<std::uint16_t, N> a; std::uint16_t m[N + 1]; for(std::size_t i{0}; i < N; ++i) { m[i] = sx_u16("e"); a[i] = m[i]; } container(a, a.data(), N); bool ok{true}; for(std::size_t i{0}; i < N; ++i) ok &= a[i] == m[i]; sx_assert(ok, "iterators change nothing"); }
SX_HARNESS(h_array) { switch(sx_pick("n", 3)) { case 0: arrays<0>(); break; case 1: arrays<1>(); break; case 2: arrays<7>(); break; } sx_reach("end"); }
SX_HARNESS(h_array_ref) { { std::uint16_t d[26]; auto n = count(); sx_bytes(d, 2 * n, "d"); if(sx_pick("const", 2)) { ptl::array_ref<const std::uint16_t> r{d, d + n}; container<ptl::array_ref<const std::uint16_t>, const std::uint16_t>(r, d, n); } else { ptl::array_ref<std::uint16_t> r{d, d + n}; container(r, d, n); if(n) { auto x = sx_u16("x"); *(r.end() - 1) = x; sx_assert(d[n - 1] == x, "write through an iterator"); } } } sx_reach("end"); }
SX_HARNESS(h_string_ref) { { char d[26]; auto n = count(); sx_bytes(d, n, "d"); ptl::string_ref r{d, n}; container<ptl::string_ref, const char>(r, d, n); } sx_reach("end"); }
// far apart: arithmetic on symbolic positions
template<typename It> static void far(It begin, It end, std::uintptr_t data, std::size_t n, std::size_t size) {
	auto at = [&](const It & it) { return reinterpret_cast<std::uintptr_t>(it.operator->()); }; std::uint64_t i, j; if((size & (size - 1)) == 0) { i = sx_range("i", 0, n); j = sx_range("j", 0, n); } else { std::size_t k[]{0, 1, 127, 255, 256, n / 2, n - 1, n}; i = k[sx_pick("i", 8)]; j = k[sx_pick("j", 8)]; } auto s = static_cast<std::ptrdiff_t>(i), t = static_cast<std::ptrdiff_t>(j); It a{begin + s}, b{begin}; b += t;
	sx_assert(at(a) == data + i * size && at(b) == data + j * size, "+"); sx_assert(at(end - s) == data + (n - i) * size, "-"); sx_assert(a - begin == s, "distance"); sx_assert(b - a == t - s, "distance"); order(a, b, s - t, "order"); if(i < n) { sx_assert(reinterpret_cast<std::uintptr_t>(&begin[s]) == data + i * size, "[]"); auto c{a}; ++c; sx_assert(at(c) == data + (i + 1) * size && c - a == 1 && c > a, "++"); c--; sx_assert(c == a, "--"); } if(j > 0) { auto c{b}; auto d{c--}; sx_assert(d == b && at(c) == data + (j - 1) * size && c < d, "--"); } { auto c{b}; c -= t - s; sx_assert(c == a, "-="); sx_assert(a + (t - s) == b && (t - s) + a == b && b - (t - s) == a, "+"); }
}
struct twelve { std::uint32_t d[3]; }; struct twenty_four { std::uint64_t d[3]; };
template<typename E> static void far_ref() { constexpr std::size_t n{(1 << 20) / sizeof(E)}; auto p = static_cast<E *>(std::malloc(n * sizeof(E))); if(sx_pick("const", 2)) { ptl::array_ref<const E> r{p, n}; far(r.begin(), r.end(), reinterpret_cast<std::uintptr_t>(p), n, sizeof(E)); } else { ptl::array_ref<E> r{p, n}; far(r.begin(), r.end(), reinterpret_cast<std::uintptr_t>(p), n, sizeof(E)); } std::free(p); }
SX_HARNESS(h_far_ref) { switch(sx_pick("size", 4)) { case 0: far_ref<char>(); break; case 1: far_ref<std::uint16_t>(); break; case 2: far_ref<twelve>(); break; case 3: far_ref<twenty_four>(); break; } sx_reach("end"); }
template<typename C> static void far_both(C & c) { const C & k = c; using E = std::remove_pointer_t<decltype(c.data())>; auto p = reinterpret_cast<std::uintptr_t>(k.data()); if(sx_pick("const", 2)) far(k.begin(), k.end(), p, c.size(), sizeof(E)); else far(c.begin(), c.end(), p, c.size(), sizeof(E)); }
SX_HARNESS(h_far) {
	switch(sx_pick("container", 5)) { case 0: { ptl::vector<twelve> v; v.resize(700); far_both(v); break; } case 1: { ptl::string s; s.append(1 << 17, 'x'); far_both(s); break; } case 2: { static ptl::array<std::uint16_t, 70000> a; far_both(a); break; } case 3: { auto p = static_cast<char *>(std::malloc(1 << 20)); ptl::string_ref r{p, 1 << 20}; far(r.begin(), r.end(), reinterpret_cast<std::uintptr_t>(p), r.size(), 1); std::free(p); break; } case 4: { auto d = static_cast<std::uint8_t *>(std::malloc(70000)); std::memset(d, 1, 70000); ptl::vector<std::uint8_t> v(d, d + 70000); std::free(d); far_both(v); break; } }
	sx_reach("end");
}
