// BOUND: every pair of sizes 0..4 (thorough: 0..6) with every element symbolic (int, a trivial type with an equality and order of its own, and a type with registered lifetime); sizes around 10 where up to 3 elements at the start, middle or end differ arbitrarily; arrays of 0, 1, 2, 3 and 12 elements; vectors and arrays of up to 3 elements of 10 further types; vectors of 128, 255, 256, 300, 1000 and 65537 elements and arrays of 300, 1000 and 65537 that differ in a symbolic element at the start, middle or end, in size, or not at all
// OUTSIDE: other large sizes; elements that have no total order
#include "types.hpp"
#include "ptl/array.hpp"
using namespace sx; using ptl::vector; using ptl::array;

template<typename T> static int order(const T * a, std::size_t n, const T * b, std::size_t m) {
	int r{n < m ? -1 : n > m ? 1 : 0}; for(auto i = n < m ? n : m; i != 0; --i) r = a[i - 1] == b[i - 1] ? r : a[i - 1] < b[i - 1] ? -1 : 1; return r;
}
template<typename C> static void compare(const C & a, const C & b, int o) {
	sx_assert((a == b) == (o == 0), "=="); sx_assert((a != b) == (o != 0), "!="); sx_assert((a < b) == (o < 0), "<"); sx_assert((a <= b) == (o <= 0), "<="); sx_assert((a > b) == (o > 0), ">"); sx_assert((a >= b) == (o >= 0), ">="); sx_note("order", static_cast<std::uint64_t>(o + 1));
}
SX_HARNESS(h_vector) {
	{
		auto N = SX_THOROUGH ? 7u : 5u; auto n = sx_pick("n", N), k = sx_pick("k", N); int a[8], b[8]; sx_bytes(a, 4 * n, "a"); sx_bytes(b, 4 * k, "b"); vector<int> v, w; if(sx_pick("capacity", 2)) { v.reserve(40); w.resize(13); w.clear(); }
		v.insert(v.end(), a, a + n); w.insert(w.end(), b, b + k); auto o = order(a, n, b, k); compare(v, w, o); compare(v, v, 0);
	}
	sx_reach("end");
}
// equality and order of the elements are their own, not those of their bytes
struct fuzzy { std::uint16_t v; std::uint16_t any; friend bool operator==(const fuzzy & a, const fuzzy & b) { return a.v == b.v; } friend bool operator!=(const fuzzy & a, const fuzzy & b) { return a.v != b.v; } friend bool operator<(const fuzzy & a, const fuzzy & b) { return a.v > b.v; } friend bool operator>(const fuzzy & a, const fuzzy & b) { return a.v < b.v; } friend bool operator<=(const fuzzy & a, const fuzzy & b) { return a.v >= b.v; } friend bool operator>=(const fuzzy & a, const fuzzy & b) { return a.v <= b.v; } };
SX_HARNESS(h_own_order) {
	{
		auto n = sx_pick("n", 4), k = sx_pick("k", 4); fuzzy a[4], b[4]; sx_bytes(a, sizeof(fuzzy) * n, "a"); sx_bytes(b, sizeof(fuzzy) * k, "b"); vector<fuzzy> v(a, a + n), w(b, b + k); compare(v, w, order(a, n, b, k));
		array<fuzzy, 2> x, y; sx_bytes(x.data(), sizeof(x), "x"); sx_bytes(y.data(), sizeof(y), "y"); compare(x, y, order(x.data(), 2, y.data(), 2)); array<fuzzy, 1> p, q; sx_bytes(p.data(), sizeof(p), "p"); sx_bytes(q.data(), sizeof(q), "q"); compare(p, q, order(p.data(), 1, q.data(), 1));
	}
	sx_reach("end");
}
SX_HARNESS(h_tracked) {
	{
		auto n = sx_pick("n", 4), k = sx_pick("k", 4); vargs<tracked> a{n}, b{k}; vector<tracked> v(a.p(), a.e()), w(b.p(), b.e()); compare(v, w, order(a.d, n, b.d, k));
		sx_assert(sx_life_count() == 2 * (n + k), "comparison changed the number of elements"); sx_assert(same(v.data(), a.d, n) && same(w.data(), b.d, k), "comparison changed the elements");
	}
	sx_reach("end");
}
SX_HARNESS(h_long) {
	{
		auto n = one_of("n", {8, 9, 10, 11, 21}), k = one_of("k", {8, 10, 11, 20}); std::uint16_t a[24], b[24]; sx_bytes(a, 48, "a"); std::memcpy(b, a, 48); auto l = n < k ? n : k; std::size_t at[]{0, l / 2, l - 3}; auto p = at[sx_pick("at", 3)]; sx_bytes(b + p, 6, "b");
		vector<std::uint16_t> v(a, a + n), w(b, b + k); compare(v, w, order(a, n, b, k));
	}
	sx_reach("end");
}
template<std::size_t N> static void arrays() {
	std::uint16_t a[N + 1], b[N + 1]; sx_bytes(a, 2 * N, "a"); sx_bytes(b, 2 * N, "b"); if(N > 6) for(std::size_t i{2}; i + 2 < N; ++i) b[i] = a[i];
	array<std::uint16_t, N> x, y; for(std::size_t i{0}; i < N; ++i) { x[i] = a[i]; y[i] = b[i]; } compare(x, y, order(a, N, b, N)); compare(x, x, 0);
}
SX_HARNESS(h_array) { switch(sx_pick("size", 5)) { case 0: arrays<0>(); break; case 1: arrays<1>(); break; case 2: arrays<2>(); break; case 3: arrays<3>(); break; case 4: arrays<12>(); break; } sx_reach("end"); }

// elements of many kinds, ordered as they are
template<typename T> static int byte_order(std::uint8_t x, std::uint8_t y) { if constexpr(std::is_same_v<T, signed char> || std::is_same_v<T, char>) { auto a = static_cast<signed char>(x), b = static_cast<signed char>(y); return a == b ? 0 : a < b ? -1 : 1; } else return x == y ? 0 : x < y ? -1 : 1; }
template<typename T> static void kinds() {
	auto n = sx_pick("n", 4), k = sx_pick("k", 4); elems<T> a{n}, b{k}; bool branching{branches<T> && !std::is_pointer_v<T>}; if(branching && n && k) switch(sx_pick("same", 3)) { case 0: for(std::size_t i{0}; i < k && i < n; ++i) { b.m.d[i] = a.m.d[i]; b.d[i] = a.d[i]; } break; case 1: { auto z = static_cast<std::uint8_t>(a.m.d[0] ^ 2); b.m.d[0] = z; b.d[0] = make<T>(z); break; } case 2: break; }
	vector<T> v(a.d, a.d + n), w(b.d, b.d + k); int o{n < k ? -1 : n > k ? 1 : 0}; for(auto i = n < k ? n : k; i != 0; --i) { auto c = byte_order<T>(a.m.d[i - 1], b.m.d[i - 1]); o = c ? c : o; }
	compare(v, w, o); compare(v, v, 0); if(n >= 2 && k >= 2) { array<T, 2> x{T{a.d[0]}, T{a.d[1]}}, y{T{b.d[0]}, T{b.d[1]}}; auto p = byte_order<T>(a.m.d[1], b.m.d[1]), q = byte_order<T>(a.m.d[0], b.m.d[0]); compare(x, y, q ? q : p); }
}
SX_HARNESS(h_types) {
	switch(sx_pick("type", 10)) { case 0: kinds<std::uint8_t>(); break; case 1: kinds<signed char>(); break; case 2: kinds<bool>(); break; case 3: kinds<int *>(); break; case 4: kinds<colour>(); break; case 5: kinds<ptl::string>(); break; case 6: kinds<vector<std::uint8_t>>(); break; case 7: kinds<char>(); break; case 8: kinds<std::uint64_t>(); break; case 9: kinds<char16_t>(); break; }
	sx_reach("end");
}
SX_HARNESS(h_many) {
	{
		vector<std::uint8_t> v; bmodel m; auto n = SX_THOROUGH ? one_of("n", {127, 128, 129, 255, 256, 257, 300, 1000, 4097}) : one_of("n", {128, 255, 256, 300, 1000}); fill_many(v, m, n); vector<std::uint8_t> w(v); std::size_t at[]{0, 1, n / 2, n - 1}; auto i = at[sx_pick("at", 4)]; auto x = sx_u8("x"); int o{0};
		switch(sx_pick("differ", 4)) { case 0: break; case 1: w[i] = x; o = m.d[i] == x ? 0 : m.d[i] < x ? -1 : 1; break; case 2: w.push_back(x); o = -1; break; case 3: w.pop_back(); w[i == n - 1 ? 0 : i] = x; i = i == n - 1 ? 0 : i; o = m.d[i] == x ? 1 : m.d[i] < x ? -1 : 1; break; }
		compare(v, w, o); compare(w, v, -o); sx_note("size", v.size());
	}
	sx_reach("end");
}
template<std::size_t N> static void many_arrays() { static array<std::uint8_t, N> a, b; for(std::size_t i{0}; i < 200; ++i) a[i] = static_cast<std::uint8_t>(i * 5); std::memset(a.data() + 200, 9, N - 200); a[N - 1] = sx_u8("last"); b = a; std::size_t at[]{0, 130, 257, N - 1}; auto i = at[sx_pick("at", 4)]; auto x = sx_u8("x"); b[i] = x; int o = a[i] == x ? 0 : a[i] < x ? -1 : 1; compare(a, b, o); compare(b, a, -o); }
SX_HARNESS(h_many_arrays) { if(sx_pick("size", 2)) many_arrays<1000>(); else many_arrays<300>(); sx_reach("end"); }
SX_HARNESS(h_huge) { // more than 16 bits count
	{ constexpr std::size_t N{65537}; bmodel m; vector<std::uint8_t> v; fill_many(v, m, N); auto x = sx_u8("x"); if(sx_pick("array", 2)) { static array<std::uint8_t, N> a, b; std::memcpy(a.data(), m.d, N); b = a; b[N - 1] = x; auto y = m.d[N - 1]; if(sx_pick("order", 2)) { sx_assert((a < b) == (y < x), "<"); } else sx_assert((a == b) == (y == x), "=="); } else { vector<std::uint8_t> w(v); w[N - 1] = x; auto y = m.d[N - 1]; if(sx_pick("order", 2)) { sx_assert((v < w) == (y < x), "<"); } else sx_assert((v == w) == (y == x), "=="); } }
	sx_reach("end");
}
