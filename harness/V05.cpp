// BOUND: element types uint16 and a type with registered lifetime; sizes 1, 2, 4, 9, 10, 11 (thorough: 1..22) in four pre-states, in particular exactly full; every source element, every source range and every position for sizes up to 4, ends and middle above; counts up to 12; every element symbolic; elements of 11 further types (sizes 1, 3, 9, 10, 11); 128 to 65536 elements
// OUTSIDE: other sizes above 60 elements
#include "types.hpp"
using namespace sx; using ptl::vector;

template<typename T> static void own() {
	{
		vector<T> v; vmodel m; auto n = SX_THOROUGH ? 1 + sx_pick("n", 22) : one_of("n", {1, 2, 4, 9, 10, 11}); std::size_t few = SX_THOROUGH ? 6 : 4; fill_any(v, m, n); auto i = position("i", n - 1, few); auto x = m.d[i]; vmodel old{m};
		switch(sx_pick("op", 14)) {
			case 0: { auto & r = v.push_back(v[i]); m.fill(n, 1, x); sx_assert(&r == v.data() + n, "result of push_back"); break; }
			case 1: { v.emplace_back(v[i]); m.fill(n, 1, x); break; }
			case 2: { auto pos = position("pos", n, few); auto r = v.insert(v.begin() + pos, static_cast<const T &>(v[i])); m.fill(pos, 1, x); sx_assert(r == v.begin() + pos, "result of insert"); break; }
			case 3: { auto pos = position("pos", n, few); auto r = v.emplace(v.begin() + pos, v[i]); m.fill(pos, 1, x); sx_assert(r == v.begin() + pos, "result of emplace"); break; }
			case 4: { auto pos = position("pos", n, few); auto k = one_of("k", {0, 1, 2, 5, 12}); auto r = v.insert(v.begin() + pos, k, v[i]); m.fill(pos, k, x); sx_assert(r == v.begin() + pos, "result of insert"); break; }
			case 5: { auto pos = position("pos", n, few), k = position("k", n - i, few); auto r = v.insert(v.begin() + pos, v.begin() + i, v.begin() + (i + k)); m.splice(pos, 0, old.d + i, k); sx_assert(r == v.begin() + pos, "result of insert"); break; }
			case 6: { auto pos = position("pos", n, few), k = position("k", n - i, few); const T * p = v.data() + i; v.insert(v.begin() + pos, p, p + k); m.splice(pos, 0, old.d + i, k); break; }
			case 7: { auto k = position("k", n - i, few); v.assign(v.begin() + i, v.begin() + (i + k)); m.set(old.d + i, k); break; }
			case 8: { std::size_t k[]{0, 1, n, n + 1, 12}; auto c = sx_pick("k", 5); v.assign(k[c], v[i]); m.n = 0; m.fill(0, k[c], x); break; }
			case 9: { std::size_t k[]{0, n - 1, n, n + 1, n + 2, 10, 11, 12, 30}; auto c = k[sx_pick("k", 9)]; v.resize(c, v[i]); if(c > n) m.fill(n, c - n, x); m.n = c; break; }
			case 10: { v.assign(v.cbegin() + i, v.cend()); m.set(old.d + i, n - i); break; }
			case 11: { auto pos = position("pos", n, few); v.insert(v.begin() + pos, v.rbegin(), v.rend()); std::uint16_t d[60]; for(std::size_t k{0}; k < n; ++k) d[k] = old.d[n - 1 - k]; m.splice(pos, 0, d, n); break; }
			case 12: { for(int k{0}; k < 3; ++k) { v.push_back(v.front()); m.fill(m.n, 1, m.d[0]); v.insert(v.begin(), v.back()); m.fill(0, 1, m.d[m.n - 1]); } break; }
			case 13: { // an element that is moved from gives its value to the new one
				auto pos = position("pos", n, few); if(sx_pick("end", 2)) { v.push_back(std::move(v[i])); pos = n; } else v.insert(v.begin() + pos, std::move(v[i])); sx_assert(v.size() == n + 1, "size"); sx_assert(val(v[pos]) == x, "the inserted element has the value of the moved one");
				std::size_t k{0}; for(std::size_t q{0}; q <= n; ++q) { if(q == pos) continue; if(k != i) sx_assert(val(v[q]) == old.d[k], "the other elements keep their values"); ++k; } alive<T>(n + 1); m.n = v.size(); for(std::size_t q{0}; q < m.n; ++q) m.d[q] = val(v[q]); if constexpr(is_tracked<T>) for(auto & e : v) e.moved = false; break;
			}
		}
		check(v, m, "operation with the vector's own elements"); alive<T>(m.n); note(v); usable(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
SX_HARNESS(h_own) { own<std::uint16_t>(); }
SX_HARNESS(h_own_tracked) { own<tracked>(); }
SX_HARNESS(h_types) {
	each_type([](auto t) {
		using T = decltype(t); vector<T> v; bmodel m; auto n = one_of("n", {1, 3, 9, 10, 11}); if(sx_pick("full", 2)) v.reserve(n); for(std::size_t i{0}; i < n; ++i) { m.d[i] = value<T>("e", i); v.push_back(make<T>(m.d[i])); } m.n = n; if(sx_pick("shrunk", 2)) { v.push_back(v[0]); v.pop_back(); v.shrink_to_fit(); } std::size_t at[]{0, n / 2, n - 1}; auto i = at[sx_pick("i", 3)]; auto x = m.d[i]; bmodel old{m}; std::size_t pos[]{0, n / 2, n}; auto p = pos[sx_pick("pos", 3)];
		switch(sx_pick("op", 9)) {
			case 0: sx_assert(std::addressof(v.push_back(v[i])) == v.data() + n, "result"); m.fill(n, 1, x); break; case 1: v.emplace_back(v[i]); m.fill(n, 1, x); break; case 2: v.insert(v.begin() + p, static_cast<const T &>(v[i])); m.fill(p, 1, x); break; case 3: v.emplace(v.begin() + p, v[i]); m.fill(p, 1, x); break; case 4: { auto k = one_of("k", {1, 2, 11}); v.insert(v.begin() + p, k, v[i]); m.fill(p, k, x); break; }
			case 5: v.insert(v.begin() + p, v.begin() + i, v.end()); m.insert(p, old.d + i, n - i); break; case 6: v.assign(v.begin() + i, v.end()); m.n = n - i; std::memmove(m.d, old.d + i, n - i); break; case 7: { auto k = one_of("k", {1, 5, 12}); v.assign(k, v[i]); m.n = 0; m.fill(0, k, x); break; } case 8: { v.resize(n + 7, v[i]); m.fill(n, 7, x); break; }
		}
		check(v, m, "operation with the vector's own elements"); sx_note("size", v.size());
	});
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
SX_HARNESS(h_many) {
	{
		vector<std::uint8_t> v; bmodel m; auto n = many("n"); fill_many(v, m, n); std::size_t at[]{0, n / 2, n - 1}; auto i = at[sx_pick("i", 3)]; auto x = m.d[i]; bmodel old{m}; std::size_t pos[]{0, n / 2, n}; auto p = pos[sx_pick("pos", 3)];
		switch(sx_pick("op", 6)) { case 0: v.insert(v.begin() + p, 300, v[i]); m.fill(p, 300, x); break; case 1: v.insert(v.begin() + p, v.data() + i, v.data() + n); m.insert(p, old.d + i, n - i); break; case 2: v.assign(v.data() + i, v.data() + n); m.n = n - i; std::memmove(m.d, old.d + i, n - i); break; case 3: v.assign(n + 301, v[i]); m.n = 0; m.fill(0, n + 301, x); break; case 4: v.resize(n + 301, v[i]); m.fill(n, 301, x); break; case 5: v.push_back(v[i]); m.fill(n, 1, x); v.insert(v.begin(), v[n]); m.fill(0, 1, x); break; }
		check(v, m, "operation with its own elements"); sx_note("size", v.size());
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
