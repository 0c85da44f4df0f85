// BOUND: element types uint16 and a type with registered lifetime; sizes 0, 1, 2, 5, 9, 10, 11, 20, 21 (thorough: 0..32) in four pre-states (exact capacity, spare, grown by push_back, shrunk); 0 to 2n+1 inserted elements around exactly filling the capacity; every position for sizes up to 11, ends and middle above; every element symbolic
// BOUND: element types uint8, bool, double, pointer, enum, 64 byte struct, empty struct, owner of a heap allocation, ptl::string, ptl::vector<uint8> with 0, 1, 9, 10, 11, 20 elements; 128 to 65536 elements of type uint8 (thorough: 17 counts up to 70000)
// OUTSIDE: more than 140000 elements; over-aligned element types; element types whose comparison or swap has side effects
#include "types.hpp"
using namespace sx; using ptl::vector;

template<typename T> static void insertion() {
	{
		vector<T> v; vmodel m; auto n = vlength("n"); fill_any(v, m, n); auto k = vextra("k", n, v.capacity()); auto pos = position("pos", n, SX_THOROUGH ? 12 : 3); vargs<T> a{k}; input_src<T> src{a.p(), a.e()};
		auto p = v.cbegin() + pos; typename vector<T>::iterator r; auto how = sx_pick("how", 9);
		switch(how) {
			case 0: r = v.insert(p, input_it<T>{&src}, input_it<T>{}); break;
			case 1: r = v.insert(p, fwd_it<T>{a.p()}, fwd_it<T>{a.e()}); break;
			case 2: r = v.insert(v.begin() + pos, a.p(), a.e()); break;
			case 3: r = v.insert(p, il<T>(a.p(), k)); break;
			case 4: { const T x(std::uint16_t{0x1234}); r = v.insert(p, k, x); for(std::size_t i{0}; i < k; ++i) a.d[i] = 0x1234; break; }
			case 5: { sx_assume(k == 1); const T & x = a.p()[0]; r = v.insert(p, x); sx_reach("single copy"); break; }
			case 6: { sx_assume(k == 1); T x(a.d[0]); r = v.insert(p, std::move(x)); sx_reach("single move"); break; }
			case 7: { sx_assume(k == 1); r = v.emplace(p, a.d[0]); sx_reach("emplaced"); break; }
			case 8: r = v.insert(p, bidi_it<T>{a.p()}, bidi_it<T>{a.e()}); break;
		}
		m.splice(pos, 0, a.d, k); check(v, m, "insert"); note(v); if(how != 4) a.intact();
		sx_assert(r - v.begin() == static_cast<std::ptrdiff_t>(pos), "iterator returned by insert"); if(k) sx_assert(&*r == v.data() + pos, "iterator returned by insert");
		alive<T>(m.n + k); usable(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
SX_HARNESS(h_insert) { insertion<std::uint16_t>(); }
SX_HARNESS(h_insert_tracked) { insertion<tracked>(); }

template<typename T> static void at_end() {
	{
		vector<T> v; vmodel m; auto n = vlength("n"); fill_any(v, m, n); auto how = sx_pick("how", 4), times = one_of("times", {1, 2, 12, 25});
		for(std::size_t i{0}; i < times; ++i) {
			auto x = sx_u16("x"); T * r{nullptr}; auto was = v.data();
			switch(how) { case 0: { const T y(x); r = &v.push_back(y); break; } case 1: { T y(x); r = &v.push_back(std::move(y)); break; } case 2: r = &v.emplace_back(x); break; case 3: if constexpr(is_tracked<T>) { r = &v.emplace_back(x, std::uint16_t{0}); break; } else sx_assume(false); }
			m.fill(m.n, 1, x); check(v, m, "push_back"); sx_assert(r == v.data() + m.n - 1 && r == &v.back(), "push_back and emplace_back must return the last element"); alive<T>(m.n); (void)was;
		}
		note(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
SX_HARNESS(h_push) { at_end<std::uint16_t>(); }
SX_HARNESS(h_push_tracked) { at_end<tracked>(); }

template<typename T> static void removal() {
	{
		vector<T> v; vmodel m; auto n = vlength("n"); fill_any(v, m, n); auto cap = v.capacity(); auto data = v.data();
		if(sx_pick("what", 4) != 0) {
			auto pos = position("pos", n, SX_THOROUGH ? 20 : 11); auto del = position("del", n - pos, SX_THOROUGH ? 20 : 11);
			auto r = v.erase(v.cbegin() + pos, v.cbegin() + (pos + del)); m.erase(pos, del); check(v, m, "erase"); sx_assert(r - v.begin() == static_cast<std::ptrdiff_t>(pos), "iterator returned by erase"); alive<T>(m.n);
			if(m.n) { auto p2 = sx_pick("p2", 2) ? m.n - 1 : 0; auto q = v.erase(v.begin() + p2); m.erase(p2, 1); check(v, m, "erase of one element"); sx_assert(q - v.begin() == static_cast<std::ptrdiff_t>(p2), "iterator returned by erase"); }
		} else while(m.n) { v.pop_back(); --m.n; check(v, m, "pop_back"); alive<T>(m.n); }
		sx_assert(v.capacity() == cap && v.data() == data, "removal must not reallocate"); note(v); usable(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
SX_HARNESS(h_remove) { removal<std::uint16_t>(); }
SX_HARNESS(h_remove_tracked) { removal<tracked>(); }

// insertions one after another, so that each acts on what the previous one left
SX_HARNESS(h_twice) {
	{
		vector<int> v; vmodel m; auto n = one_of("n", {3, 9}); fill_any(v, m, n);
		for(int i{0}; i < 3; ++i) {
			auto k = one_of("k", {1, 4, 11}); std::uint16_t d[11]; int e[11]; sx_bytes(d, 2 * k, "a"); for(std::size_t j{0}; j < k; ++j) e[j] = d[j]; auto where = sx_pick("where", 3); auto pos = where == 0 ? 0 : where == 1 ? m.n / 2 : m.n;
			switch(sx_pick("how", 3)) { case 0: v.insert(v.begin() + pos, e, e + k); m.splice(pos, 0, d, k); break; case 1: v.insert(v.begin() + pos, k, 77); m.fill(pos, k, 77); break; case 2: { auto del = m.n - pos < k ? m.n - pos : k; v.erase(v.begin() + pos, v.begin() + (pos + del)); m.erase(pos, del); break; } }
			check(v, m, "sequence of insertions");
		}
		note(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}

// every kind of element type
SX_HARNESS(h_types) {
	each_type([](auto x) {
		using T = decltype(x); vector<T> v; bmodel m; auto n = one_of("n", {0, 1, 9, 10, 11, 20}); fill(v, m, n); std::size_t at[]{0, n, n / 2, n ? n - 1 : 0}; auto pi = sx_pick("pos", n < 2 ? n + 1 : 4); auto pos = at[pi]; auto p = v.cbegin() + pos; auto k = one_of("k", {0, 1, 2, 12}); elems<T> a{k}; auto op = sx_pick("op", 11); if(op >= 5) sx_assume(k == 1); if(op == 8 || op == 9) sx_assume(pi == 0); typename vector<T>::iterator r = v.begin() + pos; const T & c = a.d[0];
		switch(op) {
			case 0: r = v.insert(p, a.d, a.d + k); m.insert(pos, a.m.d, k); break; case 1: { input_src<T> src{a.d, a.d + k}; r = v.insert(p, input_it<T>{&src}, input_it<T>{}); m.insert(pos, a.m.d, k); break; } case 2: r = v.insert(p, il<T>(a.d, k)); m.insert(pos, a.m.d, k); break;
			case 3: { auto y = value<T>("x", 7); const T z = make<T>(y); r = v.insert(p, k, z); m.fill(pos, k, y); break; } case 4: r = v.insert(p, fwd_it<T>{a.d}, fwd_it<T>{a.d + k}); m.insert(pos, a.m.d, k); break;
			case 5: r = v.insert(p, c); m.insert(pos, a.m.d, 1); break; case 6: r = v.insert(p, T(c)); m.insert(pos, a.m.d, 1); break; case 7: r = v.emplace(p, c); m.insert(pos, a.m.d, 1); break;
			case 8: { auto & y = sx_pick("by", 2) ? v.push_back(c) : v.push_back(T(c)); sx_assert(&y == &v.back(), "result of push_back"); m.insert(n, a.m.d, 1); break; }
			case 9: { sx_assume(n > 0); v.pop_back(); --m.n; break; }
			case 10: { auto l = one_of("del", {0, 1, 3, 9}); if(l > n - pos) l = n - pos; r = v.erase(p, p + l); m.erase(pos, l); break; }
		}
		check(v, m, "operation on elements of any type"); check(a.d, a.m, "the arguments changed"); if(op != 8 && op != 9) sx_assert(r - v.begin() == static_cast<std::ptrdiff_t>(pos), "returned iterator"); sx_note("size", v.size()); v.push_back(c); m.insert(m.n, a.m.d, k ? 1 : 0); if(!k) m.fill(m.n, 1, 0); check(v, m, "push_back");
	});
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
SX_HARNESS(h_many) {
	{
		vector<std::uint8_t> v; bmodel m; auto n = many("n"); fill_many(v, m, n); std::size_t at[]{0, n, n / 2, 100}; auto pos = at[sx_pick("pos", 4)]; auto p = v.cbegin() + pos; std::size_t ks[]{1, 255, 256, 300, 301, n}; auto k = ks[sx_pick("k", 6)]; bmodel a; a.n = 0; a.fill(0, k, 9); a.d[0] = sx_u8("a"); a.d[k - 1] = sx_u8("a"); auto op = sx_pick("op", 6); vector<std::uint8_t>::iterator r;
		switch(op) {
			case 0: r = v.insert(p, a.d, a.d + k); m.insert(pos, a.d, k); break; case 1: { auto x = sx_u8("x"); r = v.insert(p, k, x); m.fill(pos, k, x); break; } case 2: r = v.insert(p, il<std::uint8_t>(a.d, k)); m.insert(pos, a.d, k); break;
			case 3: { if(k > n - pos) k = n - pos; r = v.erase(p, p + k); m.erase(pos, k); break; } case 4: { sx_assume(k == 1); r = v.emplace(p, a.d[0]); m.insert(pos, a.d, 1); break; } case 5: { sx_assume(k == 1 && pos == n); v.push_back(a.d[0]); m.insert(n, a.d, 1); r = v.begin() + n; v.pop_back(); --m.n; check(v, m, "pop_back"); v.push_back(a.d[0]); ++m.n; break; }
		}
		check(v, m, "operation on many elements"); sx_assert(r - v.begin() == static_cast<std::ptrdiff_t>(pos), "returned iterator"); sx_note("size", v.size()); v.push_back(1); m.fill(m.n, 1, 1); check(v, m, "push_back to many elements");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_grow_many) { // one by one
	{
		vector<std::uint16_t> v; auto how = sx_pick("how", 3); std::size_t N = SX_THOROUGH ? 1100 : 310; std::uint16_t c = sx_u16("c");
		for(std::size_t i{0}; i < N; ++i) { auto x = static_cast<std::uint16_t>(c + i); auto & r = how == 0 ? v.push_back(x) : how == 1 ? v.emplace_back(x) : *v.insert(v.begin() + i / 2, x); sx_assert(&r == &v[how == 2 ? i / 2 : i] && r == x && v.size() == i + 1 && v.capacity() > i, "growing by one"); if(how < 2) sx_assert(v[0] == c && v[i / 2] == static_cast<std::uint16_t>(c + i / 2), "growing by one"); }
		if(how < 2) for(std::size_t i{0}; i < N; ++i) sx_assert(v[i] == static_cast<std::uint16_t>(c + i), "grown by one"); while(!v.empty()) v.pop_back();
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
