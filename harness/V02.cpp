// BOUND: element types uint16 and a type with registered lifetime; sizes 0, 1, 2, 5, 9, 10, 11, 20, 21 (thorough: 0..32) in four pre-states; assigned and new sizes around the old size, the capacity and the minimum capacity; indices passed to at: every 64-bit value; every element symbolic
// BOUND: element types uint8, bool, double, pointer, enum, 64 byte struct, empty struct, owner of a heap allocation, ptl::string, ptl::vector<uint8> with 0, 1, 9, 10, 11, 20 elements; 128 to 65536 elements of type uint8 (thorough: 17 counts up to 70000)
// OUTSIDE: more than 140000 elements; over-aligned element types
#include "types.hpp"
using namespace sx; using ptl::vector;

template<typename T> static void construction() {
	{
		auto k = one_of("k", {0, 1, 2, 9, 10, 11, 25}); vargs<T> a{k}; input_src<T> src{a.p(), a.e()}; vmodel m{a.d, k};
		auto done = [&](vector<T> & v) { check(v, m, "constructed vector"); alive<T>(2 * k); note(v); usable(v); };
		switch(sx_pick("how", 12)) {
			case 0: { vector<T> v(input_it<T>{&src}, input_it<T>{}); done(v); break; }
			case 1: { vector<T> v(fwd_it<T>{a.p()}, fwd_it<T>{a.e()}); done(v); break; }
			case 2: { vector<T> v(static_cast<const T *>(a.p()), static_cast<const T *>(a.e())); done(v); break; }
			case 3: { vector<T> v(il<T>(a.p(), k)); done(v); break; }
			case 4: { vector<T> v(static_cast<std::size_t>(k)); m.n = 0; m.fill(0, k, 0); done(v); break; }
			case 5: { auto x = sx_u16("x"); vector<T> v = [&] { const T y(x); return vector<T>(static_cast<std::size_t>(k), y); }(); m.n = 0; m.fill(0, k, x); done(v); break; }
			case 6: { vector<T> o(a.p(), a.e()); vector<T> v{static_cast<const vector<T> &>(o)}; check(o, m, "source of a copy"); o.clear(); o.shrink_to_fit(); done(v); break; }
			case 7: { vector<T> o(a.p(), a.e()); auto p = o.data(); vector<T> v{std::move(o)}; sx_assert(v.data() == p, "moving a vector keeps its elements in place"); o.clear(); done(v); usable(o); break; }
			case 8: { vector<T> v; v = il<T>(a.p(), k); done(v); break; }
			case 9: { vector<T> o; o.reserve(60); o.insert(o.end(), a.p(), a.e()); vector<T> v{static_cast<const vector<T> &>(o)}; if(k) { o[0] = T(std::uint16_t{1}); o.pop_back(); } o.clear(); done(v); break; }
			case 10: { vector<T> v; check(v, vmodel{}, "default constructed"); v.assign(a.p(), a.e()); done(v); break; }
			case 11: { vector v(fwd_it<T>{a.p()}, fwd_it<T>{a.e()}); static_assert(std::is_same_v<decltype(v), vector<T>>); done(v); break; }
		}
		a.intact();
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
SX_HARNESS(h_construct) { construction<std::uint16_t>(); }
SX_HARNESS(h_construct_tracked) { construction<tracked>(); }

template<typename T> static void assignment() {
	{
		vector<T> v; vmodel m; auto n = vlength("n"); fill_any(v, m, n); std::size_t cap = v.capacity(), c[]{0, 1, n, n + 1, n ? n - 1 : 0, cap - n, cap - n + 1, cap, cap + 1, n / 2, 10, 11}; auto i = sx_pick("k", 12); for(std::size_t j{0}; j < i; ++j) if(c[j] == c[i]) sx_assume(false); auto k = c[i]; vargs<T> a{k}; input_src<T> src{a.p(), a.e()}; vmodel x{a.d, k};
		switch(sx_pick("how", 9)) {
			case 0: v.assign(input_it<T>{&src}, input_it<T>{}); break;
			case 1: v.assign(fwd_it<T>{a.p()}, fwd_it<T>{a.e()}); break;
			case 2: v.assign(static_cast<const T *>(a.p()), static_cast<const T *>(a.e())); break;
			case 3: v.assign(il<T>(a.p(), k)); break;
			case 4: { auto & r = (v = il<T>(a.p(), k)); sx_assert(&r == &v, "result of ="); break; }
			case 5: { auto y = sx_u16("x"); const T z(y); v.assign(static_cast<std::size_t>(k), z); x.n = 0; x.fill(0, k, y); break; }
			case 6: { vector<T> o(a.p(), a.e()); auto & r = (v = o); sx_assert(&r == &v, "result of ="); check(o, x, "source of an assignment"); o.clear(); break; }
			case 7: { vector<T> o(a.p(), a.e()); auto p = o.data(); auto & r = (v = std::move(o)); sx_assert(&r == &v && v.data() == p, "result of ="); check(v, x, "assigned"); usable(o); break; }
			case 8: { vector<T> o(a.p(), a.e()); if(sx_pick("member", 2)) v.swap(o); else swap(v, o); check(o, m, "swap"); usable(o); break; }
		}
		check(v, x, "assigned"); note(v); a.intact(); usable(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
SX_HARNESS(h_assign) { assignment<std::uint16_t>(); }
SX_HARNESS(h_assign_tracked) { assignment<tracked>(); }

template<typename T> static void sizes() {
	{
		vector<T> v; vmodel m; auto n = vlength("n"); fill_any(v, m, n); auto p = v.data(); std::size_t cap = v.capacity(), c[]{0, 1, n, n + 1, n ? n - 1 : 0, 9, 10, 11, cap, cap + 1, n / 2, 2 * n + 3, cap ? cap - 1 : 0}; auto i = sx_pick("k", 13); for(std::size_t j{0}; j < i; ++j) if(c[j] == c[i]) sx_assume(false); auto k = c[i];
		switch(sx_pick("how", 5)) {
			case 0: v.resize(k); if(k > n) m.fill(n, k - n, 0); m.n = k; check(v, m, "resize"); if(k <= cap) sx_assert(v.data() == p && v.capacity() == cap, "resize within the capacity must not reallocate"); break;
			case 1: { auto x = sx_u16("x"); { const T y(x); v.resize(k, y); } if(k > n) m.fill(n, k - n, x); m.n = k; check(v, m, "resize with a value"); if(k <= cap) sx_assert(v.data() == p && v.capacity() == cap, "resize within the capacity must not reallocate"); break; }
			case 2: { v.reserve(k); check(v, m, "reserve"); sx_assert(v.capacity() >= k && v.capacity() >= cap, "capacity after reserve"); auto q = v.data(); if(k <= cap) sx_assert(q == p, "reserve of available capacity must not reallocate"); while(m.n < k) { if(m.n % 3 == 0) v.insert(v.begin(), T(std::uint16_t{5})), m.fill(0, 1, 5); else v.push_back(T(std::uint16_t{6})), m.fill(m.n, 1, 6); } check(v, m, "growing within the reserved capacity"); sx_assert(v.data() == q, "growing within the reserved capacity must not reallocate"); break; }
			case 3: v.reserve(k); v.shrink_to_fit(); check(v, m, "shrink_to_fit"); v.shrink_to_fit(); check(v, m, "shrink_to_fit"); break;
			case 4: v.clear(); m.n = 0; check(v, m, "clear"); sx_assert(v.capacity() == cap, "clear keeps the capacity"); v.resize(k); m.fill(0, k, 0); check(v, m, "resize after clear"); v.clear(); v.shrink_to_fit(); m.n = 0; check(v, m, "shrink_to_fit"); break;
		}
		alive<T>(m.n); note(v); usable(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
SX_HARNESS(h_sizes) { sizes<std::uint16_t>(); }
SX_HARNESS(h_sizes_tracked) { sizes<tracked>(); }

template<typename T> static void self() {
	{
		vector<T> v; vmodel m; auto n = vlength("n"); fill_any(v, m, n); auto & w = v;
		switch(sx_pick("how", 4)) { case 0: v = w; break; case 1: v = std::move(w); break; case 2: v.swap(w); break; case 3: swap(v, w); break; }
		check(v, m, "operation with itself"); alive<T>(n);
		vector<T> o{v}; o = v; v = o; check(v, m, "assignment there and back"); check(o, m, "assignment there and back"); o = std::move(v); v = std::move(o); check(v, m, "move there and back"); usable(o); usable(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
SX_HARNESS(h_self) { self<std::uint16_t>(); }
SX_HARNESS(h_self_tracked) { self<tracked>(); }

SX_HARNESS(h_access) {
	{
		vector<std::uint16_t> v; vmodel m; auto n = one_of("n", {0, 1, 5, 10, 11}); fill_any(v, m, n); const auto & c = v; auto i = sx_u64("index"); std::uint16_t got{0};
		auto t = sx_pick("const", 2) ? outcome([&] { got = c.at(i); }) : outcome([&] { got = v.at(i); });
		sx_assert(t == (i < n ? Thrown::none : Thrown::range), "at throws out_of_range for exactly the indices not below the size");
		if(t == Thrown::none) { sx_assert(got == m.d[i] && c[i] == got && v[i] == got, "at"); sx_assert(&c.at(i) == c.data() + i && &v.at(i) == v.data() + i && &c[i] == c.data() + i && &v[i] == v.data() + i, "at and [] designate the element"); auto x = sx_u16("x"); if(sx_pick("by", 2)) v[i] = x; else v.at(i) = x; m.d[i] = x; check(v, m, "write"); }
		if(n) { sx_assert(&c.front() == v.data() && &v.front() == v.data() && &c.back() == v.data() + n - 1 && &v.back() == v.data() + n - 1, "front and back"); }
		check(v, m, "access changed the vector");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_iterate) {
	{
		vector<int> v; vmodel m; auto n = vlength("n"); fill_any(v, m, n); const auto & c = v; auto p = v.data(); std::size_t i{0};
		for(auto & x : v) { sx_assert(&x == p + i, "iteration"); ++i; } sx_assert(i == n, "iteration");
		i = 0; for(auto & x : c) { sx_assert(&x == p + i, "const iteration"); ++i; } sx_assert(i == n, "const iteration");
		i = 0; for(auto it = v.cbegin(); it != v.cend(); ++it) { sx_assert(&*it == p + i, "const iteration"); ++i; } sx_assert(i == n, "const iteration");
		i = n; for(auto it = v.rbegin(); it != v.rend(); ++it) { --i; sx_assert(&*it == p + i, "reverse iteration"); } sx_assert(i == 0, "reverse iteration");
		i = n; for(auto it = c.rbegin(); it != c.rend(); ++it) { --i; sx_assert(&*it == p + i, "reverse iteration"); } sx_assert(i == 0, "reverse iteration");
		i = n; for(auto it = v.crbegin(); it != v.crend(); ++it) { --i; sx_assert(&*it == p + i, "reverse iteration"); } sx_assert(i == 0, "reverse iteration");
		for(auto & x : v) x += 1; for(i = 0; i < n; ++i) m.d[i] += 1; check(v, m, "write through iterators"); sx_assert(c.max_size() >= n, "max_size");
	}
	sx_reach("end");
}
// elements that own further vectors: assigning one of those to the vector its owner is in
struct branch { ptl::vector<branch> * p{nullptr}; std::uint16_t x{0}; branch(); explicit branch(std::uint16_t y) : x{y} { sx_life_ctor(this); } branch(const branch & o); branch(branch && o) noexcept : p{o.p}, x{o.x} { sx_life_check(&o); o.p = nullptr; sx_life_ctor(this); } branch & operator=(const branch & o); branch & operator=(branch && o) noexcept { sx_life_check(this); sx_life_check(&o); std::swap(p, o.p); x = o.x; return *this; } ~branch(); };
branch::branch() { sx_life_ctor(this); } branch::branch(const branch & o) : x{o.x} { sx_life_check(&o); if(o.p) p = new ptl::vector<branch>(*o.p); sx_life_ctor(this); } branch::~branch() { sx_life_dtor(this); delete p; } branch & branch::operator=(const branch & o) { branch t{o}; return *this = std::move(t); }
SX_HARNESS(h_nested) {
	{
		std::size_t c[]{1, 2, 9, 10, 11}; auto n = c[sx_pick("n", 5)], k = c[sx_pick("k", 5)]; ptl::vector<branch> v; if(sx_pick("spare", 2)) v.reserve(n + k); auto at = sx_pick("at", n == 1 ? 1 : 2) * (n - 1); std::uint16_t e[11];
		for(std::size_t i{0}; i < n; ++i) v.push_back(branch{static_cast<std::uint16_t>(i)}); v[at].p = new ptl::vector<branch>; for(std::size_t i{0}; i < k; ++i) { e[i] = sx_u16("e"); v[at].p->push_back(branch{e[i]}); }
		if(sx_pick("op", 2)) v = *v[at].p; else v.assign(v[at].p->begin(), v[at].p->end());
		sx_assert(v.size() == k, "assigned from a vector that an element owns"); bool ok{true}; for(std::size_t i{0}; i < k; ++i) ok &= v[i].x == e[i] && !v[i].p; sx_assert(ok, "assigned from a vector that an element owns"); sx_assert(sx_life_count() == k, "alive");
	}
	sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}

// every kind of element type
SX_HARNESS(h_types) {
	each_type([](auto x) {
		using T = decltype(x); vector<T> v; bmodel m; auto n = one_of("n", {0, 1, 9, 10, 11, 20}); fill(v, m, n); auto k = one_of("k", {0, 1, 2, 10, 11, 23}); elems<T> a{k}; auto op = sx_pick("op", 14); if(op >= 12) sx_assume(k == 0);
		switch(op) {
			case 0: v.assign(a.d, a.d + k); m = a.m; break; case 1: { input_src<T> src{a.d, a.d + k}; v.assign(input_it<T>{&src}, input_it<T>{}); m = a.m; break; } case 2: v = il<T>(a.d, k); m = a.m; break; case 3: { auto y = value<T>("x", 7); const T z = make<T>(y); v.assign(static_cast<std::size_t>(k), z); m.n = 0; m.fill(0, k, y); break; }
			case 4: { vector<T> o(a.d, a.d + k); v = o; m = a.m; check(o, m, "source of an assignment"); break; } case 5: { vector<T> o(a.d, a.d + k); v = std::move(o); m = a.m; sx_assert(o.size() <= o.capacity(), "moved-from vector"); break; } case 6: { vector<T> o(a.d, a.d + k); v.swap(o); check(o, m, "swap"); m = a.m; break; }
			case 7: { v.resize(k); if(k > n) m.fill(n, k - n, 0); m.n = k; break; } case 8: { auto y = value<T>("x", 7); { const T z = make<T>(y); v.resize(k, z); } if(k > n) m.fill(n, k - n, y); m.n = k; break; }
			case 9: { v.reserve(k); sx_assert(v.capacity() >= k, "capacity"); v.shrink_to_fit(); break; } case 10: { vector<T> o(static_cast<std::size_t>(k)); bmodel e; e.fill(0, k, 0); check(o, e, "vector of default elements"); auto y = value<T>("x", 7); const T z = make<T>(y); vector<T> q(static_cast<std::size_t>(k), z); e.n = 0; e.fill(0, k, y); check(q, e, "vector of equal elements"); break; }
			case 11: { vector<T> o(il<T>(a.d, k)); check(o, a.m, "constructed"); vector<T> q{static_cast<const vector<T> &>(o)}; check(q, a.m, "copy"); q.clear(); check(o, a.m, "source of a copy"); vector<T> w{std::move(o)}; check(w, a.m, "moved"); break; }
			case 12: v.clear(); m.n = 0; break; case 13: { auto & w = v; v = w; check(v, m, "self-assignment"); v.swap(w); check(v, m, "self-swap"); vector<T> o{v}; check(o, m, "copy"); break; }
		}
		check(v, m, "operation on elements of any type"); check(a.d, a.m, "the arguments changed"); sx_note("size", v.size()); v.push_back(make<T>(5)); m.fill(m.n, 1, 5); if(!std::is_same_v<T, bool>) check(v, m, "push_back");
	});
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "all objects destroyed"); sx_reach("end");
}
SX_HARNESS(h_many) {
	{
		vector<std::uint8_t> v; bmodel m; auto n = many("n"); fill_many(v, m, n); std::size_t ks[]{1, 255, 256, 300, 301, n, n - 1, n + 1, 0}; auto k = ks[sx_pick("k", 9)]; bmodel a; a.n = 0; a.fill(0, k, 9); if(k) { a.d[0] = sx_u8("a"); a.d[k - 1] = sx_u8("a"); } auto op = sx_pick("op", 10); if(op >= 8) sx_assume(k == 1);
		switch(op) {
			case 0: v.assign(a.d, a.d + k); m = a; break; case 1: { auto x = sx_u8("x"); v.assign(static_cast<std::size_t>(k), x); m.n = 0; m.fill(0, k, x); break; } case 2: v = il<std::uint8_t>(a.d, k); m = a; break; case 3: { vector<std::uint8_t> o(a.d, a.d + k); if(sx_pick("swap", 2)) { swap(v, o); check(o, m, "swap"); } else { v = o; check(o, a, "source of an assignment"); } m = a; break; }
			case 4: { v.resize(k); if(k > n) m.fill(n, k - n, 0); m.n = k; break; } case 5: { auto x = sx_u8("x"); v.resize(k, x); if(k > n) m.fill(n, k - n, x); m.n = k; break; } case 6: { v.reserve(n + k); check(v, m, "reserve"); sx_assert(v.capacity() >= n + k, "capacity"); auto p = v.data(); v.insert(v.end(), a.d, a.d + k); m.insert(n, a.d, k); sx_assert(v.data() == p, "growing within the reserved capacity must not reallocate"); break; }
			case 7: { v.reserve(3 * n); v.erase(v.begin() + (k < n ? k : n), v.end()); m.n = k < n ? k : n; v.shrink_to_fit(); break; } case 8: { vector<std::uint8_t> o{v}; check(o, m, "copy"); auto p = o.data(); vector<std::uint8_t> q{std::move(o)}; check(q, m, "move"); sx_assert(q.data() == p, "moving a vector keeps its elements in place"); break; }
			case 9: { auto & w = v; v = w; check(v, m, "self-assignment"); std::uint8_t got{0}; auto i = sx_u64("index"); std::size_t wrap[]{n, n - 1, 65536, 255, 256, 0}; auto b = wrap[sx_pick("near", 6)]; sx_assume(i == b || i == b + 65536 || i == b + (std::uint64_t{1} << 32) || i > (std::uint64_t{1} << 62)); const auto & c = v; auto t = outcome([&] { got = c.at(i); }); sx_assert(t == (i < n ? Thrown::none : Thrown::range), "at throws out_of_range for exactly the indices not below the size"); if(i < n) sx_assert(got == m.d[sx_concretize(i)] && &v[i] == v.data() + i, "at"); break; }
		}
		check(v, m, "operation on many elements"); sx_assert(v.end() - v.begin() == static_cast<std::ptrdiff_t>(m.n) && v.rend() - v.rbegin() == static_cast<std::ptrdiff_t>(m.n), "iterator distance"); sx_note("size", v.size()); v.push_back(1); m.fill(m.n, 1, 1); check(v, m, "push_back to many elements");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
