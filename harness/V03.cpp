// BOUND: every sequence of 3 operations (thorough: 4) out of 34 on two vectors of elements with registered lifetime, from start sizes 0, 3, 9, 10, 11 (second vector 2 or 12); single operations of V01, V02 and V05 on the same element type are checked there for all sizes
// BOUND: every sequence of 6 operations (thorough: 7) out of 7 that change the memory on two vectors
// BOUND: vectors of 65, 70, 130, 300 elements (one symbolic) with room for 0 or 40 more: every pair of operations out of 11, for two element types that know their address
// OUTSIDE: longer sequences; more than two vectors
#define SX_TYPES_APART
#include "types.hpp"
using namespace sx; using ptl::vector; using V = vector<tracked>;

static void step(V & a, vmodel & ma, V & b, vmodel & mb) {
	std::uint16_t d[12]; auto chars = [&](std::size_t n) { sx_bytes(d, 2 * n, "x"); };
	auto mid = ma.n / 2;
	switch(sx_pick("op", 34)) {
		case 0: { chars(1); const tracked x(d[0]); a.push_back(x); ma.fill(ma.n, 1, d[0]); break; }
		case 1: { chars(1); a.push_back(tracked(d[0])); ma.fill(ma.n, 1, d[0]); break; }
		case 2: { chars(1); a.emplace_back(d[0]); ma.fill(ma.n, 1, d[0]); break; }
		case 3: { chars(1); a.emplace(a.begin() + mid, d[0], std::uint16_t{0}); ma.fill(mid, 1, d[0]); break; }
		case 4: { chars(1); a.insert(a.begin(), tracked(d[0])); ma.fill(0, 1, d[0]); break; }
		case 5: { chars(1); const tracked x(d[0]); a.insert(a.begin() + mid, 8, x); ma.fill(mid, 8, d[0]); break; }
		case 6: { chars(3); vargs<tracked> x{3, "y"}; a.insert(a.begin() + mid, x.p(), x.e()); ma.splice(mid, 0, x.d, 3); break; }
		case 7: { vargs<tracked> x{2, "y"}; input_src<tracked> s{x.p(), x.e()}; a.insert(a.begin() + mid, input_it<tracked>{&s}, input_it<tracked>{}); ma.splice(mid, 0, x.d, 2); break; }
		case 8: { a.insert(a.begin() + mid, b.begin(), b.end()); ma.splice(mid, 0, mb.d, mb.n); break; }
		case 9: { a.insert(a.end(), {}); break; }
		case 10: { if(!ma.n) break; a.pop_back(); --ma.n; break; }
		case 11: { if(!ma.n) break; a.erase(a.begin() + mid); ma.erase(mid, 1); break; }
		case 12: { auto f = ma.n / 3, l = ma.n - f; a.erase(a.begin() + f, a.begin() + l); ma.erase(f, l - f); break; }
		case 13: a.erase(a.begin() + mid, a.begin() + mid); break;
		case 14: a.clear(); ma.n = 0; break;
		case 15: a.shrink_to_fit(); break;
		case 16: a.reserve(ma.n + 13); break;
		case 17: { auto k = ma.n + 3; a.resize(k); ma.fill(ma.n, 3, 0); break; }
		case 18: { chars(1); const tracked x(d[0]); a.resize(11, x); if(ma.n < 11) ma.fill(ma.n, 11 - ma.n, d[0]); ma.n = 11; break; }
		case 19: { a.resize(mid); ma.n = mid; break; }
		case 20: { vargs<tracked> x{4, "y"}; a.assign(x.p(), x.e()); ma.set(x.d, 4); break; }
		case 21: { vargs<tracked> x{2, "y"}; input_src<tracked> s{x.p(), x.e()}; a.assign(input_it<tracked>{&s}, input_it<tracked>{}); ma.set(x.d, 2); break; }
		case 22: { chars(1); const tracked x(d[0]); a.assign(12, x); ma.n = 0; ma.fill(0, 12, d[0]); break; }
		case 23: { vargs<tracked> x{1, "y"}; a = il<tracked>(x.p(), 1); ma.set(x.d, 1); break; }
		case 24: a = b; ma = mb; break;
		case 25: { a = std::move(b); ma = mb; mb.n = b.size(); for(std::size_t i{0}; i < mb.n; ++i) mb.d[i] = b[i].get(); break; }
		case 26: { a.swap(b); vmodel t{ma}; ma = mb; mb = t; break; }
		case 27: { V c{a}; check(c, ma, "copy"); c.emplace_back(std::uint16_t{3}); b = std::move(c); mb = ma; mb.fill(mb.n, 1, 3); break; }
		case 28: { V c{std::move(a)}; check(c, ma, "move"); a = std::move(c); break; }
		case 29: a = *&a; break;
		case 30: { auto & r = a; a = std::move(r); break; }
		case 31: swap(a, a); break;
		case 32: { if(!ma.n) break; a.push_back(a[mid]); ma.fill(ma.n, 1, ma.d[mid]); break; }
		case 33: { a = V(); ma.n = 0; break; }
	}
	check(a, ma, "first vector after the operation"); check(b, mb, "second vector after the operation"); sx_assert(sx_life_count() == ma.n + mb.n, "number of elements alive");
}
SX_HARNESS(h_sequences) {
	{
		V a, b; vmodel ma, mb; auto n = one_of("n", {0, 3, 9, 10, 11}); fill(a, ma, n, n == 3 ? v_spare : n == 9 ? v_shrunk : v_grown); auto k = n == 9 ? 12 : 2; fill(b, mb, k, v_exact, "d");
		for(int i{0}; i < (SX_THOROUGH ? 4 : 3); ++i) step(a, ma, b, mb);
		note(a); note(b);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<tracked>(0); sx_reach("end");
}
// element types of other sizes and alignments: accesses stay in bounds, nothing is leaked
template<typename T> static void sized() {
	{
		vector<T> v; std::size_t n{0}; auto m = [](std::uint8_t x) { T t; std::memset(static_cast<void *>(&t), x, sizeof(T)); return t; }; auto ok = [&](std::size_t i, std::uint8_t x) { auto p = reinterpret_cast<const unsigned char *>(v.data() + i); bool r{true}; for(std::size_t k{0}; k < sizeof(T); ++k) r &= p[k] == x; sx_assert(r && reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "element"); };
		for(; n < 23; ++n) v.push_back(m(static_cast<std::uint8_t>(n))); for(std::size_t i{0}; i < n; ++i) ok(i, static_cast<std::uint8_t>(i));
		v.insert(v.begin() + 3, 30, m(99)); ok(2, 2); ok(3, 99); ok(32, 99); ok(33, 3); ok(52, 22); v.erase(v.begin() + 3, v.begin() + 33); ok(3, 3); ok(22, 22); v.resize(60); ok(22, 22); v.resize(5); v.shrink_to_fit(); ok(4, 4); auto o = v; sx_assert(o.size() == 5, "copy"); v = std::move(o); ok(0, 0); v.resize(5 + 30); v.reserve(100); ok(4, 4); sx_assert(v.max_size() == PTRDIFF_MAX / sizeof(T), "max_size");
	}
	sx_assert(sx_heap_live() == 0, "leak");
}
struct S3 { std::uint8_t x[3]; }; struct S24 { std::uint64_t x[3]; }; struct S40 { std::uint8_t x[40]; }; struct alignas(16) S16 { std::uint8_t x[16]; };
SX_HARNESS(h_types) { switch(sx_pick("type", 5)) { case 0: sized<std::uint8_t>(); break; case 1: sized<S3>(); break; case 2: sized<S24>(); break; case 3: sized<S40>(); break; case 4: sized<S16>(); break; } sx_reach("end"); }
SX_HARNESS(h_longer) {
	{
		V s[2]; vmodel m[2]; fill(s[0], m[0], 4, v_exact); if(!SX_REDUCED && sx_pick("second", 2)) fill(s[1], m[1], 11, v_exact, "d");
		for(unsigned i{0}; i < (SX_THOROUGH ? 7 : SX_REDUCED ? 4 : 6); ++i) {
			auto & a = s[i & 1]; auto & x = m[i & 1]; auto & b = s[1 - (i & 1)]; auto & y = m[1 - (i & 1)]; auto c = static_cast<std::uint16_t>(100 + i);
			switch(sx_pick("op", 7)) { case 0: { const tracked v(c); a.insert(a.begin() + x.n / 2, 4, v); x.fill(x.n / 2, 4, c); break; } case 1: { a.resize(x.n / 2); x.n /= 2; a.shrink_to_fit(); break; } case 2: a = b; x = y; break; case 3: { a = std::move(b); x = y; b.clear(); y.n = 0; break; } case 4: a.swap(b); { vmodel t{x}; x = y; y = t; } break; case 5: { auto p = x.n / 2; a.insert(a.begin() + p, b.begin(), b.end()); x.splice(p, 0, y.d, y.n); if(x.n > 20) { a.erase(a.begin() + 11, a.end()); x.n = 11; } break; } case 6: { if(x.n) { a.erase(a.begin()); x.erase(0, 1); } a.push_back(tracked(c)); x.fill(x.n, 1, c); break; } }
			check(a, x, "longer sequence"); check(b, y, "longer sequence, other vector"); sx_assert(sx_life_count() == x.n + y.n, "number of elements alive");
		}
		note(s[0]); note(s[1]);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<tracked>(0); sx_reach("end");
}

// many elements
template<typename T> static void many() {
	{
		vector<T> v, w; ty::bmodel m, k; auto n = SX_REDUCED ? 70 : one_of("n", {65, 70, 130, 300}); auto x = sx_u8("x"); if(sx_pick("room", 2)) v.reserve(n + 40); for(std::size_t i{0}; i < n; ++i) { m.d[i] = i == n / 2 ? x : static_cast<std::uint8_t>(i * 7); v.push_back(T(m.d[i])); } m.n = n;
		for(int i{0}; i < 2; ++i) {
			auto p = m.n / 3; const T t(x);
			switch(sx_pick("op", 11)) {
				case 0: v.clear(); m.n = 0; break; case 1: v.erase(v.begin() + p, v.begin() + (m.n - p)); m.erase(p, m.n - 2 * p); break; case 2: { auto c = m.n + 41; v.resize(c); m.fill(m.n, 41, 0); break; } case 3: v.resize(p, t); m.n = p; break; case 4: { T d[3]{T(x), T(std::uint8_t{2}), T(std::uint8_t{3})}; v.assign(d, d + 3); std::uint8_t e[]{x, 2, 3}; m.n = 0; m.insert(0, e, 3); break; }
				case 5: v.insert(v.begin() + p, 35, t); m.fill(p, 35, x); break; case 6: v.shrink_to_fit(); break; case 7: w = v; k = m; break; case 8: v.swap(w); { ty::bmodel a{m}; m = k; k = a; } break; case 9: { vector<T> u{std::move(v)}; ty::check(u, m, "moved"); v = w; w = std::move(u); ty::bmodel a{m}; m = k; k = a; break; } case 10: v.insert(v.end(), w.begin(), w.end()); m.insert(m.n, k.d, k.n); break;
			}
			ty::check(v, m, "many elements"); ty::check(w, k, "many elements, other vector"); sx_assert(sx_life_count() == m.n + k.n + 1, "number of elements alive");
		}
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_assert(sx_life_count() == 0, "elements alive");
}
SX_HARNESS(h_many) { if(sx_pick("type", 2)) many<ty::fixed<40>>(); else many<ty::fixed<1>>(); sx_reach("end"); }
