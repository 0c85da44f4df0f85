// BOUND: sizes 0, 1, 3, 9, 10, 11, 20 in four pre-states; each allocation of an operation failing or not (up to 4 failures) or one of its element copies/constructions throwing (every position up to 12 elements, ends and middle above); throwing iterators; requested counts: every 64-bit value from 2^20 up, symbolic, for every operation taking a count or a range
// STUB: allocation requests above 1 MiB fail, as do those the harness lets fail
// OUTSIDE: several consecutive failing operations
#include "vec.hpp"
using namespace sx; using ptl::vector; using T = tracked; using V = vector<T>;

// runs op with failures switched on; the vector must either have become `after` or be as before
template<typename Op> static void failing(V & v, vmodel & m, const vmodel & after, std::size_t elements, Op op) {
	auto before = sx_life_count(); auto kind = sx_pick("failure", 3);
	if(kind == 0) sx_alloc_fail(4); else if(kind == 1) { fuse.copies = fuse.defaults = static_cast<int>(position("fuse", elements, 12)); } else it_fuse = static_cast<int>(position("fuse", elements, 3));
	auto t = outcome(op); sx_alloc_fail(0); fuse = fuse_t{}; it_fuse = -1;
	if(t == Thrown::none) { check(v, after, "result of an operation that survived"); sx_assert(sx_life_count() + m.n == before + after.n, "elements alive after the operation"); m = after; sx_reach("succeeded"); }
	else {
		sx_assert(kind == 0 ? t == Thrown::alloc : t == Thrown::user, "the exception that occurred must be reported"); check(v, m, "vector changed by an operation that threw"); sx_assert(sx_life_count() == before, "elements alive after an operation that threw");
		if(kind == 0) sx_reach("allocation failed"); else if(kind == 1) sx_reach("element threw"); else sx_reach("iterator threw");
	}
}
SX_HARNESS(h_failing) {
	{
		V v; vmodel m; auto n = one_of("n", {0, 1, 3, 9, 10, 11, 20}); fill_any(v, m, n); auto k = one_of("k", {1, 3, 12}); vargs<T> a{k}; vmodel after{m}, all{a.d, k}; auto pos = sx_pick("pos", 3) * n / 2; auto p = v.cbegin() + pos; input_src<T> src{a.p(), a.e()}; input_it<T> i{&src}, j; fwd_it<T> f{a.p()}, l{a.e()}; const T & x = a.p()[0]; auto d = a.d[0];
		switch(sx_pick("op", 24)) {
			case 0: after.fill(n, 1, d); failing(v, m, after, 1, [&] { v.push_back(x); }); break;
			case 1: after.fill(n, 1, 7); { T y(std::uint16_t{7}); failing(v, m, after, 1, [&] { v.push_back(std::move(y)); }); } break;
			case 2: after.fill(n, 1, d); failing(v, m, after, 1, [&] { v.emplace_back(d); }); break;
			case 3: after.fill(pos, 1, d); failing(v, m, after, 1, [&] { v.emplace(p, d); }); break;
			case 4: after.fill(pos, 1, d); failing(v, m, after, 1, [&] { v.insert(p, x); }); break;
			case 5: after.fill(pos, k, d); failing(v, m, after, k, [&] { v.insert(p, k, x); }); break;
			case 6: after.splice(pos, 0, a.d, k); failing(v, m, after, k, [&] { v.insert(p, f, l); }); break;
			case 7: after.splice(pos, 0, a.d, k); failing(v, m, after, k, [&] { v.insert(p, i, j); }); break;
			case 8: after.splice(pos, 0, a.d, k); failing(v, m, after, k, [&] { v.insert(p, il<T>(a.p(), k)); }); break;
			case 9: failing(v, m, all, k, [&] { v.assign(f, l); }); break;
			case 10: failing(v, m, all, k, [&] { v.assign(i, j); }); break;
			case 11: failing(v, m, all, k, [&] { v = il<T>(a.p(), k); }); break;
			case 12: after.n = 0; after.fill(0, k, d); failing(v, m, after, k, [&] { v.assign(k, x); }); break;
			case 13: after.fill(n, k, 0); failing(v, m, after, k, [&] { v.resize(n + k); }); break;
			case 14: after.fill(n, k, d); failing(v, m, after, k, [&] { v.resize(n + k, x); }); break;
			case 15: failing(v, m, m, 1, [&] { v.reserve(v.capacity() + k); }); break;
			case 16: { vmodel t{m}; failing(v, m, t, n, [&] { v.shrink_to_fit(); }); break; }
			case 17: { V o(a.p(), a.e()); failing(v, m, all, k, [&] { v = o; }); check(o, all, "source of an assignment"); break; }
			case 18: { vmodel t{m}; failing(v, m, t, n, [&] { V o{v}; check(o, t, "copy"); }); break; }
			case 19: { vmodel t{m}; failing(v, m, t, k, [&] { V o(f, l); check(o, all, "constructed"); }); break; }
			case 20: { vmodel t{m}; failing(v, m, t, k, [&] { V o(i, j); check(o, all, "constructed"); }); break; }
			case 21: { vmodel t{m}; failing(v, m, t, k, [&] { V o(static_cast<std::size_t>(k)); sx_assert(o.size() == k, "constructed"); }); break; }
			case 22: { vmodel t{m}; failing(v, m, t, k, [&] { V o(static_cast<std::size_t>(k), x); sx_assert(o.size() == k, "constructed"); }); break; }
			case 23: { if(n == 0) sx_assume(false); after.fill(pos, 1, m.d[n / 2]); failing(v, m, after, 1, [&] { v.insert(p, v[n / 2]); }); break; }
		}
		a.intact(); note(v); usable(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<T>(0); sx_reach("end");
}
template<typename U> struct many_it { // a range of any length
	using iterator_category = std::random_access_iterator_tag; using value_type = U; using difference_type = std::ptrdiff_t; using pointer = const U *; using reference = U;
	std::ptrdiff_t at; U operator*() const { return U(std::uint16_t{9}); } many_it & operator++() { ++at; return *this; } many_it operator++(int) { auto t{*this}; ++at; return t; } many_it & operator--() { --at; return *this; }
	many_it & operator+=(std::ptrdiff_t k) { at += k; return *this; } many_it & operator-=(std::ptrdiff_t k) { at -= k; return *this; }
	friend many_it operator+(many_it i, std::ptrdiff_t k) { i.at += k; return i; } friend many_it operator-(many_it i, std::ptrdiff_t k) { i.at -= k; return i; } friend std::ptrdiff_t operator-(many_it a, many_it b) { return a.at - b.at; }
	friend bool operator==(many_it a, many_it b) { return a.at == b.at; } friend bool operator!=(many_it a, many_it b) { return a.at != b.at; } friend bool operator<(many_it a, many_it b) { return a.at < b.at; }
};
struct S40 { std::uint16_t v; std::uint16_t rest[19]; S40(std::uint16_t x = 0) : v{x}, rest{} {} };
inline std::uint16_t val(const S40 & s) { return s.v; }
template<typename U> static void huge() {
	{
		vector<U> v; vmodel m; auto n = one_of("n", {0, 1, 9, 10, 20}); fill_any(v, m, n); auto k = sx_u64("count"); sx_assume(k >= (1u << 20)); auto pos = sx_pick("pos", 2) * n; auto p = v.cbegin() + pos; auto max = v.max_size(); bool over{false}; const U x(std::uint16_t{9}); many_it<U> z{0}; Thrown t{};
		auto range = [&] { sx_assume(k <= static_cast<std::uint64_t>(PTRDIFF_MAX)); return many_it<U>{static_cast<std::ptrdiff_t>(k)}; };
		switch(sx_pick("op", 10)) {
			case 0: over = k > max; t = outcome([&] { v.resize(k); }); break;
			case 1: over = k > max; t = outcome([&] { v.resize(k, x); }); break;
			case 2: over = k > max; t = outcome([&] { v.reserve(k); }); break;
			case 3: over = k > max; t = outcome([&] { v.assign(k, x); }); break;
			case 4: over = k > max - n; t = outcome([&] { v.insert(p, k, x); }); break;
			case 5: over = k > max; t = outcome([&] { vector<U> o(k); }); break;
			case 6: over = k > max; t = outcome([&] { vector<U> o(k, x); }); break;
			case 7: { auto l = range(); over = k > max; t = outcome([&] { v.assign(z, l); }); break; }
			case 8: { auto l = range(); over = k > max - n; t = outcome([&] { v.insert(p, z, l); }); break; }
			case 9: { auto l = range(); over = k > max; t = outcome([&] { vector<U> o(z, l); }); break; }
		}
		sx_assert(t != Thrown::none, "an impossible request must be reported"); sx_assert(over ? t == Thrown::length : t == Thrown::alloc || t == Thrown::length, "length_error for sizes above max_size, bad_alloc for others"); if(over) sx_reach("above max_size"); else sx_reach("below max_size");
		check(v, m, "vector changed by an operation that threw"); usable(v);
	}
	sx_assert(sx_heap_live() == 0, "leak"); alive<U>(0); sx_reach("end");
}
SX_HARNESS(h_huge) { switch(sx_pick("type", 3)) { case 0: huge<std::uint16_t>(); break; case 1: huge<tracked>(); break; case 2: huge<S40>(); break; } }
