// BOUND: lengths 0, 1, 5, 20, 21, 22, 23, 47, 48, 100 with four pre-states; each allocation of an operation failing or not (up to 4 failures); throwing at every dereference of an iterator range of up to 30 characters (input, forward, bidirectional, random access); requested counts: every 64-bit value from 2^20 up, symbolic, for every operation taking a count or a range
// STUB: allocation requests above 1 MiB fail, as do those the harness lets fail
// OUTSIDE: several consecutive failing operations; failing comparison or stream operations
#include "str.hpp"
using namespace sx; using ptl::string;

static std::size_t len() { return one_of("n", {0, 1, 5, 20, 21, 22, 23, 47, 48, 100}); }

template<typename Op> static void alloc_case(string & s, model & m, model & after, Op op) {
	sx_alloc_fail(4); auto t = outcome(op); sx_alloc_fail(0);
	sx_assert(t == Thrown::none || t == Thrown::alloc, "only bad_alloc may be reported when memory runs out");
	if(t == Thrown::none) { check(s, after, "result of an operation that survived failing allocations"); sx_reach("succeeded"); m = after; } else { check(s, m, "string changed by an operation that threw bad_alloc"); sx_reach("failed"); }
}
SX_HARNESS(h_alloc) {
	{
		string s; model m; auto n = len(); fill_any(s, m, n); auto k = one_of("k", {1, 3, 30}); arg a{k}; model after{m}; auto pos = sx_pick("pos", 3) * n / 2; auto del = (n - pos) / 2; input_src<char> src{a.d, a.d + k};
		auto p = s.cbegin() + pos, q = p + del; auto c = a.d[0]; input_it<char> i{&src}, j;
		switch(sx_pick("op", 27)) {
			case 0: after.splice(n, 0, a.d, k); alloc_case(s, m, after, [&] { s.append(a.view()); }); break;
			case 1: after.splice(n, 0, a.d, k); alloc_case(s, m, after, [&] { s.append(il(a.d, k)); }); break;
			case 2: after.splice(n, 0, k, c); alloc_case(s, m, after, [&] { s.append(k, c); }); break;
			case 3: after.splice(n, 0, a.d, k); alloc_case(s, m, after, [&] { s.append(i, j); }); break;
			case 4: after.splice(n, 0, a.d, k); alloc_case(s, m, after, [&] { s.append(fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); }); break;
			case 5: after.splice(n, 0, 1, c); alloc_case(s, m, after, [&] { s.push_back(c); }); break;
			case 6: after.splice(n, 0, 1, c); alloc_case(s, m, after, [&] { s += c; }); break;
			case 7: after = model{a.d, k}; alloc_case(s, m, after, [&] { s.assign(a.view()); }); break;
			case 8: after = model{a.d, k}; alloc_case(s, m, after, [&] { s.assign(i, j); }); break;
			case 9: after = model{a.d, k}; alloc_case(s, m, after, [&] { s = il(a.d, k); }); break;
			case 10: after.n = 0; after.splice(0, 0, k, c); alloc_case(s, m, after, [&] { s.assign(k, c); }); break;
			case 11: after.splice(pos, 0, a.d, k); alloc_case(s, m, after, [&] { s.insert(p, a.view()); }); break;
			case 12: after.splice(pos, 0, a.d, k); alloc_case(s, m, after, [&] { s.insert(p, i, j); }); break;
			case 13: after.splice(pos, 0, a.d, k); alloc_case(s, m, after, [&] { s.insert(p, il(a.d, k)); }); break;
			case 14: after.splice(pos, 0, k, c); alloc_case(s, m, after, [&] { s.insert(p, k, c); }); break;
			case 15: after.splice(pos, del, a.d, k); alloc_case(s, m, after, [&] { s.replace(p, q, a.view()); }); break;
			case 16: after.splice(pos, del, a.d, k); alloc_case(s, m, after, [&] { s.replace(p, q, i, j); }); break;
			case 17: after.splice(pos, del, a.d, k); alloc_case(s, m, after, [&] { s.replace(p, q, il(a.d, k)); }); break;
			case 18: after.splice(pos, del, k, c); alloc_case(s, m, after, [&] { s.replace(p, q, k, c); }); break;
			case 19: after.splice(n, 0, k, c); alloc_case(s, m, after, [&] { s.resize(n + k, c); }); break;
			case 20: alloc_case(s, m, after, [&] { s.reserve(s.capacity() + k); }); break;
			case 21: { string o{a.view()}; after = model{a.d, k}; alloc_case(s, m, after, [&] { s = o; }); check(o, model{a.d, k}, "assigned-from string changed"); break; }
			case 22: { string o{a.view()}; after.splice(n, 0, a.d, k); alloc_case(s, m, after, [&] { s += o; }); check(o, model{a.d, k}, "appended string changed"); break; }
			case 23: alloc_case(s, m, after, [&] { string o{s}; check(o, m, "copy"); }); break;
			case 24: after.splice(n, 0, a.d, k); alloc_case(s, m, m, [&] { string o = s + a.view(); check(o, after, "concatenation"); }); break;
			case 25: alloc_case(s, m, after, [&] { string o = s.substr(pos, del); sx_assert(o.size() == del, "substr"); }); break;
			case 26: after.splice(n, 0, after.d, n); { model t{m}; after = t; after.splice(n, 0, t.d, n); } alloc_case(s, m, after, [&] { s += s; }); break;
		}
		note(s); usable(s);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
// constructors: nothing remains of a string whose construction failed
SX_HARNESS(h_construct) {
	{
		auto k = one_of("k", {0, 1, 22, 23, 30, 60}); arg a{k}; input_src<char> src{a.d, a.d + k}; auto how = sx_pick("how", 9); model m{a.d, k}; bool throwing = sx_pick("iterator", 2); if(throwing) { sx_assume(k > 0 && how >= 3 && how <= 6); it_fuse = static_cast<int>(sx_concretize(sx_range("fuse", 0, k - 1))); } else sx_alloc_fail(3);
		auto t = outcome([&] {
			switch(how) {
				case 0: { string s{a.view()}; check(s, m, "constructed"); break; }
				case 1: { string s(k, 'x'); sx_assert(s.size() == k, "constructed"); break; }
				case 2: { string s(il(a.d, k)); check(s, m, "constructed"); break; }
				case 3: { string s(input_it<char>{&src}, input_it<char>{}); check(s, m, "constructed"); break; }
				case 4: { string s(fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); check(s, m, "constructed"); break; }
				case 5: { string s(bidi_it<char>{a.d}, bidi_it<char>{a.d + k}); check(s, m, "constructed"); break; }
				case 6: { string s(std::make_reverse_iterator(bidi_it<char>{a.d + k}), std::make_reverse_iterator(bidi_it<char>{a.d})); sx_assert(s.size() == k, "constructed"); break; }
				case 7: { using namespace ptl::literals; auto s = operator""_s(a.d, k); check(s, m, "constructed"); break; }
				case 8: { auto s = a.view() + string{}; check(s, m, "constructed"); break; }
			}
		});
		sx_alloc_fail(0); it_fuse = -1;
		if(throwing) { sx_assert(t == Thrown::user, "the exception of the iterator must arrive"); sx_reach("iterator threw"); } else sx_assert(t == Thrown::none || t == Thrown::alloc, "only bad_alloc");
		if(t == Thrown::alloc) sx_reach("failed");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
// iterators that throw at any position
template<typename It> static void throwing(string & s, std::size_t how, string::const_iterator p, string::const_iterator q, It i, It j) {
	switch(how) { case 0: s.append(i, j); break; case 1: s.assign(i, j); break; case 2: s.insert(p, i, j); break; case 3: s.replace(p, q, i, j); break; }
}
SX_HARNESS(h_iterator) {
	{
		string s; model m; auto n = len(); fill_any(s, m, n); auto k = one_of("k", {1, 2, 5, 30}); arg a{k}; auto pos = sx_pick("pos", 3) * n / 2; auto del = (n - pos) / 2; input_src<char> src{a.d, a.d + k}; auto p = s.cbegin() + pos, q = p + del;
		auto how = sx_pick("how", 4), kind = sx_pick("kind", 4); std::size_t f[]{0, 1, k / 2, k - 1}; auto fi = sx_pick("fuse", 4); for(std::size_t x{0}; x < fi; ++x) if(f[x] == f[fi]) sx_assume(false); sx_assume(f[fi] < k);
		it_fuse = static_cast<int>(f[fi]);
		auto t = outcome([&] {
			switch(kind) {
				case 0: throwing(s, how, p, q, input_it<char>{&src}, input_it<char>{}); break;
				case 1: throwing(s, how, p, q, fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); break;
				case 2: throwing(s, how, p, q, bidi_it<char>{a.d}, bidi_it<char>{a.d + k}); break;
				case 3: throwing(s, how, p, q, std::make_reverse_iterator(bidi_it<char>{a.d + k}), std::make_reverse_iterator(bidi_it<char>{a.d})); break;
			}
		});
		it_fuse = -1;
		sx_assert(t == Thrown::user, "the exception of the iterator must arrive"); check(s, m, "string changed by an operation whose iterator threw"); note(s); usable(s);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
// requests that cannot be satisfied: every count
struct many_it { // a range of any length
	using iterator_category = std::random_access_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char *; using reference = char;
	std::ptrdiff_t at; char operator*() const { return 'm'; } many_it & operator++() { ++at; return *this; } many_it operator++(int) { auto t{*this}; ++at; return t; } many_it & operator--() { --at; return *this; }
	many_it & operator+=(std::ptrdiff_t k) { at += k; return *this; } many_it & operator-=(std::ptrdiff_t k) { at -= k; return *this; } char operator[](std::ptrdiff_t) const { return 'm'; }
	friend many_it operator+(many_it i, std::ptrdiff_t k) { i.at += k; return i; } friend many_it operator-(many_it i, std::ptrdiff_t k) { i.at -= k; return i; } friend std::ptrdiff_t operator-(many_it a, many_it b) { return a.at - b.at; }
	friend bool operator==(many_it a, many_it b) { return a.at == b.at; } friend bool operator!=(many_it a, many_it b) { return a.at != b.at; } friend bool operator<(many_it a, many_it b) { return a.at < b.at; }
};
SX_HARNESS(h_huge) {
	{
		string s; model m; auto n = one_of("n", {0, 1, 5, 22, 23, 48, 100}); fill_any(s, m, n); auto k = sx_u64("count"); sx_assume(k >= (1u << 20)); auto pos = sx_pick("pos", 3) * n / 2; auto del = (n - pos) / 2; auto p = s.cbegin() + pos, q = p + del;
		auto max = s.max_size(); bool over = false; auto range = [&] { sx_assume(k <= static_cast<std::uint64_t>(PTRDIFF_MAX)); return many_it{static_cast<std::ptrdiff_t>(k)}; };
		Thrown t{}; many_it z{0};
		switch(sx_pick("op", 14)) {
			case 0: over = k > max - n; t = outcome([&] { s.append(k, 'x'); }); break;
			case 1: over = k > max; t = outcome([&] { s.assign(k, 'x'); }); break;
			case 2: over = k > max - n; t = outcome([&] { s.insert(p, k, 'x'); }); break;
			case 3: over = k > max - (n - del); t = outcome([&] { s.replace(p, q, k, 'x'); }); break;
			case 4: over = k > max; t = outcome([&] { s.resize(k); }); break;
			case 5: over = k > max; t = outcome([&] { s.resize(k, 'x'); }); break;
			case 6: over = k > max; t = outcome([&] { s.reserve(k); }); break;
			case 7: over = k > max; t = outcome([&] { string o(k, 'x'); }); break;
			case 8: { auto l = range(); over = k > max - n; t = outcome([&] { s.append(z, l); }); break; }
			case 9: { auto l = range(); over = k > max; t = outcome([&] { s.assign(z, l); }); break; }
			case 10: { auto l = range(); over = k > max - n; t = outcome([&] { s.insert(p, z, l); }); break; }
			case 11: { auto l = range(); over = k > max - (n - del); t = outcome([&] { s.replace(p, q, z, l); }); break; }
			case 12: { auto l = range(); over = k > max; t = outcome([&] { string o(z, l); }); break; }
			case 13: { sx_assume(k + n > n); over = k + n > max; t = outcome([&] { s.resize(k + n, 'y'); }); break; }
		}
		sx_assert(t != Thrown::none, "an impossible request must be reported");
		sx_assert(over ? t == Thrown::length : t == Thrown::alloc || t == Thrown::length, "length_error for sizes above max_size, bad_alloc for others");
		if(over) sx_reach("above max_size"); else sx_reach("below max_size");
		check(s, m, "string changed by an operation that threw"); usable(s);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
