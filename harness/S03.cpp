// BOUND: old lengths in steps up to 256; four pre-states; replaced ranges: every sub-range for short strings (symbolic start and length), ends and middles otherwise; replacement lengths around the replaced length, around filling the capacity, and beyond; every character symbolic
// BOUND: long strings: lengths 1000, 4096, 32768, 65535, 65536, 70000 (thorough: 18 from 511 to 70000) with ten symbolic characters at the ends, the middle and where narrower counters wrap
// OUTSIDE: lengths above 140000
#include "large.hpp"
using namespace sx; using ptl::string;

SX_HARNESS(h_assign) {
	{
		string s; model m; auto n = length("n"); fill_any(s, m, n);
		std::size_t cap = s.capacity(), c[]{0, 1, 2, n, n + 1, 22, 23, cap - n, cap - n + 1, cap, cap + 1, cap / 2, n / 2, n ? n - 1 : 0, cap - 1, 49}; auto ki = sx_pick("k", 16); for(std::size_t i{0}; i < ki; ++i) if(c[i] == c[ki]) sx_assume(false);
		auto k = c[ki]; arg a{k}; input_src<char> src{a.d, a.d + k}; auto how = sx_pick("how", 9);
		switch(how) {
			case 0: s.assign(a.view()); break;
			case 1: s.assign(input_it<char>{&src}, input_it<char>{}); break;
			case 2: s.assign(fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); break;
			case 3: s.assign(bidi_it<char>{a.d}, bidi_it<char>{a.d + k}); break;
			case 4: s.assign(a.d, a.d + k); break;
			case 5: s.assign(il(a.d, k)); break;
			case 6: { auto ch = static_cast<char>(sx_u8("ch")); std::memset(a.d, ch, k); s.assign(k, ch); break; }
			case 7: s = a.view(); break;
			case 8: s = il(a.d, k); break;
		}
		m.set(a.d, k); check(s, m, "assign"); note(s);
		s.push_back('+'); m.splice(k, 0, 1, '+'); check(s, m, "push_back after assign");
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
static void replace(std::size_t few, std::size_t n) {
	string s; model m; fill_any(s, m, n);
	std::size_t pos, del;
	if(n <= few) { pos = sx_concretize(sx_range("pos", 0, n)); del = sx_concretize(sx_range("del", 0, n - pos)); }
	else { pos = position("pos", n, 0); std::size_t l[]{0, 1, (n - pos) / 2, n - pos, 2}; auto i = sx_pick("del", 5); sx_assume(l[i] <= n - pos); for(std::size_t j{0}; j < i; ++j) if(l[j] == l[i]) sx_assume(false); del = l[i]; }
	std::size_t room = s.capacity() - n, c[]{0, 1, 2, del, del + 1, del ? del - 1 : 0, room, room + 1, room + del, room + del + 1, 23, room ? room - 1 : 0, 50}; auto ki = sx_pick("k", 13); for(std::size_t i{0}; i < ki; ++i) if(c[i] == c[ki]) sx_assume(false);
	auto k = c[ki]; arg a{k}; input_src<char> src{a.d, a.d + k}; auto how = sx_pick("how", 7); string::const_iterator f = s.cbegin() + pos, l = f + del; string * r{nullptr};
	switch(how) {
		case 0: r = &s.replace(f, l, a.view()); break;
		case 1: r = &s.replace(f, l, input_it<char>{&src}, input_it<char>{}); break;
		case 2: r = &s.replace(f, l, fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); break;
		case 3: r = &s.replace(f, l, bidi_it<char>{a.d}, bidi_it<char>{a.d + k}); break;
		case 4: r = &s.replace(s.begin() + pos, s.begin() + (pos + del), a.d, a.d + k); break;
		case 5: r = &s.replace(f, l, il(a.d, k)); break;
		case 6: { auto ch = static_cast<char>(sx_u8("ch")); std::memset(a.d, ch, k); r = &s.replace(f, l, k, ch); break; }
	}
	sx_assert(r == &s, "result of replace");
	m.splice(pos, del, a.d, k); check(s, m, "replace"); note(s);
	s.append(2, '+'); m.splice(m.n, 0, 2, '+'); check(s, m, "append after replace");
}
SX_HARNESS(h_replace_short) { replace(8, one_of("n", {0, 1, 2, 3, 5, 8})); sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end"); }
SX_HARNESS(h_replace_sso) { replace(SX_THOROUGH ? 23 : 0, one_of("n", {10, 20, 21, 22, 23})); sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end"); }
SX_HARNESS(h_replace_long) { replace(0, SX_THOROUGH ? one_of("n", {24, 25, 30, 33, 40, 47, 48, 49, 64, 71, 72, 73, 127, 128, 130, 255, 256, 260}) : one_of("n", {24, 33, 47, 48, 49, 72, 73, 128, 260})); sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end"); }
SX_HARNESS(h_replace_all_heap) { // every sub-range of a short string that lives on the heap
	string s; model m; auto n = one_of("n", {1, 4}); char b[8]; sx_bytes(b, n, "c"); s.reserve(one_of("cap", {23, 49})); s.append(std::string_view{b, n}); m.set(b, n);
	auto pos = sx_range("pos", 0, n); auto del = sx_range("del", 0, n); sx_assume(pos + del <= n); auto k = sx_range("k", 0, 3); char x[3]; sx_bytes(x, 3, "x");
	if(sx_pick("how", 2)) s.replace(s.begin() + pos, s.begin() + (pos + del), x, x + k); else s.replace(s.begin() + pos, s.begin() + (pos + del), il(x, k));
	m.splice(sx_concretize(pos), sx_concretize(del), x, sx_concretize(k)); check(s, m, "replace"); note(s);
	sx_reach("end");
}
SX_HARNESS(h_large) {
	{
		string s; huge m, a; auto n = large("n"); fill(s, m, n); auto k = other("k", n); a.make(k, "a", 99);
		if(sx_pick("op", 3) == 0) {
			switch(sx_pick("how", 5)) { case 0: s.assign(a.view()); break; case 1: s = a.view(); break; case 2: s.assign(k, 'k'); std::memset(a.d, 'k', k); break; case 3: s = il(a.d, k); break; case 4: sx_assume(k < 2000); s.assign(fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); break; }
			check(s, a, "assignment to a long string"); a.splice(k, 0, 1, '+'); s.push_back('+'); check(s, a, "push_back after assign");
		} else {
			std::size_t c[][2]{{0, n}, {0, 300}, {n / 2, 256}, {n - 301, 301}, {255, 1}, {n / 2, 0}, {1, n - 2}}; auto i = sx_pick("range", 7); auto pos = c[i][0], del = c[i][1]; auto f = s.cbegin() + pos, l = f + del;
			switch(sx_pick("how", 4)) { case 0: s.replace(f, l, a.view()); break; case 1: s.replace(f, l, k, 'k'); std::memset(a.d, 'k', k); break; case 2: s.replace(f, l, il(a.d, k)); break; case 3: sx_assume(k < 400); s.replace(f, l, fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); break; }
			m.splice(pos, del, a.d, k); check(s, m, "replacement in a long string"); note(s); s.push_back('+'); m.splice(m.n, 0, 1, '+'); check(s, m, "push_back after replace");
		}
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
