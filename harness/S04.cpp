// BOUND: lengths in steps up to 256 (thorough: all 0..75); four pre-states; every erased sub-range of short strings, ends and middles of longer ones; new sizes and capacities around the representation boundaries; indices passed to [] and at: every 64-bit value; every character symbolic
// BOUND: long strings: lengths 1000, 4096, 32768, 65535, 65536, 70000 (thorough: 18 from 511 to 70000) with ten symbolic characters at the ends, the middle and where narrower counters wrap
// OUTSIDE: lengths above 140000; operations outside their preconditions (pop_back of an empty string, erase(end()), offsets beyond the size)
#include "large.hpp"
using namespace sx; using ptl::string;

static void range_of(std::size_t n, std::size_t few, std::size_t & pos, std::size_t & del) {
	if(n <= few) { pos = sx_concretize(sx_range("pos", 0, n)); del = sx_concretize(sx_range("del", 0, n - pos)); return; }
	pos = position("pos", n, 0); std::size_t l[]{0, 1, (n - pos) / 2, n - pos, 2}; auto i = sx_pick("del", 5); sx_assume(l[i] <= n - pos); for(std::size_t j{0}; j < i; ++j) if(l[j] == l[i]) sx_assume(false); del = l[i];
}
SX_HARNESS(h_erase) {
	{
		string s; model m; auto n = length("n"); fill_any(s, m, n); std::size_t pos, del; range_of(n, SX_THOROUGH ? 25 : 16, pos, del); auto cap = s.capacity(); auto base = s.data();
		auto r = s.erase(s.cbegin() + pos, s.cbegin() + (pos + del)); m.splice(pos, del, "", 0); check(s, m, "erase"); note(s);
		sx_assert(r == s.begin() + pos && &*r == s.data() + pos, "iterator returned by erase"); sx_assert(s.capacity() == cap && s.data() == base, "erase must not reallocate");
		if(m.n) { auto p2 = sx_pick("p2", 2) ? m.n - 1 : 0; auto q = s.erase(s.begin() + p2); m.splice(p2, 1, "", 0); check(s, m, "erase of one character"); sx_assert(q - s.begin() == static_cast<std::ptrdiff_t>(p2), "iterator returned by erase"); }
		s.append(1, '.'); m.splice(m.n, 0, 1, '.'); check(s, m, "append after erase");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_shrink) {
	{
		string s; model m; auto n = length("n"); fill_any(s, m, n); auto cap = s.capacity(); const auto base = s.data(); auto kept = [&] { sx_assert(s.capacity() == cap && s.data() == base, "removal keeps the memory"); };
		switch(sx_pick("how", 6)) {
			case 0: { sx_assume(n > 0); s.pop_back(); --m.n; check(s, m, "pop_back"); kept(); if(m.n) { s.pop_back(); --m.n; check(s, m, "pop_back"); kept(); } break; }
			case 1: s.clear(); m.n = 0; check(s, m, "clear"); s.clear(); check(s, m, "clear"); kept(); break;
			case 2: s.shrink_to_fit(); check(s, m, "shrink_to_fit"); break;
			case 3: { std::size_t k[]{0, n / 2, n ? n - 1 : 0, 22, 23}; auto i = sx_pick("k", 5); sx_assume(k[i] < n); s.erase(s.begin() + k[i], s.end()); m.n = k[i]; check(s, m, "erase to the end"); s.shrink_to_fit(); check(s, m, "shrink_to_fit"); s.shrink_to_fit(); check(s, m, "shrink_to_fit"); break; }
			case 4: { s.clear(); s.shrink_to_fit(); m.n = 0; check(s, m, "shrink_to_fit of a cleared string"); break; }
			case 5: { auto p = base; while(m.n) { s.pop_back(); --m.n; check(s, m, "pop_back"); sx_assert(s.capacity() == cap && s.data() == p, "removal keeps the memory"); if(m.n < 24 && m.n > 20) { s.shrink_to_fit(); check(s, m, "shrink_to_fit"); cap = s.capacity(); p = s.data(); } } break; }
		}
		note(s); usable(s);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_resize) {
	{
		string s; model m; auto n = length("n"); fill_any(s, m, n); std::size_t cap = s.capacity(), c[]{0, 1, n, n + 1, n ? n - 1 : 0, 21, 22, 23, 24, cap, cap + 1, cap - 1, 48, 49, n / 2, 2 * n + 3}; auto i = sx_pick("k", 16); for(std::size_t j{0}; j < i; ++j) if(c[j] == c[i]) sx_assume(false); auto k = c[i];
		const auto base = s.data(); auto kept = [&] { if(k <= cap) sx_assert(s.capacity() == cap && s.data() == base, "resize and reserve within the capacity must not reallocate"); };
		switch(sx_pick("how", 3)) {
			case 0: s.resize(k); if(k > n) m.splice(n, 0, k - n, 0); m.n = k; check(s, m, "resize"); kept(); break;
			case 1: { auto ch = static_cast<char>(sx_u8("ch")); s.resize(k, ch); if(k > n) m.splice(n, 0, k - n, ch); m.n = k; check(s, m, "resize with a character"); kept(); break; }
			case 2: { s.reserve(k); check(s, m, "reserve"); sx_assert(s.capacity() >= k && s.capacity() >= cap, "capacity after reserve"); kept(); auto p = s.data(); while(m.n < k) { s.push_back('r'); m.splice(m.n, 0, 1, 'r'); } check(s, m, "growing within the reserved capacity"); sx_assert(s.data() == p, "growing within the reserved capacity must not reallocate"); break; }
		}
		note(s); s.push_back('e'); m.splice(m.n, 0, 1, 'e'); check(s, m, "push_back after resize");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_substr) {
	{
		string s; model m; auto n = few_lengths("n"); fill_any(s, m, n); std::size_t pos, cnt; range_of(n, SX_THOROUGH ? 24 : 11, pos, cnt); model part{m.d + pos, cnt}, rest{m.d + pos, n - pos};
		switch(sx_pick("how", 4)) {
			case 0: { const auto & c = s; auto r = c.substr(pos); check(r, rest, "substr(offset)"); check(s, m, "substr changed its source"); note(r); usable(r); break; }
			case 1: { const auto & c = s; auto r = c.substr(pos, cnt); check(r, part, "substr(offset, count)"); check(s, m, "substr changed its source"); note(r); usable(r); break; }
			case 2: { auto r = std::move(s).substr(pos); check(r, rest, "substr(offset) of an rvalue"); usable(s); check(r, rest, "substr of an rvalue"); usable(r); break; }
			case 3: { auto r = std::move(s).substr(pos, cnt); check(r, part, "substr(offset, count) of an rvalue"); usable(s); check(r, part, "substr of an rvalue"); usable(r); break; }
		}
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_access) {
	{
		string s; model m; auto n = SX_THOROUGH ? few_lengths("n") : one_of("n", {0, 1, 5, 22, 23, 48}); fill(s, m, n, n % 2 ? tight : stale); const string & c = s;
		auto i = sx_u64("index"); char got{0}; bool out = sx_pick("const", 2) ? outcome([&] { got = c.at(i); }) == Thrown::range : outcome([&] { got = s.at(i); }) == Thrown::range;
		sx_assert(out == (i >= n), "at throws out_of_range for exactly the indices not below the size");
		if(!out) { sx_assert(got == m.d[i], "at"); sx_assert(c[i] == m.d[i] && s[i] == m.d[i], "[]"); sx_assert(&c.at(i) == c.data() + i && &s.at(i) == s.data() + i && &c[i] == c.data() + i && &s[i] == s.data() + i, "at and [] designate the character");
			if(sx_pick("write", 2)) { auto x = static_cast<char>(sx_u8("x")); if(sx_pick("by", 2)) s.at(i) = x; else s[i] = x; m.d[i] = x; check(s, m, "write through at"); sx_reach("written"); } }
		if(n) { sx_assert(c.front() == m.d[0] && c.back() == m.d[n - 1] && &s.front() == s.data() && &s.back() == s.data() + n - 1 && &c.back() == c.data() + n - 1, "front and back"); s.front() = 'F'; m.d[0] = 'F'; s.back() = 'B'; m.d[n - 1] = 'B'; check(s, m, "write through front and back"); }
		check(s, m, "access changed the string");
	}
	sx_reach("end");
}
SX_HARNESS(h_iterate) {
	{
		string s; model m; auto n = length("n"); fill_any(s, m, n); const string & c = s; std::size_t i{0}; bool ok{true};
		for(auto x : s) { ok &= i < n && x == m.d[i]; ++i; } ok &= i == n;
		for(auto it = c.begin(); it != c.end(); ++it) { --i; ok &= *it == m.d[n - 1 - i]; } ok &= i == 0;
		for(auto it = s.rbegin(); it != s.rend(); ++it) { ok &= *it == m.d[n - 1 - i]; ++i; } ok &= i == n;
		i = 0; for(auto it = c.rbegin(); it != c.rend(); ++it) { ok &= *it == m.d[n - 1 - i]; ++i; } ok &= i == n;
		i = 0; for(auto it = s.crbegin(); it != s.crend(); ++it) { ok &= *it == m.d[n - 1 - i]; ++i; } ok &= i == n;
		i = 0; for(auto it = s.cbegin(); it != s.cend(); ++it) { ok &= *it == m.d[i]; ++i; } ok &= i == n;
		for(auto & x : s) x = static_cast<char>(x + 1); for(std::size_t k{0}; k < n; ++k) m.d[k] = static_cast<char>(m.d[k] + 1);
		sx_assert(ok, "iteration"); check(s, m, "write through iterators"); std::string_view v = c; sx_assert(v.size() == n && same(v.data(), m.d, n), "conversion to string_view"); sx_assert(c.c_str() == c.data() && s.max_size() >= n, "c_str");
	}
	sx_reach("end");
}
SX_HARNESS(h_large) {
	{
		string s; huge m; auto n = large("n"); fill(s, m, n); const auto & cs = s;
		std::size_t c[][2]{{0, n}, {0, 300}, {n / 2, 256}, {n - 301, 301}, {255, 1}, {n / 2, 0}, {1, n - 2}, {10, n - 32}, {0, n - 22}, {22, n - 22}, {0, n - 255}}; auto i = sx_pick("range", 11); auto pos = c[i][0], cnt = c[i][1];
		switch(sx_pick("how", 9)) {
			case 0: { auto r = s.erase(s.cbegin() + pos, s.cbegin() + (pos + cnt)); m.splice(pos, cnt, "", 0); check(s, m, "erase from a long string"); sx_assert(r - s.begin() == static_cast<std::ptrdiff_t>(pos), "iterator returned by erase"); s.shrink_to_fit(); check(s, m, "shrink_to_fit"); break; }
			case 1: { huge part{m.d + pos, cnt}; auto r = cs.substr(pos, cnt); check(r, part, "substr of a long string"); check(s, m, "substr changed its source"); r = std::move(s).substr(pos, cnt); check(r, part, "substr of a long string"); break; }
			case 2: { huge part{m.d + pos, n - pos}; auto r = cs.substr(pos); check(r, part, "substr of a long string"); r = std::move(s).substr(pos); check(r, part, "substr of a long string"); break; }
			case 3: { s.resize(pos); m.n = pos; check(s, m, "resize"); s.resize(n); m.splice(pos, 0, n - pos, 0); check(s, m, "resize"); break; }
			case 4: { auto k = n + cnt; auto ch = static_cast<char>(sx_u8("ch")); s.resize(k, ch); m.splice(n, 0, cnt, ch); check(s, m, "resize of a long string"); break; }
			case 5: { sx_assume(i == 0); s.reserve(n + 1000); check(s, m, "reserve"); auto p = s.data(); s.append(1000, 'a'); m.splice(n, 0, 1000, 'a'); check(s, m, "append within the capacity"); sx_assert(s.data() == p, "growing within the reserved capacity must not reallocate"); break; }
			case 6: { sx_assume(i == 0); auto x = sx_u64("index"); std::size_t wrap[]{n, n - 1, 65536, 65535, 256, 255, 32768, 0}; auto w = wrap[sx_pick("near", 8)]; sx_assume(x == w || x == w + 256 || x == w + 65536 || x == w + (std::uint64_t{1} << 32) || x > (std::uint64_t{1} << 62)); char got{0}; bool out = outcome([&] { got = cs.at(x); }) == Thrown::range; sx_assert(out == (x >= n), "at throws out_of_range for exactly the indices not below the size"); if(!out) sx_assert(got == m.d[sx_concretize(x)] && s[x] == got && &s.at(x) == s.data() + x, "at"); break; }
			case 7: { sx_assume(i == 0); auto cap = s.capacity(); auto p = s.data(); s.clear(); m.n = 0; check(s, m, "clear"); sx_assert(s.capacity() == cap && s.data() == p, "removal keeps the memory"); s.shrink_to_fit(); check(s, m, "shrink_to_fit"); break; }
			case 8: { sx_assume(i == 0); s.pop_back(); --m.n; check(s, m, "pop_back"); sx_assert(s.end() - s.begin() == static_cast<std::ptrdiff_t>(m.n) && s.cend() - s.cbegin() == static_cast<std::ptrdiff_t>(m.n) && s.rend() - s.rbegin() == static_cast<std::ptrdiff_t>(m.n), "iterator distance"); sx_assert(&s.back() == s.data() + (m.n - 1) && s.back() == m.d[m.n - 1] && &*s.rbegin() == &s.back(), "back"); std::string_view v{s}; sx_assert(v.data() == s.data() && v.size() == m.n, "conversion to string_view"); break; }
		}
		note(s);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
