// BOUND: lengths 1..8 with every sub-range (symbolic start and length), every position and every replaced range; lengths around 22/23, 48/49 and up to 200 with ends, middles and small ranges; four pre-states, in particular spare capacity and exactly full; every character symbolic
// BOUND: long strings: lengths 1000, 4096, 32768, 65535, 65536, 70000 (thorough: 18 from 511 to 70000) with ten symbolic characters at the ends, the middle and where narrower counters wrap
// OUTSIDE: lengths above 140000; views that include the terminating NUL
#include "large.hpp"
using namespace sx; using ptl::string;

static void sub(const char * a, const char * b, std::size_t n, std::size_t few, std::size_t & pos, std::size_t & len) {
	if(n <= few) { pos = sx_concretize(sx_range(a, 0, n)); len = sx_concretize(sx_range(b, 0, n - pos)); return; }
	std::size_t p[]{0, 1, n / 2, n}; pos = p[sx_pick(a, 4)]; std::size_t l[]{0, 1, (n - pos) / 2, n - pos}; auto i = sx_pick(b, 4); sx_assume(l[i] <= n - pos); for(std::size_t j{0}; j < i; ++j) if(l[j] == l[i]) sx_assume(false); len = l[i];
}
static void run(std::size_t n, std::size_t few) {
	string s; model m; fill_any(s, m, n); std::size_t off, k; sub("off", "len", n, few, off, k); model part{m.d + off, k};
	auto b = s.begin() + off; auto e = b + k; std::string_view v{s.data() + off, k}; const string & c = s;
	switch(sx_pick("op", 4)) {
		case 0: { // at the end
			switch(sx_pick("how", 6)) {
				case 0: s.append(v); break; case 1: s += v; break; case 2: s.append(b, e); break; case 3: s.append(c.begin() + off, c.begin() + (off + k)); break;
				case 4: sx_assume(off == 0 && k == n); s += c; break;
				case 5: s.append(std::make_reverse_iterator(e), std::make_reverse_iterator(b)); std::reverse(part.d, part.d + k); break;
			}
			m.splice(n, 0, part.d, k); check(s, m, "append of a part of the string itself"); break;
		}
		case 1: { // instead of everything
			switch(sx_pick("how", 6)) {
				case 0: s.assign(v); break; case 1: s = v; break; case 2: s.assign(b, e); break; case 3: s.assign(v.data(), v.data() + k); break;
				case 4: sx_assume(off + k == n); s.assign(c.begin() + off, c.end()); break;
				case 5: s.assign(std::make_reverse_iterator(e), std::make_reverse_iterator(b)); std::reverse(part.d, part.d + k); break;
			}
			check(s, part, "assignment of a part of the string itself"); m = part; break;
		}
		case 2: {
			std::size_t pos = position("pos", n, few); auto p = s.cbegin() + pos; string::iterator r;
			switch(sx_pick("how", 4)) { case 0: r = s.insert(p, v); break; case 1: r = s.insert(p, b, e); break; case 2: r = s.insert(p, v.data(), v.data() + k); break; case 3: r = s.insert(p, std::make_reverse_iterator(e), std::make_reverse_iterator(b)); std::reverse(part.d, part.d + k); break; }
			m.splice(pos, 0, part.d, k); check(s, m, "insertion of a part of the string itself"); sx_assert(r - s.begin() == static_cast<std::ptrdiff_t>(pos), "iterator returned by insert"); break;
		}
		case 3: {
			std::size_t pos, del; sub("pos", "del", n, few, pos, del); auto f = s.cbegin() + pos, l = f + del; string * r{nullptr};
			switch(sx_pick("how", 3)) { case 0: r = &s.replace(f, l, v); break; case 1: r = &s.replace(f, l, b, e); break; case 2: r = &s.replace(f, l, v.data(), v.data() + k); break; }
			m.splice(pos, del, part.d, k); check(s, m, "replacement by a part of the string itself"); sx_assert(r == &s, "result"); break;
		}
	}
	note(s); s.push_back('~'); m.splice(m.n, 0, 1, '~'); check(s, m, "use afterwards");
}
SX_HARNESS(h_short) { run(one_of("n", {1, 2, 3, 5}), 5); sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end"); }
SX_HARNESS(h_boundary) { run(SX_THOROUGH ? one_of("n", {7, 8, 10, 11, 12, 15, 16, 17, 18, 20, 21, 22, 23, 24, 25, 31, 32, 33, 45, 46, 47, 48, 49, 50, 71, 72, 73, 96, 127, 128, 200, 250}) : one_of("n", {8, 11, 12, 16, 21, 22, 23, 24, 25, 47, 48, 49, 72, 73, 200}), SX_THOROUGH ? 0 : 0); sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end"); }
SX_HARNESS(h_concat_self) {
	{ string s; model m; auto n = few_lengths("n"); fill_any(s, m, n); std::size_t off, k; sub("off", "len", n, 5, off, k); model part{m.d + off, k};
		s = s + std::string_view{s.data() + off, k}; m.splice(n, 0, part.d, k); check(s, m, "s = s + part of s"); }
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_char_of_self) { // single characters and counts referring to the string's own characters
	{
		string s; model m; auto n = one_of("n", {1, 3, 21, 22, 23, 48, 49, 72}); fill_any(s, m, n); auto i = sx_pick("i", 2) ? n - 1 : 0; auto pos = position("pos", n, 0); char x = m.d[i];
		switch(sx_pick("how", 8)) {
			case 0: s.push_back(s[i]); m.splice(n, 0, 1, x); break; case 1: s += s[i]; m.splice(n, 0, 1, x); break;
			case 2: s.insert(s.begin() + pos, s[i]); m.splice(pos, 0, 1, x); break; case 3: s.insert(s.begin() + pos, 3, s[i]); m.splice(pos, 0, 3, x); break;
			case 4: s.append(26, s[i]); m.splice(n, 0, 26, x); break; case 5: s.assign(30, s[i]); m.n = 0; m.splice(0, 0, 30, x); break;
			case 6: s.resize(n + 5, s[i]); m.splice(n, 0, 5, x); break; case 7: s.replace(s.begin(), s.begin() + 1, 5, s[i]); m.splice(0, 1, 5, x); break;
		}
		check(s, m, "a character of the string itself"); note(s);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_large) {
	{
		string s; huge m; auto n = large("n"); fill(s, m, n); std::size_t c[][2]{{0, n}, {0, 300}, {n / 2, 256}, {n - 301, 301}, {255, 1}, {1, n - 2}}; auto i = sx_pick("part", 6); auto off = c[i][0], k = c[i][1]; huge part{m.d + off, k}; std::string_view v{s.data() + off, k};
		switch(sx_pick("op", 6)) {
			case 0: s.append(v); m.splice(n, 0, part.d, k); break; case 1: s.assign(v); m = part; break; case 2: s.insert(s.begin() + 256, v); m.splice(256, 0, part.d, k); break; case 3: s.replace(s.begin() + 200, s.end() - 200, v); m.splice(200, n - 400, part.d, k); break;
			case 4: sx_assume(i == 0); s += s; m.splice(n, 0, part.d, k); break; case 5: s.replace(s.begin(), s.begin() + 10, v); m.splice(0, 10, part.d, k); break;
		}
		check(s, m, "a part of the long string itself"); note(s);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
