// BOUND: every sequence of 3 operations (thorough: 4) out of 40 on two strings, from start lengths 0, 5, 22, 23, 47 (second string 3 or 30); arguments of 0, 1, 20 or 26 symbolic characters; every step checked against the model
// BOUND: every sequence of 6 operations (thorough: 7) out of 7 that change the representation on two strings; every sequence of 3 operations (thorough: 4) out of 8, of pairs of three strings
// OUTSIDE: longer sequences; more strings
#include "str.hpp"
using namespace sx; using ptl::string;

static void step(string & a, model & ma, string & b, model & mb) {
	auto op = sx_pick("op", 40);
	auto chars = [](std::size_t n) { return arg{n}; };
	switch(op) {
		case 0: { auto x = chars(1); a.push_back(x.d[0]); ma.splice(ma.n, 0, x.d, 1); break; }
		case 1: { auto x = chars(20); a.append(x.view()); ma.splice(ma.n, 0, x.d, 20); break; }
		case 2: { auto x = chars(26); a += x.view(); ma.splice(ma.n, 0, x.d, 26); break; }
		case 3: { a.append(il("", 0)); break; }
		case 4: { auto x = chars(3); auto p = ma.n / 2; a.insert(a.begin() + p, x.view()); ma.splice(p, 0, x.d, 3); break; }
		case 5: { a.insert(a.begin(), 19, 'z'); ma.splice(0, 0, 19, 'z'); break; }
		case 6: { auto x = chars(2); auto p = ma.n; a.insert(a.end(), il(x.d, 2)); ma.splice(p, 0, x.d, 2); break; }
		case 7: { if(!ma.n) break; a.pop_back(); --ma.n; break; }
		case 8: a.clear(); ma.n = 0; break;
		case 9: { auto f = ma.n / 3, l = ma.n - f; a.erase(a.begin() + f, a.begin() + l); ma.splice(f, l - f, "", 0); break; }
		case 10: { a.erase(a.begin(), a.begin() + ma.n / 2); ma.splice(0, ma.n / 2, "", 0); break; }
		case 11: a.shrink_to_fit(); break;
		case 12: a.reserve(ma.n + 9); break;
		case 13: a.reserve(22); break;
		case 14: { auto k = ma.n + 4; a.resize(k, 'r'); ma.splice(ma.n, 0, 4, 'r'); break; }
		case 15: { a.resize(ma.n / 2); ma.n /= 2; break; }
		case 16: { a.resize(22); if(ma.n < 22) ma.splice(ma.n, 0, 22 - ma.n, 0); ma.n = 22; break; }
		case 17: { auto x = chars(20); a.assign(x.view()); ma.set(x.d, 20); break; }
		case 18: { auto x = chars(26); a = x.view(); ma.set(x.d, 26); break; }
		case 19: { auto x = chars(1); a = il(x.d, 1); ma.set(x.d, 1); break; }
		case 20: { a.assign(24, 'y'); ma.n = 0; ma.splice(0, 0, 24, 'y'); break; }
		case 21: { auto x = chars(1); auto f = ma.n / 4, d = ma.n / 2; a.replace(a.begin() + f, a.begin() + f + d, x.view()); ma.splice(f, d, x.d, 1); break; }
		case 22: { auto x = chars(20); auto f = ma.n / 2; a.replace(a.begin() + f, a.end(), x.d, x.d + 20); ma.splice(f, ma.n - f, x.d, 20); break; }
		case 23: { auto d = ma.n / 2; a.replace(a.begin(), a.begin() + d, 5, 'p'); ma.splice(0, d, 5, 'p'); break; }
		case 24: a = b; ma = mb; break;
		case 25: { a = std::move(b); ma = mb; mb.n = b.size(); mb.set(b.data(), b.size()); sx_assert(b.size() == 0 || b.size() == ma.n, "moved-from string"); break; }
		case 26: a.swap(b); { model t{ma}; ma = mb; mb = t; } break;
		case 27: { string c{a}; check(c, ma, "copy"); c.append(2, 'c'); b = std::move(c); mb = ma; mb.splice(mb.n, 0, 2, 'c'); break; }
		case 28: { string c{std::move(a)}; check(c, ma, "move"); a = std::move(c); break; }
		case 29: a = *&a; break;
		case 30: { auto & r = a; a = std::move(r); ma.n = a.size(); ma.set(a.data(), a.size()); break; }
		case 31: swap(a, a); break;
		case 32: { a += b; ma.splice(ma.n, 0, mb.d, mb.n); break; }
		case 33: { model t{ma}; a += a; ma.splice(ma.n, 0, t.d, t.n); break; }
		case 34: { auto p = ma.n / 2; a.insert(a.begin() + p, std::string_view{b}); ma.splice(p, 0, mb.d, mb.n); break; }
		case 35: { a = a + b; ma.splice(ma.n, 0, mb.d, mb.n); break; }
		case 36: { auto p = ma.n / 3; a = std::move(a).substr(p); ma.splice(0, p, "", 0); break; }
		case 37: { auto p = mb.n / 3, k = mb.n / 2; a = b.substr(p, k); ma.set(mb.d + p, k); break; }
		case 38: { a = string{}; ma.n = 0; break; }
		case 39: { if(!ma.n) break; auto x = chars(1); a[ma.n / 2] = x.d[0]; ma.d[ma.n / 2] = x.d[0]; a.back() = 'b'; ma.d[ma.n - 1] = 'b'; break; }
	}
	check(a, ma, "first string after the operation"); check(b, mb, "second string after the operation");
}
SX_HARNESS(h_sequences) {
	{
		string a, b; model ma, mb; auto n = SX_THOROUGH ? one_of("n", {0, 5, 22, 23, 47}) : one_of("n", {0, 5, 22, 23, 47}); fill(a, ma, n, n == 5 ? spare : n == 23 ? stale : tight); auto k = n == 22 ? 3 : 30; fill(b, mb, k, tight, "d");
		for(int i{0}; i < (SX_THOROUGH ? 4 : 3); ++i) step(a, ma, b, mb);
		note(a); note(b);
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
// longer: only what changes between inline, exact and spare memory
SX_HARNESS(h_longer) {
	{
		string s[2]; model m[2]; auto n = SX_REDUCED ? 5 : one_of("n", {5, 23}); fill(s[0], m[0], n, tight);
		for(unsigned i{0}; i < (SX_THOROUGH ? 7 : SX_REDUCED ? 4 : 6); ++i) {
			auto & a = s[i & 1]; auto & x = m[i & 1]; auto & b = s[1 - (i & 1)]; auto & y = m[1 - (i & 1)]; auto c = static_cast<char>('a' + i);
			switch(sx_pick("op", 7)) { case 0: a.append(9, c); x.splice(x.n, 0, 9, c); break; case 1: { auto k = x.n / 2; a.resize(k); x.n = k; a.shrink_to_fit(); break; } case 2: a = b; x = y; break; case 3: { a = std::move(b); x = y; b = std::string_view{"moved"}; y.set("moved", 5); break; } case 4: a.swap(b); { model t{x}; x = y; y = t; } break; case 5: { auto p = x.n / 2; a.insert(a.begin() + p, std::string_view{b}); x.splice(p, 0, y.d, y.n); if(x.n > 90) { a.erase(a.begin() + 30, a.end()); x.n = 30; } break; } case 6: a.clear(); x.n = 0; break; }
			check(a, x, "longer sequence"); check(b, y, "longer sequence, other string");
		}
		note(s[0]); note(s[1]);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_three) {
	{
		string s[3]; model m[3]; fill(s[0], m[0], 4, tight, "c"); fill(s[1], m[1], 22, tight, "d"); fill(s[2], m[2], 31, spare, "e");
		for(unsigned i{0}; i < (SX_THOROUGH ? 4 : 3); ++i) {
			auto p = sx_pick("first", 3), q = (p + 1 + sx_pick("second", 2)) % 3; auto & a = s[p]; auto & b = s[q]; auto & x = m[p]; auto & y = m[q];
			switch(sx_pick("op", 8)) { case 0: a = b; x = y; break; case 1: a = std::move(b); x = y; b.assign(3, 'm'); y.n = 0; y.splice(0, 0, 3, 'm'); break; case 2: a.swap(b); { model t{x}; x = y; y = t; } break; case 3: a += b; x.splice(x.n, 0, y.d, y.n); break; case 4: { a = std::move(a) + b; x.splice(x.n, 0, y.d, y.n); break; } case 5: { a.resize(x.n / 2); x.n /= 2; break; } case 6: { string t{std::move(a)}; check(t, x, "move"); a = b; x = y; a.push_back('t'); x.splice(x.n, 0, 1, 't'); break; } case 7: { a.shrink_to_fit(); b.reserve(y.n + 1); break; } }
			for(int k{0}; k < 3; ++k) check(s[k], m[k], "three strings");
		}
		for(auto & t : s) note(t);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
