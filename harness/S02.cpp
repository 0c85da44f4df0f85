// BOUND: old lengths in steps around 22/23, 48/49, 72/73 up to 256 (thorough: all 0..75); four pre-states (exact, spare capacity, stale characters, shortened); 0..capacity+1 added characters around exactly filling the capacity; every character symbolic; every position for short strings, ends/middle/22 for longer ones
// BOUND: long strings: lengths 1000, 4096, 32768, 65535, 65536, 70000 (thorough: 18 from 511 to 70000) with ten symbolic characters at the ends, the middle and where narrower counters wrap; grown one by one to 4200 (thorough: 66000) characters
// OUTSIDE: lengths above 140000
#include "large.hpp"
using namespace sx; using ptl::string;

SX_HARNESS(h_append) {
	{
		string s; model m; fill_any(s, m, length("n")); auto k = extra("k", s.size(), s.capacity());
		arg a{k}; input_src<char> src{a.d, a.d + k}; auto how = sx_pick("how", 12);
		switch(how) {
			case 0: s.append(a.view()); break;
			case 1: s.append(input_it<char>{&src}, input_it<char>{}); break;
			case 2: s.append(fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); break;
			case 3: s.append(bidi_it<char>{a.d}, bidi_it<char>{a.d + k}); break;
			case 4: s.append(a.d, a.d + k); break;
			case 5: s.append(il(a.d, k)); break;
			case 6: { auto c = static_cast<char>(sx_u8("ch")); std::memset(a.d, c, k); s.append(k, c); break; }
			case 7: { auto & r = (s += a.view()); sx_assert(&r == &s, "result of +="); break; }
			case 8: { auto & r = (s += il(a.d, k)); sx_assert(&r == &s, "result of +="); break; }
			case 9: { const string o{a.view()}; auto & r = (s += o); sx_assert(&r == &s, "result of +="); model mo{a.d, k}; check(o, mo, "appended string changed"); break; }
			case 10: for(std::size_t i{0}; i < k; ++i) { auto & r = (s += a.d[i]); sx_assert(&r == &s, "result of +="); } break;
			case 11: for(std::size_t i{0}; i < k; ++i) { auto & r = s.push_back(a.d[i]); sx_assert(&r == s.data() + s.size() - 1 && r == a.d[i], "push_back must return the last character"); } break;
		}
		m.splice(m.n, 0, a.d, k); check(s, m, "append"); note(s);
		s.append(1, '.'); m.splice(m.n, 0, 1, '.'); check(s, m, "append after append");
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
SX_HARNESS(h_insert) {
	{
		string s; model m; auto n = few_lengths("n"); fill_any(s, m, n); auto k = extra("k", n, s.capacity()); auto pos = position("pos", n, SX_THOROUGH ? 25 : 12);
		arg a{k}; input_src<char> src{a.d, a.d + k}; auto how = sx_pick("how", 8); string::const_iterator p = s.cbegin() + pos; string::iterator r;
		switch(how) {
			case 0: r = s.insert(p, a.view()); break;
			case 1: r = s.insert(p, input_it<char>{&src}, input_it<char>{}); break;
			case 2: r = s.insert(p, fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); break;
			case 3: r = s.insert(p, bidi_it<char>{a.d}, bidi_it<char>{a.d + k}); break;
			case 4: r = s.insert(s.begin() + pos, a.d, a.d + k); break;
			case 5: r = s.insert(p, il(a.d, k)); break;
			case 6: { auto c = static_cast<char>(sx_u8("ch")); std::memset(a.d, c, k); r = s.insert(p, k, c); break; }
			case 7: { sx_assume(k == 1); r = s.insert(p, a.d[0]); sx_reach("single"); break; }
		}
		m.splice(pos, 0, a.d, k); check(s, m, "insert"); note(s);
		sx_assert(r - s.begin() == static_cast<std::ptrdiff_t>(pos) && &*r == s.data() + pos, "iterator returned by insert");
		if(k) sx_assert(*r == a.d[0], "iterator returned by insert designates the first inserted character");
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
SX_HARNESS(h_concat) {
	{
		string s; model m; auto n = few_lengths("n"); fill_any(s, m, n); auto k = one_of("k", {0, 1, 2, 21, 22, 23, 24, 48, 49, 73}); arg a{k}; model before{m};
		switch(sx_pick("how", 6)) {
			case 0: { auto r = s + a.view(); m.splice(n, 0, a.d, k); check(r, m, "string + view"); note(r); usable(r); break; }
			case 1: { auto r = a.view() + s; m.splice(0, 0, a.d, k); check(r, m, "view + string"); usable(r); break; }
			case 2: { string o{a.view()}; auto r = s + o; m.splice(n, 0, a.d, k); check(r, m, "string + string"); check(o, model{a.d, k}, "operand changed"); break; }
			case 3: { sx_assume(k == 1); auto r = s + a.d[0]; m.splice(n, 0, a.d, 1); check(r, m, "string + char"); sx_reach("string + char"); break; }
			case 4: { sx_assume(k == 1); auto r = a.d[0] + s; m.splice(0, 0, a.d, 1); check(r, m, "char + string"); sx_reach("char + string"); break; }
			case 5: { sx_assume(k == 0); auto r = s + s; m.splice(n, 0, before.d, n); check(r, m, "string + itself"); sx_reach("string + itself"); break; }
		}
		check(s, before, "operand changed");
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
// character by character up to several reallocations
SX_HARNESS(h_grow) {
	{
		string s; model m; auto how = sx_pick("how", 4); char buf[330]; std::size_t N{SX_THOROUGH ? 320u : 160u}; sx_bytes(buf, N, "c");
		for(std::size_t i{0}; i < N; ++i) {
			std::size_t pos = how == 2 ? 0 : how == 3 ? i / 2 : i;
			if(how == 0) s.push_back(buf[i]); else if(how == 1) s += buf[i]; else { auto r = s.insert(s.begin() + pos, buf[i]); sx_assert(r == s.begin() + pos, "iterator returned by insert"); }
			m.splice(pos, 0, buf + i, 1); check(s, m, "growing by one");
		}
		note(s);
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
// two growth operations in a row, second position depending on symbolic choice
SX_HARNESS(h_twice) {
	{
		string s; model m; auto n = one_of("n", {0, 3, 20, 22, 23, 47}); fill_any(s, m, n);
		for(int i{0}; i < 2; ++i) {
			auto k = one_of("k", {1, 2, 19, 24}); arg a{k}; std::size_t where = sx_pick("where", 3); auto pos = where == 0 ? 0 : where == 1 ? m.n / 2 : m.n;
			switch(sx_pick("how", 4)) {
				case 0: s.insert(s.begin() + pos, a.view()); break;
				case 1: s.insert(s.begin() + pos, il(a.d, k)); break;
				case 2: std::memset(a.d, 'x', k); s.insert(s.begin() + pos, k, 'x'); break;
				case 3: s.append(a.view()); pos = m.n; break;
			}
			m.splice(pos, 0, a.d, k); check(s, m, "second growth");
		}
		note(s);
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
SX_HARNESS(h_large) {
	{
		string s; huge m, a; auto n = large("n"); fill(s, m, n); auto k = other("k", n); a.make(k, "a", 99); std::size_t at[]{0, n / 2, n, 255}; auto pos = at[sx_pick("pos", 4)]; auto p = s.cbegin() + pos; string::iterator r = s.begin() + pos; auto how = sx_pick("how", 10); if(how <= 3 || how == 8) { sx_assume(pos == n); }
		switch(how) {
			case 0: s.append(a.view()); break; case 1: s += a.view(); break; case 2: s.append(k, 'k'); std::memset(a.d, 'k', k); break; case 3: s.append(il(a.d, k)); break;
			case 4: r = s.insert(p, a.view()); break; case 5: r = s.insert(p, k, 'k'); std::memset(a.d, 'k', k); break; case 6: r = s.insert(p, il(a.d, k)); break; case 7: sx_assume(k < 2000); r = s.insert(p, fwd_it<char>{a.d}, fwd_it<char>{a.d + k}); break;
			case 8: s = s + a.view(); break; case 9: sx_assume(k < 400); { input_src<char> src{a.d, a.d + k}; r = s.insert(p, input_it<char>{&src}, input_it<char>{}); } break;
		}
		m.splice(pos, 0, a.d, k); check(s, m, "growth of a long string"); note(s); if(how > 3 && how != 8) sx_assert(r - s.begin() == static_cast<std::ptrdiff_t>(pos), "iterator returned by insert");
		auto & x = s.push_back('e'); sx_assert(&x == s.data() + n + k, "push_back must return the last character"); m.splice(m.n, 0, 1, 'e'); check(s, m, "push_back to a long string"); auto c = 'c' + s; m.splice(0, 0, 1, 'c'); check(c, m, "char + long string");
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
// character by character beyond every place where a narrower counter wraps
SX_HARNESS(h_grow_large) {
	{
		string s; huge m; auto how = sx_pick("how", 2); std::size_t N = SX_THOROUGH ? 66000 : 4200; m.make(N, "c", 5);
		for(std::size_t i{0}; i < N; ++i) { if(how) s.push_back(m.d[i]); else s += m.d[i]; sx_assert(s.size() == i + 1 && s.capacity() >= i + 1 && s.back() == m.d[i] && s.data()[i + 1] == 0, "growing by one"); }
		check(s, m, "grown by one"); s.shrink_to_fit(); check(s, m, "shrink_to_fit of a long string"); for(std::size_t i{0}; i < 20; ++i) { s.pop_back(); --m.n; check(s, m, "pop_back of a long string"); }
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
