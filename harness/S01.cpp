// BOUND: lengths in the listed steps around 22/23, 48/49, 72/73 up to 300 (thorough: all 0..75, up to 513); every character symbolic; four ways of reaching a representation (exact, spare capacity, stale characters behind the end, shortened)
// BOUND: long strings: lengths 1000, 4096, 32768, 65535, 65536, 70000 (thorough: 18 from 511 to 70000) with ten symbolic characters at the ends, the middle and where narrower counters wrap
// OUTSIDE: lengths above 70000; allocators other than the global one (L02)
#include "large.hpp"
using namespace sx; using ptl::string;

static std::size_t len(const char * n = "n") { return SX_THOROUGH ? sx::one_of(n, {0, 1, 2, 3, 7, 8, 15, 16, 20, 21, 22, 23, 24, 25, 30, 31, 32, 33, 46, 47, 48, 49, 50, 63, 64, 65, 71, 72, 73, 96, 97, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513}) : sx::one_of(n, {0, 1, 2, 7, 8, 15, 16, 21, 22, 23, 24, 31, 32, 33, 47, 48, 49, 64, 72, 73, 127, 128, 255, 256, 300}); }

SX_HARNESS(h_construct) {
	{
		auto n = len(); sx::arg a{n}; model m{a.d, n};
		sx::input_src<char> src{a.d, a.d + n};
		switch(sx_pick("how", 8)) {
			case 0: { string s{a.view()}; check(s, m, "string_view constructor"); sx::note(s); usable(s); break; }
			case 1: { string s(sx::input_it<char>{&src}, sx::input_it<char>{}); check(s, m, "input range constructor"); sx_assert(src.cur == src.last, "input range not consumed"); usable(s); break; }
			case 2: { string s(sx::fwd_it<char>{a.d}, sx::fwd_it<char>{a.d + n}); check(s, m, "forward range constructor"); usable(s); break; }
			case 3: { string s(sx::bidi_it<char>{a.d}, sx::bidi_it<char>{a.d + n}); check(s, m, "bidirectional range constructor"); break; }
			case 4: { string s(a.d, a.d + n); check(s, m, "pointer range constructor"); sx::note(s); break; }
			case 5: { string s(sx::il(a.d, n)); check(s, m, "initializer_list constructor"); usable(s); break; }
			case 6: { auto c = static_cast<char>(sx_u8("ch")); m.n = 0; m.splice(0, 0, n, c); string s(n, c); check(s, m, "count constructor"); sx::note(s); usable(s); break; }
			case 7: { string s(std::make_reverse_iterator(a.d + n), std::make_reverse_iterator(a.d)); std::reverse(m.d, m.d + n); check(s, m, "reverse range constructor"); break; }
		}
	}
	sx_assert(sx_heap_live() == 0, "leak");
	{ string s; model m; check(s, m, "default constructor"); usable(s); }
	sx_reach("end");
}

SX_HARNESS(h_literals) {
	using namespace ptl::literals;
	{ model m{"ab\0cd", 5}; auto s = "ab\0cd"_s; check(s, m, "literal with embedded NUL"); }
	{ model m{"", 0}; auto s = ""_s; check(s, m, "empty literal"); }
	{ model m{"\0", 1}; auto s = "\0"_s; check(s, m, "NUL literal"); }
	{ model m{"0123456789012345678901", 22}; auto s = "0123456789012345678901"_s; check(s, m, "22 character literal"); usable(s); }
	{ model m{"01234567890123456789012", 23}; auto s = "01234567890123456789012"_s; check(s, m, "23 character literal"); usable(s); }
	{ model m{"0123456789\0abcdefghijklmnopqrstuvwxyz\0", 38}; auto s = "0123456789\0abcdefghijklmnopqrstuvwxyz\0"_s; check(s, m, "long literal with NULs"); }
	sx_reach("end");
}

SX_HARNESS(h_c_string) { // content up to the first NUL
	char b[8]; sx_bytes(b, 7, "b"); b[7] = 0; std::size_t n{0}; while(b[n]) ++n;
	model m{b, n}; string s{b}; check(s, m, "C string constructor"); s = b; check(s, m, "C string assignment"); string t; t += b; check(t, m, "C string append");
	sx_reach("end");
}

SX_HARNESS(h_copy) {
	{
		string s; model m; auto n = len(); fill_any(s, m, n);
		string t{s}; check(t, m, "copy construction"); check(s, m, "source of a copy construction"); sx::note(t);
		auto x = static_cast<char>(sx_u8("x")); model mt{m}; // independent in both directions
		if(n) { auto k = sx::position("k", n - 1); s[k] = x; m.d[k] = x; check(t, mt, "copy changes with its source"); check(s, m, "write"); }
		t.push_back('z'); mt.splice(mt.n, 0, 1, 'z'); check(s, m, "source changes with its copy"); check(t, mt, "push_back to a copy");
		s.assign(40, 'y'); m.n = 0; m.splice(0, 0, 40, 'y'); check(t, mt, "copy changes with its source"); check(s, m, "assign");
		usable(s); check(t, mt, "copy changes with its source"); usable(t);
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
SX_HARNESS(h_move) {
	{
		string s; model m; auto n = len(); fill_any(s, m, n);
		string t{std::move(s)}; check(t, m, "move construction"); sx::note(t); usable(s); check(t, m, "target changes with its source");
		string u{std::move(t)}; { string d{std::move(t)}; sx_assert(d.size() <= d.capacity() && d.c_str()[d.size()] == 0, "moved-from string moved"); } check(u, m, "move construction");
		usable(t); usable(u);
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
static std::size_t short_len(const char * n) { return SX_THOROUGH ? sx::one_of(n, {0, 1, 2, 10, 21, 22, 23, 24, 40, 47, 48, 49, 60, 72, 73, 130, 256}) : sx::one_of(n, {0, 1, 10, 21, 22, 23, 24, 48, 49, 73, 260}); }
SX_HARNESS(h_assign) {
	{
		string s, t; model ms, mt; fill_any(s, ms, short_len("n"), "c"); fill_any(t, mt, short_len("k"), "d");
		switch(sx_pick("how", 7)) {
			case 0: { auto & r = (s = t); sx_assert(&r == &s, "result"); check(s, mt, "copy assignment"); check(t, mt, "source of a copy assignment"); usable(t); check(s, mt, "copy changes with its source"); break; }
			case 1: { auto & r = (s = std::move(t)); sx_assert(&r == &s, "result"); check(s, mt, "move assignment"); usable(t); check(s, mt, "target changes with its source"); break; }
			case 2: { auto & r = (s = std::string_view{mt.d, mt.n}); sx_assert(&r == &s, "result"); check(s, mt, "string_view assignment"); check(t, mt, "unrelated"); break; }
			case 3: { auto & r = (s = sx::il(mt.d, mt.n)); sx_assert(&r == &s, "result"); check(s, mt, "initializer_list assignment"); break; }
			case 4: s.swap(t); check(s, mt, "swap"); check(t, ms, "swap"); usable(t); check(s, mt, "independent after swap"); break;
			case 5: swap(s, t); check(s, mt, "free swap"); check(t, ms, "free swap"); usable(s); check(t, ms, "independent after swap"); break;
			case 6: std::swap(t, s); check(s, mt, "swap by moves"); check(t, ms, "swap by moves"); break;
		}
		sx::note(s); usable(s);
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
SX_HARNESS(h_self) {
	{
		string s; model m; fill_any(s, m, len()); auto & r = s;
		switch(sx_pick("how", 5)) {
			case 0: s = r; check(s, m, "self-assignment"); break;
			case 1: s = std::move(r); check(s, m, "self-move"); break;
			case 2: s.swap(r); check(s, m, "self-swap"); break;
			case 3: swap(s, r); check(s, m, "self-swap"); break;
			case 4: s = std::string_view{s}; check(s, m, "assignment of the own content"); break;
		}
		s.push_back('!'); m.splice(m.n, 0, 1, '!'); check(s, m, "after self-operation"); usable(s);
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
SX_HARNESS(h_large) {
	{
		huge m; auto n = large("n"); m.make(n, "c", 1); string s;
		switch(sx_pick("how", 9)) {
			case 0: s = string{m.view()}; break; case 1: { string t(fwd_it<char>{m.d}, fwd_it<char>{m.d + n}); s = std::move(t); sx_assert(t.empty(), "moved-from string"); break; } case 2: { auto c = static_cast<char>(sx_u8("ch")); std::memset(m.d, c, n); s = string(n, c); break; }
			case 3: { input_src<char> src{m.d, m.d + n}; sx_assume(SX_THOROUGH || n < 5000); s = string(input_it<char>{&src}, input_it<char>{}); sx_reach("large input range"); break; }
			case 4: { string t{m.view()}; string u{t}; s = u; check(t, m, "copied long string"); check(u, m, "copied long string"); u.clear(); break; }
			case 5: { string t{m.view()}; auto p = t.data(); string u{std::move(t)}; s = std::move(u); sx_assert(s.data() == p, "moving a long string keeps its characters in place"); break; }
			case 6: { string t{m.view()}; char b[5]; sx_bytes(b, 5, "b"); s = std::string_view{b, 5}; model ms{b, 5}; if(sx_pick("free", 2)) swap(s, t); else t.swap(s); check(t, ms, "swap with a long string"); break; }
			case 7: { string t{m.view()}; s.assign(300, 'x'); s.swap(t); huge e; e.splice(0, 0, 300, 'x'); check(t, e, "swap with a long string"); t = s; check(t, m, "assigned long string"); break; }
			case 8: s = il(m.d, n); break;
		}
		check(s, m, "long string"); note(s); auto & r = s; s = r; check(s, m, "self-assignment"); s.push_back('!'); m.splice(n, 0, 1, '!'); check(s, m, "push_back to a long string");
	}
	sx_assert(sx_heap_live() == 0, "leak");
	sx_reach("end");
}
