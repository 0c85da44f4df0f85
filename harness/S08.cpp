// BOUND: every pair of lengths 0..5, 22, 23, 24, 48 with every character symbolic (for long strings the common prefix is arbitrary and up to 6 characters at the start, in the middle and at the end differ arbitrarily); four pre-states on either side; C strings of up to 5 arbitrary characters; streaming of up to 1000 characters
// BOUND: long strings: lengths 300, 1000, 65536, 65600 (thorough: 18 from 511 to 70000) against one of related length that differs in up to two arbitrary characters at the ends, the middle or where narrower counters wrap
// STUB: streams: a minimal in-memory model of std::ostream (the real one natively)
// ASSUME: std::hash<std::string_view> is a function of the characters (its library implementation is not encoded)
// OUTSIDE: long strings that differ in more than two characters; stream formatting state (width, fill)
#include "streams.hpp"
#include "large.hpp"
#include "ptl/string_ref.hpp"
using namespace sx; using ptl::string; using ptl::string_ref;

static int order(const char * a, std::size_t n, const char * b, std::size_t m) { // -1, 0, 1 by unsigned characters, shorter prefix first
	int r{n < m ? -1 : n > m ? 1 : 0};
	for(auto i = n < m ? n : m; i != 0; --i) { auto x = static_cast<unsigned char>(a[i - 1]), y = static_cast<unsigned char>(b[i - 1]); r = x == y ? r : x < y ? -1 : 1; }
	return r;
}
template<typename A, typename B> static void compare(const A & a, const B & b, int o, const char * what) {
	sx_assert((a == b) == (o == 0), what); sx_assert((a != b) == (o != 0), what); sx_assert((a < b) == (o < 0), what); sx_assert((a <= b) == (o <= 0), what); sx_assert((a > b) == (o > 0), what); sx_assert((a >= b) == (o >= 0), what);
}
static void hashes(const string & a, const string & b, std::string_view va, int o) {
	auto h = std::hash<string>{}(a); sx_assert(h == std::hash<std::string_view>{}(va), "hash of a string is the hash of its characters"); sx_assert(std::hash<string_ref>{}(string_ref{va}) == h, "hash of a string_ref");
	if(o == 0) sx_assert(h == std::hash<string>{}(b), "equal strings have equal hashes");
}
static void all(const string & a, const model & ma, const string & b, const model & mb) {
	auto o = order(ma.d, ma.n, mb.d, mb.n); std::string_view va{ma.d, ma.n}, vb{mb.d, mb.n};
	switch(sx_pick("pair", 6)) {
		case 0: compare(a, b, o, "string and string"); break;
		case 1: compare(a, vb, o, "string and view"); break;
		case 2: compare(va, b, o, "view and string"); break;
		case 3: compare(string_ref{va}, string_ref{vb}, o, "string_ref and string_ref"); sx_assert(std::string_view{string_ref{va}} == va, "conversion of string_ref"); break;
		case 4: compare(a, string_ref{vb}, o, "string and string_ref"); compare(string_ref{va}, b, o, "string_ref and string"); break;
		case 5: hashes(a, b, va, o); compare(a, a, 0, "string with itself"); break;
	}
	check(a, ma, "compared string changed"); check(b, mb, "compared string changed"); sx_note("order", static_cast<std::uint64_t>(o + 1));
}
SX_HARNESS(h_short) {
	{
		auto N = SX_THOROUGH ? 9u : 6u; string a, b; model ma, mb; auto n = sx_pick("n", N); auto k = sx_pick("k", N); auto mode = sx_pick("modes", 3); std::size_t x[]{tight, stale, spare}, y[]{stale, tight, spare}; fill(a, ma, n, x[mode]); fill(b, mb, k, y[mode], "d");
		all(a, ma, b, mb);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
// long strings that agree except around one place
SX_HARNESS(h_long) {
	{
		auto n = one_of("n", {7, 22, 23, 24, 48}); auto k = one_of("k", {1, 21, 22, 23, 24, 48, 49}); auto w = SX_THOROUGH ? 6u : 3u; std::size_t l = n < k ? n : k; sx_assume(l > w); std::size_t at[]{0, l / 2 - 1, l - w}; auto p = at[sx_pick("at", 3)];
		char c[64]; sx_bytes(c, 64, "c"); string a{std::string_view{c, n}}; model ma{c, n}; if(sx_pick("heap", 2)) a.reserve(70); sx_bytes(c + p, w, "e"); string b{std::string_view{c, k}}; model mb{c, k};
		all(a, ma, b, mb);
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_cstring) {
	{
		auto n = sx_pick("n", 6), k = sx_pick("k", 5); string a; model ma; fill(a, ma, n, n % 2 ? stale : tight); char c[6]; sx_bytes(c, k, "d"); c[k] = 0; std::size_t l{0}; while(c[l]) ++l; auto o = order(ma.d, n, c, l); const char * p = c;
		if(sx_pick("side", 2)) compare(a, p, o, "string and C string"); else compare(p, a, -o, "C string and string");
		string_ref r{p}; sx_assert(r.size() == l && r.data() == p, "string_ref of a C string"); compare(r, string_ref{ma.d, ma.n}, -o, "string_ref of a C string");
		check(a, ma, "compared string changed");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_stream) {
	{
		auto n = one_of("n", {0, 1, 2, 5, 21, 22, 23, 24, 48, 100}); string a; model ma; fill_any(a, ma, n); text_out t; auto kind = sx_pick("kind", 2);
		auto & r = kind ? t.os << a : t.os << string_ref{ma.d, n}; sx_assert(&r == &t.os, "result of <<"); sx_assert(t.size() == n && same(t.data(), ma.d, n) && t.os.good(), "streamed characters");
		t.os << a << string_ref{ma.d, n}; sx_assert(t.size() == 3 * n && same(t.data() + 2 * n, ma.d, n), "streamed characters"); check(a, ma, "streaming changed the string");
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_large) { // long strings that differ in at most two characters
	{
		huge ma; auto n = SX_THOROUGH ? large("n") : one_of("n", {300, 1000, 65536, 65600}); ma.make(n, "c", 1, false); string a{ma.view()}; huge mb{ma}; std::size_t ks[]{n, n - 1, n - 256, n + 256, n > 65536 ? n - 65536 : n + 65536, n + 1}; auto k = ks[sx_pick("k", 6)]; if(k > n) mb.splice(n, 0, k - n, 'e'); else mb.n = k;
		std::size_t at[]{0, 23, 255, 256, n / 2, 32768, 65535, n - 1}; auto p = at[sx_pick("p", 8)]; sx_assume(p < k && p < n); mb.d[p] = static_cast<char>(sx_u8("x")); std::size_t q = sx_pick("q", 2) ? n / 3 : p; sx_assume(q < k); if(q != p) mb.d[q] = static_cast<char>(sx_u8("y")); string b{mb.view()};
		int o{n < k ? -1 : n > k ? 1 : 0}; std::size_t d[]{p < q ? q : p, p < q ? p : q}; for(auto i : d) { auto x = static_cast<unsigned char>(ma.d[i]), y = static_cast<unsigned char>(mb.d[i]); o = x == y ? o : x < y ? -1 : 1; }
		switch(sx_pick("pair", 4)) { case 0: compare(a, b, o, "long strings"); break; case 1: compare(b, ma.view(), -o, "long string and view"); break; case 2: compare(a, string_ref{mb.view()}, o, "string and string_ref"); break; case 3: compare(string_ref{ma.view()}, string_ref{mb.view()}, o, "long string_refs"); if(k == n) { mb.d[p] = ma.d[p]; mb.d[q] = ma.d[q]; b = mb.view(); sx_assert(a == b && std::hash<string>{}(a) == std::hash<string>{}(b), "hash of long strings"); } break; }
		check(a, ma, "compared string changed"); sx_note("order", static_cast<std::uint64_t>(o + 1));
	}
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
SX_HARNESS(h_stream_large) {
	{ huge m; auto n = one_of("n", {256, 300, 1000}); m.make(n, "c", 1); string a{m.view()}; text_out t; t.os << a; sx_assert(t.size() == n && std::memcmp(t.data(), m.d, n) == 0 && t.os.good(), "streamed characters"); }
	sx_assert(sx_heap_live() == 0, "leak"); sx_reach("end");
}
