// BOUND: sizes 0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 72, 100, 129 with every bit symbolic for output; input of every content up to 4 characters past two fewer than the size, for sizes up to 3 (thorough: 5) with arbitrary characters; larger sizes: up to one symbolic character anywhere near the end of an otherwise fixed digit sequence, then up to 2 further characters
// BOUND: sizes 256, 257, 264, 300, 520 (thorough: up to 2056) with one arbitrary byte at either end, in the middle or around bit 256, other bits in one of three patterns
// BOUND: output to streams with default, boolalpha, showpos, hex with base, left adjusted formatting
// ASSUME: the stream's own state, buffer and sentry behave as in the stand-in stub/istream, stub/ostream; sampled paths are compared with libstdc++'s streams
// STUB: std::istream, std::ostream, std::streambuf
// BOUND: size 2083 with a few arbitrary bytes and digits
// OUTSIDE: stream exceptions masks, width, locale dependent digits
// PASSES: sroa,simplifycfg
#include "bits.hpp"
using namespace sx; using ptl::bitset;

// how numbers are written plays no role for bits
static void formatted(std::ostream & os) { switch(sx_pick("format", 5)) { case 1: os.setf(std::ios::boolalpha); break; case 2: os.setf(std::ios::showpos); break; case 3: os.setf(std::ios::hex, std::ios::basefield); os.setf(std::ios::showbase); break; case 4: os.setf(std::ios::left, std::ios::adjustfield); os.fill('*'); break; } }
template<std::size_t N> static void round_trip(bitset<N> & s, bits<N> & m) {
	text_out o; formatted(o.os); o.os << s; sx_assert(o.size() == N, "exactly size characters are written"); bool ok{true}; for(std::size_t i{0}; i < N && i < o.size(); ++i) ok &= o.data()[i] == static_cast<char>('0' + m.b[N - 1 - i]); sx_assert(ok, "most significant bit first"); sx_assert(o.os.good(), "stream state after output"); check(s, m, "output changed the bitset");
}
SX_HARNESS(h_write) {
	each_size([](auto n) { constexpr std::size_t N{n}; bitset<N> s; bits<N> m; fill(s, m); round_trip(s, m); }); sx_reach("end");
}
// what reading from [p, p + n) must do
template<std::size_t N> static void reading(const char * p, std::size_t n, bool skip = true) {
	bitset<N> s; bits<N> m, e; fill(s, m, "old"); text_in in{p, n}; if(!skip) in.is.unsetf(std::ios::skipws);
	std::size_t at{0}; if(skip) while(at < n && (p[at] == ' ' || (p[at] >= 9 && p[at] <= 13))) ++at; bool blank = at == n;
	std::size_t k{0}; while(k < N && at + k < n && (p[at + k] == '0' || p[at + k] == '1')) ++k;
	for(std::size_t i{0}; i < k; ++i) e.b[i] = p[at + k - 1 - i] == '1';
	auto & r = in.is >> s; sx_assert(&r == &in.is, "result");
	if(k == 0) { check(s, m, "nothing to read: unchanged"); if(N) sx_assert(in.is.fail(), "no bit read: failure"); sx_reach("nothing"); } else { check(s, e, "bits read"); sx_assert(!in.is.fail(), "bits read: no failure"); sx_reach(k == N ? "complete" : at + k == n ? "end of input" : "other character"); }
	if(N) { sx_assert(in.consumed() == at + k, "characters consumed"); if(!blank && k == N) sx_assert(in.is.good(), "stream state when complete"); }
	note(s);
}
SX_HARNESS(h_read_any) {
	char t[10]; auto go = [&](auto n) { constexpr std::size_t N{n}; auto len = sx_pick("length", N + 3); sx_bytes(t, len, "text"); bool skip = sx_pick("skip", 2); reading<N>(t, len, skip); };
	switch(sx_pick("size", SX_THOROUGH ? 5 : 3)) { case 0: go(std::integral_constant<std::size_t, 1>{}); break; case 1: go(std::integral_constant<std::size_t, 2>{}); break; case 2: go(std::integral_constant<std::size_t, 3>{}); break; case 3: go(std::integral_constant<std::size_t, 4>{}); break; case 4: go(std::integral_constant<std::size_t, 5>{}); break; }
	sx_reach("end");
}
// digit sequences of every interesting length, one arbitrary character at an interesting position
SX_HARNESS(h_read_long) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N >= 5) {
			static char t[N + 4]; auto len = N - 2 + sx_pick("length", 5); auto lead = sx_pick("blank", 2); auto pattern = sx_pick("pattern", 3); for(std::size_t i{0}; i < len; ++i) t[i] = pattern == 0 ? '1' : pattern == 1 ? '0' : "1101001"[i % 7]; if(lead) t[0] = '\n';
			std::size_t where[]{0, 1, N / 2, N - 1, N, len - 1}; auto w = where[sx_pick("where", 6)]; if(w >= len) w = len - 1; t[w] = static_cast<char>(sx_u8("char")); reading<N>(t, len);
		}
	});
	sx_reach("end");
}
// what was written is read back
SX_HARNESS(h_back) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N > 0) { bitset<N> s, b; bits<N> m; auto at = sx_pick("window", (N + 4) / 5) * 5; auto rest = sx_pick("rest", 2); auto x = sx_u8("bits"); for(std::size_t i{0}; i < N; ++i) m.b[i] = i < at || i >= at + 5 ? rest : (x >> (i - at)) & 1; load(s, m); text_out o; o.os << s << 'x'; text_in in{o.data(), o.size()}; in.is >> b; check(b, m, "reading back what was written"); sx_assert(in.is.good() && in.consumed() == N, "reading back"); char c{0}; in.is >> c; sx_assert(c == 'x', "the following text remains"); }
	});
	sx_reach("end");
}
// streams that already failed
SX_HARNESS(h_failed) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N > 0) { bitset<N> s; bits<N> m; fill(s, m); text_in in{"1111", 4}; in.is.setstate(sx_pick("state", 2) ? std::ios::failbit : std::ios::eofbit); in.is >> s; check(s, m, "reading from a failed stream"); sx_assert(in.is.fail() && in.consumed() == 0, "reading from a failed stream"); }
	});
	sx_reach("end");
}
SX_HARNESS(h_large) {
	each_large([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N <= 300) { bitset<N> s, b; bits<N> m; std::size_t at[]{0, 255, N / 2, N - 1}; auto p = at[sx_pick("bit", 4)]; auto rest = sx_pick("rest", 3); for(std::size_t i{0}; i < N; ++i) m.b[i] = rest == 2 ? i % 3 == 0 || i % 7 == 5 : rest; m.b[p] = sx_u8("b") & 1; load(s, m); text_out o; o.os << s; sx_assert(o.size() == N, "exactly size characters are written"); bool ok{true}; for(std::size_t i{0}; i < N && i < o.size(); ++i) ok &= o.data()[i] == static_cast<char>('0' + m.b[N - 1 - i]); sx_assert(ok, "most significant bit first");
			auto len = one_of("length", {N, N - 1, 255, 256}); text_in in{o.data(), len}; in.is >> b; bits<N> e; if(len > N) len = N; for(std::size_t i{0}; i < len; ++i) e.b[i] = m.b[N - len + i]; check(b, e, "reading many bits", false); sx_assert(!in.is.fail() && in.consumed() == len, "reading many bits"); }
	});
	sx_reach("end");
}
SX_HARNESS(h_huge) { // text longer than 8 bits can count
	if(!SX_REDUCED) {
		constexpr std::size_t N{2083}; raw_bits<N> m{2, "b"}, e{0, "x"}; std::memset(e.d, 0, e.B); bitset<N> s, b; load(s, m); text_out o; o.os << s; sx_assert(o.size() == N, "exactly size characters are written"); bool ok{true}; for(std::size_t i{0}; i < N && i < o.size(); ++i) ok &= o.data()[i] == static_cast<char>('0' + m.at(N - 1 - i)); sx_assert(ok, "most significant bit first");
		char t[N + 2]; std::uint8_t few[3]{sx_u8("c"), sx_u8("c"), sx_u8("c")}; for(std::size_t i{0}; i < N + 2; ++i) t[i] = i % 3 == 1 ? '0' : '1'; t[0] = '0' + (few[0] & 1); t[2047] = '0' + (few[1] & 1); t[N - 1] = '0' + (few[2] & 1); auto len = one_of("length", {N, N + 2, 2048, 2050}); text_in in{t, len}; in.is >> b; if(len > N) len = N; for(std::size_t i{0}; i < len; ++i) e.put(i, t[len - 1 - i] == '1'); check(b, e, "reading very many bits"); sx_assert(!in.is.fail() && in.consumed() == len, "reading very many bits");
	}
	sx_reach("end");
}
