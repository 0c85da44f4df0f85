// BOUND: sizes 0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 72, 100, 129 with every bit symbolic; every count below the size, and every 64-bit count at or beyond it (symbolic)
// BOUND: sizes 256, 257, 264, 300 (thorough also 255, 512) with one arbitrary byte at either end, in the middle or around bit 256, other bits in one of three patterns
// BOUND: size 2083 with four arbitrary bytes, counts 1, 9, 256, 263
// OUTSIDE: larger sizes, of sizes above 129 several arbitrary bytes at a time; running times below 4 million instructions are not told apart
// OPTIONS: --max-steps 4000000
#include "bits.hpp"
using namespace sx; using ptl::bitset;

template<std::size_t N> static void shift(std::uint64_t count) {
	bitset<N> s; bits<N> m, l, r; fill(s, m); for(std::size_t i{0}; i < N; ++i) { l.b[i] = count <= i ? m.b[i - count] : 0; r.b[i] = count < N - i ? m.b[i + count] : 0; }
	switch(sx_pick("op", 4)) {
		case 0: { auto & x = (s <<= count); sx_assert(&x == &s, "result"); check(s, l, "<<="); break; }
		case 1: { auto & x = (s >>= count); sx_assert(&x == &s, "result"); check(s, r, ">>="); break; }
		case 2: { const auto & c = s; auto x = c << count; check(x, l, "<<"); check(s, m, "<< changed its operand"); break; }
		case 3: { const auto & c = s; auto x = c >> count; check(x, r, ">>"); check(s, m, ">> changed its operand"); break; }
	}
	note(s);
}
SX_HARNESS(h_inside) { each_size([](auto n) { constexpr std::size_t N{n}; if constexpr(N > 0) shift<N>(sx_pick("count", N)); }); sx_reach("end"); }
static void beyond(bool any) {
	each_size([any](auto n) {
		constexpr std::size_t N{n}; std::uint64_t some[]{N, N + 1, N + 8, std::uint64_t{1} << 32, std::uint64_t{1} << 63, ~std::uint64_t{0}}; auto k = sx_pick("kind", any ? 1 : 6); auto count = any ? sx_u64("count") : some[k]; sx_assume(count >= N); bitset<N> s; bits<N> m, none; fill(s, m);
		switch(sx_pick("op", 4)) { case 0: s <<= count; break; case 1: s >>= count; break; case 2: s = s << count; break; case 3: s = s >> count; break; }
		check(s, none, "shifting by the size or more"); s.flip(); for(auto & x : none.b) x = 1; check(s, none, "all bits");
	});
	sx_reach("end");
}
SX_HARNESS(h_beyond) { beyond(false); }
SX_HARNESS(h_beyond_any) { beyond(true); }
// there and back: bits that leave do not return
SX_HARNESS(h_both) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N > 0) { auto a = position("a", N - 1, SX_THOROUGH ? 40 : 3), b = position("b", N - 1, SX_THOROUGH ? 40 : 3); bitset<N> s; bits<N> m, e; fill(s, m); bool left = sx_pick("first", 2); if(left) { s <<= a; s >>= b; } else { s >>= a; s <<= b; }
			for(std::size_t i{0}; i < N; ++i) { if(left) { auto j = i + b; e.b[i] = j < N && j >= a ? m.b[j - a] : 0; } else if(i >= b) { auto j = i - b; e.b[i] = j + a < N ? m.b[j + a] : 0; } } check(s, e, "shifting to and fro"); }
	});
	sx_reach("end");
}
SX_HARNESS(h_large) {
	each_large([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N <= 300) { bitset<N> s; bits<N> m, l, r; few(s, m); std::size_t c[]{0, 1, 7, 8, 9, 63, 64, 65, 127, 128, 129, 255, 256, 257, N / 2, N - 9, N - 8, N - 1}; auto count = c[sx_pick("count", 18)]; sx_assume(count < N); for(std::size_t i{0}; i < N; ++i) { l.b[i] = count <= i ? m.b[i - count] : 0; r.b[i] = count < N - i ? m.b[i + count] : 0; }
			switch(sx_pick("op", 3)) { case 0: s <<= count; check(s, l, "<<= of many bits", false); break; case 1: s >>= count; check(s, r, ">>= of many bits", false); break; case 2: { auto x = s << count; check(x, l, "<< of many bits", false); auto y = s >> count; check(y, r, ">> of many bits", false); check(s, m, "operand", false); break; } } }
	});
	sx_reach("end");
}
SX_HARNESS(h_huge) { // byte positions and counts that do not fit 8 bits
	if(!SX_REDUCED) {
		constexpr std::size_t N{2083}; raw_bits<N> m{sx_pick("rest", 2), "b"}, l{0, "x"}; std::size_t c[]{1, 9, 256, 263}; auto count = c[sx_pick("count", 4)]; bool left = sx_pick("left", 2); std::memset(l.d, 0, l.B); bitset<N> s; load(s, m);
		if(left) { s <<= count; for(std::size_t i{count}; i < N; ++i) l.put(i, m.at(i - count)); } else { s = s >> count; for(std::size_t i{0}; i < N - count; ++i) l.put(i, m.at(i + count)); } check(s, l, "shift of very many bits");
	}
	sx_reach("end");
}
