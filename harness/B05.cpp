// BOUND: sizes 0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 72, 100, 129 with every bit symbolic; every position for a single reference, pairs of positions: all for sizes up to 17, else the ends, the middle and byte boundaries; same and different bitsets
// BOUND: sizes 256, 257, 264, 300, 520 (thorough: up to 2056) with one arbitrary byte at either end, in the middle or around bit 256, other bits in one of three patterns
// BOUND: sizes 2083, 4104 and 65549 with four or five arbitrary bytes, pairs of positions at both ends, in the middle and around 2048 and 65536
// OUTSIDE: larger sizes, of sizes above 129 several arbitrary bytes at a time
#include "bits.hpp"
using namespace sx; using ptl::bitset;

template<std::size_t N> static std::size_t pos(const char * name) {
	if(N <= 17 || SX_THOROUGH) return sx_pick(name, N); std::size_t c[]{0, 7, 8, N / 2, N - 9, N - 1}; return c[sx_pick(name, 6)];
}
SX_HARNESS(h_one) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N > 0) {
			bitset<N> s; bits<N> m; fill(s, m); auto i = sx_pick("index", N); bool at = sx_pick("at", 2); auto r = at ? s.at(i) : s[i]; sx_assert(static_cast<bool>(r) == (m.b[i] != 0), "reading through a reference"); const auto & c = r;
			switch(sx_pick("op", 5)) {
				case 0: { bool v = sx_u8("v") & 1; auto & q = (r = v); sx_assert(&q == &r, "result"); m.b[i] = v; break; }
				case 1: { auto & q = r.flip(); sx_assert(&q == &r, "result"); m.b[i] ^= 1; break; }
				case 2: sx_assert(~c == (m.b[i] == 0), "~ through a reference"); break;
				case 3: { auto k{r}; k.flip(); m.b[i] ^= 1; sx_assert(static_cast<bool>(c) == (m.b[i] != 0), "a copy refers to the same bit"); break; }
				case 4: s.flip(); for(auto & x : m.b) x ^= 1; break;
			}
			sx_assert(static_cast<bool>(c) == (m.b[i] != 0), "reading through a reference"); check(s, m, "operation through a reference", false); note(s);
		}
	});
	sx_reach("end");
}
SX_HARNESS(h_two_same) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N > 0) {
			bitset<N> s; bits<N> m; fill(s, m); auto i = pos<N>("i"); auto j = pos<N>("j"); auto a = s[i], b = s[j];
			switch(sx_pick("op", 5)) {
				case 0: { auto & q = (a = b); sx_assert(&q == &a, "result"); m.b[i] = m.b[j]; break; }
				case 1: a.swap(b); std::swap(m.b[i], m.b[j]); break;
				case 2: swap(a, b); std::swap(m.b[i], m.b[j]); break;
				case 3: swap(s[i], s[j]); std::swap(m.b[i], m.b[j]); break;
				case 4: s[i] = s[j]; m.b[i] = m.b[j]; break;
			}
			sx_assert(static_cast<bool>(a) == (m.b[i] != 0) && static_cast<bool>(b) == (m.b[j] != 0), "both references still refer to their bits"); check(s, m, "two references into one bitset", false); note(s); if(i == j) sx_reach("same bit");
		}
	});
	sx_reach("end");
}
SX_HARNESS(h_two_different) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; if constexpr(N > 0) {
			bitset<N> s, t; bits<N> m, k; fill(s, m); fill(t, k, "c"); auto i = pos<N>("i"); auto j = pos<N>("j"); auto a = s[i], b = t[j];
			switch(sx_pick("op", 4)) {
				case 0: a = b; m.b[i] = k.b[j]; break;
				case 1: a.swap(b); std::swap(m.b[i], k.b[j]); break;
				case 2: swap(s[i], t[j]); std::swap(m.b[i], k.b[j]); break;
				case 3: s[i] = t[j]; m.b[i] = k.b[j]; break;
			}
			sx_assert(static_cast<bool>(a) == (m.b[i] != 0) && static_cast<bool>(b) == (k.b[j] != 0), "both references still refer to their bits"); check(s, m, "left bitset", false); check(t, k, "right bitset", false); note(s); note(t); if(i == j) sx_reach("same position");
		}
	});
	sx_reach("end");
}
SX_HARNESS(h_large) {
	each_large([](auto n) {
		constexpr std::size_t N{n}; bitset<N> s, t; bits<N> m, k; few(s, m); for(std::size_t i{0}; i < N; ++i) k.b[i] = i % 5 < 2; load(t, k); std::size_t at[]{0, 127, 255, 256 % N, N / 2, N - 1}; auto i = at[sx_pick("i", 6)], j = at[sx_pick("j", 6)]; auto a = s[i];
		switch(sx_pick("op", 5)) { case 0: a = t[j]; m.b[i] = k.b[j]; break; case 1: { auto b = t[j]; a.swap(b); std::swap(m.b[i], k.b[j]); break; } case 2: swap(a, s[j]); std::swap(m.b[i], m.b[j]); break; case 3: a.flip(); m.b[i] ^= 1; break; case 4: a = s.at(j); m.b[i] = m.b[j]; break; }
		sx_assert(static_cast<bool>(a) == (m.b[i] != 0) && ~a == (m.b[i] == 0), "reading through a reference"); check(s, m, "one of many bits", false); check(t, k, "one of many bits", false);
	});
	sx_reach("end");
}
SX_HARNESS(h_huge) { // positions that do not fit 8 or 16 bits
	each_huge([](auto n) {
		constexpr std::size_t N{n}; raw_bits<N> m{2, "b"}, k{sx_pick("rest", 2), "c"}; bitset<N> s, t; load(s, m); load(t, k); auto i = m.spot(sx_pick("i", m.spots)), j = m.spot(sx_pick("j", m.spots)); auto a = s[i];
		switch(sx_pick("op", 5)) { case 0: a = t[j]; m.put(i, k.at(j)); break; case 1: { auto b = t.at(j); a.swap(b); bool x = m.at(i); m.put(i, k.at(j)); k.put(j, x); break; } case 2: { swap(a, s[j]); bool x = m.at(i); m.put(i, m.at(j)); m.put(j, x); break; } case 3: a.flip(); m.put(i, !m.at(i)); break; case 4: a = s.at(j); m.put(i, m.at(j)); break; }
		sx_assert(static_cast<bool>(a) == m.at(i) && ~a == !m.at(i), "reading through a reference"); check(s, m, "one of very many bits"); check(t, k, "one of very many bits");
	});
	sx_reach("end");
}
