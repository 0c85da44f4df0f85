// BOUND: sizes 0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 72, 100, 129 with every bit symbolic, before and after ~, set() and shifts; integers to construct from as below
// BOUND: count: sizes above 33 with up to 16 symbolic bits at every byte position, all other bits equal; integers: all values for sizes up to 9, above that every value that differs from 0 or from ~0 within one aligned group of 4 (thorough: 6) bits
// BOUND: sizes 256, 257, 264, 300, 520 (thorough: up to 2056) with one arbitrary byte at either end, in the middle or around bit 256, other bits in one of three patterns
// BOUND: sizes 2083, 4104 and 65549 with four or five arbitrary bytes, integers that differ from 0 or ~0 in the last four bits
// OUTSIDE: larger sizes, of sizes above 129 several arbitrary bytes at a time; distribution of hash values
#include "bits.hpp"
using namespace sx; using ptl::bitset;

template<std::size_t N, typename Tag> static void queries(bitset<N, Tag> & s, bits<N> & m) {
	auto query = sx_pick("query", 5); if(N > 33 && query == 3) { auto at = 8 * sx_pick("window", (N + 7) / 8); std::uint8_t rest = sx_pick("rest", 2); for(std::size_t i{0}; i < N; ++i) if(i < at || i >= at + 16) m.b[i] = rest; load(s, m); }
	bool any{false}, all{true}; for(std::size_t i{0}; i < N; ++i) { any |= m.b[i] != 0; all &= m.b[i] != 0; }
	switch(query) { case 0: sx_assert(s.any() == any, "any"); break; case 1: sx_assert(s.none() == !any, "none"); break; case 2: sx_assert(s.all() == all, "all"); break; case 3: sx_assert(s.count() == m.count(), "count"); break; case 4: { bitset<N, loud> x; load(x, m); sx_assert(static_cast<bool>(x) == any && (!x) == !any, "conversion to bool"); break; } }
	sx_note("any", any);
}
SX_HARNESS(h_queries) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; bitset<N> s; bits<N> m; fill(s, m);
		switch(sx_pick("after", 5)) { case 0: break; case 1: s = ~s; for(auto & x : m.b) x ^= 1; break; case 2: s.set(); for(auto & x : m.b) x = 1; break; case 3: if(N) { s <<= 1; for(std::size_t i{N}; i-- > 1;) m.b[i] = m.b[i - 1]; m.b[0] = 0; } break; case 4: s.reset(); s.flip(); for(auto & x : m.b) x = 1; break; }
		queries(s, m);
	});
	sx_reach("end");
}
SX_HARNESS(h_equal) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; bitset<N> a, b; bits<N> m, k; fill(a, m); fill(b, k, "c"); bool same{true}; for(std::size_t i{0}; i < N; ++i) same &= m.b[i] == k.b[i];
		bool e = a == b; sx_assert(e == same, "=="); sx_assert((a != b) == !same, "!="); sx_assert(a == a && !(a != a), "equality with itself"); sx_note("equal", same);
	});
	sx_reach("end");
}
SX_HARNESS(h_integer) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; std::uint64_t v; if constexpr(N <= 9) v = sx_u64("value"); else { constexpr unsigned W{SX_THOROUGH ? 6 : 4}; auto sh = W * sx_pick("window", (64 + W - 1) / W); auto inv = sx_pick("invert", 2); v = std::uint64_t(sx_u8("value") & ((1 << W) - 1)) << sh; if(inv) v = ~v; } bitset<N> s(v); bits<N> m; for(std::size_t i{0}; i < N && i < 64; ++i) m.b[i] = (v >> i) & 1; check(s, m, "construction from an integer"); note(s);
	});
	sx_reach("end");
}
SX_HARNESS(h_large) {
	each_large([](auto n) {
		constexpr std::size_t N{n}; bitset<N> s; bits<N> m; few(s, m); bool any{false}, all{true}; for(std::size_t i{0}; i < N; ++i) { any |= m.b[i] != 0; all &= m.b[i] != 0; }
		switch(sx_pick("query", 4)) { case 0: sx_assert(s.any() == any && s.none() == !any, "any and none of many bits"); break; case 1: sx_assert(s.all() == all, "all of many bits"); break; case 2: sx_assert(s.count() == m.count(), "count of many bits"); break;
			case 3: { bitset<N> o; bits<N> k{m}; std::size_t at[]{0, 255, 256 % N, N / 2, N - 1}; k.b[at[sx_pick("differs", 5)]] ^= 1; load(o, k); sx_assert(!(s == o) && s != o, "many bits that differ in one"); check(s, m, "many bits"); break; } }
	});
	sx_reach("end");
}
SX_HARNESS(h_integer_large) { each_large([](auto n) { constexpr std::size_t N{n}; auto sh = 4 * sx_pick("window", 16); auto v = std::uint64_t(sx_u8("value") & 15) << sh; if(sx_pick("invert", 2)) v = ~v; bitset<N> s(v); bits<N> m; for(std::size_t i{0}; i < 64; ++i) m.b[i] = (v >> i) & 1; check(s, m, "construction of many bits from an integer", false); }); sx_reach("end"); }
SX_HARNESS(h_huge) { // sums that do not fit 8 or 16 bits
	each_huge([](auto n) {
		constexpr std::size_t N{n}; auto rest = sx_pick("rest", 3); raw_bits<N> m{rest, "b"}; bitset<N> s; load(s, m);
		switch(sx_pick("query", 5)) {
			case 0: { for(std::size_t i{0}; i < m.B; i += 255) if(rest != 2) m.d[i] = rest ? 255 : 0; m.d[256] = sx_u8("few"); m.d[m.B - 1] = rest ? 255 : 0; m.trim(); load(s, m); sx_assert(s.count() == m.count(), "count of very many bits"); break; }
			case 1: case 2: { bool any = rest != 0, all = rest == 1; raw_bits<N> full{1, "f"}; std::memset(full.d, 255, m.B); full.trim(); std::size_t at[]{0, 255, 256, m.B > 8192 ? 8192 : 0, m.B - 1}; for(auto i : at) { any |= m.d[i] != 0; all &= m.d[i] == full.d[i]; } sx_assert(s.any() == any && s.none() == !any, "any and none of very many bits"); sx_assert(s.all() == all, "all of very many bits"); break; }
			case 3: { bitset<N> o{s}; using H = std::hash<bitset<N>>; sx_assert(s == o && H{}(s) == H{}(o), "very many equal bits"); auto k{m}; auto i = m.spot(sx_pick("differs", m.spots)); k.put(i, !k.at(i)); load(o, k); sx_assert(s != o && !(o == s), "very many bits that differ in one"); break; }
			case 4: { auto v = sx_u64("value"); sx_assume(v < 16 || v > ~std::uint64_t{0} - 16); bitset<N> o(v); raw_bits<N> k{0, "z"}; std::memset(k.d, 0, k.B); for(std::size_t i{0}; i < 64; ++i) k.put(i, (v >> i) & 1); check(o, k, "construction from an integer"); break; }
		}
	});
	sx_reach("end");
}
