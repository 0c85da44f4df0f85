// BOUND: sizes 0, 1, 2, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 72, 100, 129; every bit of every operand symbolic; every 64-bit index for the checked operations (valid indices of [] and set: all of them, symbolic)
// BOUND: sizes 256, 257, 264, 300, 520 (thorough: up to 2056) with one arbitrary byte at either end, in the middle or around bit 256, other bits in one of three patterns
// BOUND: sizes 2083, 4104 and 65549 with four or five arbitrary bytes, single bits at both ends, in the middle and around the positions 2048 and 65536
// OUTSIDE: larger sizes, of sizes above 129 several arbitrary bytes at a time
#include "bits.hpp"
using namespace sx; using ptl::bitset;

SX_HARNESS(h_all_bits) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; bitset<N> s; bits<N> m; check(s, m, "a default constructed bitset has no bits"); fill(s, m); bitset<N> * r{&s};
		switch(sx_pick("op", 4)) {
			case 0: r = &s.set(); for(auto & x : m.b) x = 1; check(s, m, "set()"); break;
			case 1: r = &s.reset(); for(auto & x : m.b) x = 0; check(s, m, "reset()"); break;
			case 2: r = &s.flip(); for(auto & x : m.b) x ^= 1; check(s, m, "flip()"); break;
			case 3: { bits<N> f{m}; for(auto & x : f.b) x ^= 1; const auto & c = s; auto t = ~c; check(t, f, "~"); check(s, m, "~ changed its operand"); auto u = ~t; check(u, m, "~~"); break; }
		}
		sx_assert(r == &s, "result"); note(s);
	});
	sx_reach("end");
}
SX_HARNESS(h_one_bit) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; bitset<N> s; bits<N> m; fill(s, m); auto i = sx_u64("index"); bool valid = i < N; bitset<N> * r{nullptr}; bool bit{false}, is{false}; auto op = sx_pick("op", 9); const auto & c = s; bool v = op == 2 ? sx_pick("v", 2) : false;
		for(std::size_t k{0}; k < N; ++k) { bool y = k == i; bit = y ? m.b[k] != 0 : bit; if(op <= 3) { std::uint8_t nv = op == 0 ? 1 : op == 1 ? 0 : op == 2 ? v : m.b[k] ^ 1; m.b[k] = y ? nv : m.b[k]; } }
		auto t = outcome([&] {
			switch(op) {
				case 0: r = &s.set(i); break; case 1: r = &s.reset(i); break; case 2: r = &s.set(i, v); break; case 3: r = &s.flip(i); break;
				case 4: is = s.test(i); break; case 5: is = c.at(i); break; case 6: is = s.at(i); break; case 7: if(!valid) throw std::out_of_range{""}; is = c[i]; break; case 8: if(!valid) throw std::out_of_range{""}; is = s[i]; break;
			}
		});
		sx_assert(t == (valid ? Thrown::none : Thrown::range), "out_of_range for exactly the indices not below the size"); if(valid && op <= 3) sx_assert(r == &s, "result"); if(valid && op > 3) sx_assert(is == bit, "value of the bit");
		check(s, m, "operation on one bit"); if(valid) sx_reach("valid"); else sx_reach("invalid");
	});
	sx_reach("end");
}
SX_HARNESS(h_two) {
	each_size([](auto n) {
		constexpr std::size_t N{n}; bitset<N> s, o; bits<N> m, k; fill(s, m); fill(o, k, "c"); bitset<N> * r{&s}; bits<N> e;
		switch(sx_pick("op", 9)) {
			case 0: r = &(s &= o); for(std::size_t i{0}; i < N; ++i) m.b[i] &= k.b[i]; break;
			case 1: r = &(s |= o); for(std::size_t i{0}; i < N; ++i) m.b[i] |= k.b[i]; break;
			case 2: r = &(s ^= o); for(std::size_t i{0}; i < N; ++i) m.b[i] ^= k.b[i]; break;
			case 3: { auto t = s & o; for(std::size_t i{0}; i < N; ++i) e.b[i] = m.b[i] & k.b[i]; check(t, e, "&"); break; }
			case 4: { auto t = s | o; for(std::size_t i{0}; i < N; ++i) e.b[i] = m.b[i] | k.b[i]; check(t, e, "|"); break; }
			case 5: { auto t = s ^ o; for(std::size_t i{0}; i < N; ++i) e.b[i] = m.b[i] ^ k.b[i]; check(t, e, "^"); break; }
			case 6: if(sx_pick("member", 2)) s.swap(o); else swap(s, o); e = m; m = k; k = e; break;
			case 7: s = o; m = k; break;
			case 8: s ^= s; for(auto & x : m.b) x = 0; break;
		}
		sx_assert(r == &s, "result"); check(s, m, "left operand"); check(o, k, "right operand"); note(s);
	});
	sx_reach("end");
}
template<std::size_t... I, std::size_t N> static bool gets(const bitset<N> & s, const bits<N> & m, std::index_sequence<I...>) { using std::get; bool ok{true}; ((ok &= get<I>(s) == (m.b[I] != 0)), ...); return ok; }
SX_HARNESS(h_get) {
	each_size([](auto n) { constexpr std::size_t N{n}; if constexpr(N > 0 && N < 40) { bitset<N> s; bits<N> m; fill(s, m); sx_assert(gets(s, m, std::make_index_sequence<N>{}), "get"); } });
	sx_reach("end");
}
SX_HARNESS(h_large) {
	each_large([](auto n) {
		constexpr std::size_t N{n}; bitset<N> s, o; bits<N> m, k; few(s, m); auto op = sx_pick("op", 10); if(op >= 7) { for(std::size_t i{0}; i < N; ++i) k.b[i] = i % 5 < 2; k.b[255] = sx_u8("c") & 1; load(o, k); }
		std::size_t at[]{0, 7, 8, 255, 256 % N, N / 2, N - 1, N - 8}; std::size_t i{0}; std::uint8_t v{0}; if(op >= 2 && op < 7) { i = at[sx_pick("at", 8)]; v = sx_u8("v") & 1; }
		switch(op) {
			case 0: s.set(); for(auto & x : m.b) x = 1; break; case 1: s = ~s; for(auto & x : m.b) x ^= 1; break; case 2: s.set(i, v); m.b[i] = v; break; case 3: s.flip(i); m.b[i] ^= 1; break; case 4: s.reset(i); m.b[i] = 0; break; case 5: s.set(i); m.b[i] = 1; break; case 6: s[i] = v; m.b[i] = v; sx_assert(s.at(i) == (v != 0), "value of the bit"); break;
			case 7: if(sx_pick("by", 2)) s &= o; else s = s & o; for(i = 0; i < N; ++i) m.b[i] &= k.b[i]; break; case 8: if(sx_pick("by", 2)) s |= o; else s = s | o; for(i = 0; i < N; ++i) m.b[i] |= k.b[i]; break; case 9: if(sx_pick("by", 2)) { s ^= o; for(i = 0; i < N; ++i) m.b[i] ^= k.b[i]; } else { s.swap(o); check(o, m, "swap", false); m = k; } break;
		}
		check(s, m, "operation on many bits", false);
	});
	sx_reach("end");
}
SX_HARNESS(h_large_index) { // every index of many bits
	each_large([](auto n) {
		constexpr std::size_t N{n}; bitset<N> s; bits<N> m; s.set(); for(auto & x : m.b) x = 1; auto i = sx_u64("index"); std::size_t at[]{0, 255, 256, N - 1, N}; auto b = at[sx_pick("near", 5)]; sx_assume(i == b || i == b + 256 || i == b + 65536 || i == b + (std::uint64_t{1} << 32) || i > (std::uint64_t{1} << 60)); auto op = sx_pick("op", 4); bool got{true};
		auto t = outcome([&] { switch(op) { case 0: s.reset(i); break; case 1: s.flip(i); break; case 2: s.set(i, false); break; case 3: got = s.test(i); break; } }); sx_assert(t == (i < N ? Thrown::none : Thrown::range) && got, "out_of_range for exactly the indices not below the size"); if(i < N && op < 3) m.b[sx_concretize(i)] = 0; check(s, m, "operation on one of many bits", false);
	});
	sx_reach("end");
}
SX_HARNESS(h_huge) { // byte and bit positions that do not fit 8 or 16 bits
	each_huge([](auto n) {
		constexpr std::size_t N{n}; auto op = sx_pick("op", 12); raw_bits<N> m{op < 7 ? sx_pick("rest", 2) : 2, "b"}; bitset<N> s; load(s, m); std::size_t i{0}; bool v{false}; if(op < 6) { i = m.spot(sx_pick("at", m.spots)); v = sx_u8("v") & 1; }
		switch(op) {
			case 0: s.set(i, v); m.put(i, v); break; case 1: s.set(i); m.put(i, true); break; case 2: s.reset(i); m.put(i, false); break; case 3: s.flip(i); m.put(i, !m.at(i)); break; case 4: s[i] = v; m.put(i, v); break; case 5: s.at(i) = v; m.put(i, v); sx_assert(std::as_const(s).at(i) == v && s.test(i) == v, "value of the bit"); break;
			case 6: { auto k = sx_pick("all", 4); if(k == 0) { s.set(); std::memset(m.d, 255, m.B); } else if(k == 1) { s.reset(); std::memset(m.d, 0, m.B); } else { if(k == 2) s.flip(); else s = ~s; for(auto & x : m.d) x = static_cast<unsigned char>(~x); } m.trim(); break; }
			case 7: case 8: case 9: case 10: { raw_bits<N> k{1, "c"}; for(std::size_t j{1}; j < m.B - 1; j += 3) if(j != 255 && j != 256 && j != 8192) k.d[j] = 0x36; bitset<N> o; load(o, k); if(op == 7) { s &= o; for(std::size_t j{0}; j < m.B; ++j) m.d[j] &= k.d[j]; } else if(op == 8) { s |= o; for(std::size_t j{0}; j < m.B; ++j) m.d[j] |= k.d[j]; } else if(op == 9) { s = s ^ o; for(std::size_t j{0}; j < m.B; ++j) m.d[j] ^= k.d[j]; } else { swap(s, o); check(o, m, "swap of very many bits"); m = k; } break; }
			case 11: { auto p = sx_u64("index"); sx_assume(p >= N && (p < N + 300 || p > ~std::uint64_t{0} - 300 || (p >> 32 << 32) == p)); sx_assert(outcome([&] { s.set(p); }) == Thrown::range && outcome([&] { s.reset(p); }) == Thrown::range && outcome([&] { s.flip(p); }) == Thrown::range && outcome([&] { (void)s.test(p); }) == Thrown::range, "index out of range"); break; }
		}
		check(s, m, "operation on very many bits");
	});
	sx_reach("end");
}
