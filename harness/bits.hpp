// Reference model and symbolic pre-states for ptl::bitset.
#pragma once
#include "streams.hpp"
#include "iters.hpp"
#include "ptl/bitset.hpp"

struct loud {}; // tag that enables bool conversion
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<loud>{true}; }

namespace sx {
	template<std::size_t N> constexpr std::size_t bytes_of{N == 0 ? 1 : (N + 7) / 8};
	template<std::size_t N> struct bits { // one value 0/1 per bit
		std::uint8_t b[N + 1]; bits() { for(auto & x : b) x = 0; }
		std::uint8_t operator[](std::size_t i) const { return b[i]; }
		std::size_t count() const { std::size_t c{0}; for(std::size_t i{0}; i < N; ++i) c += b[i]; return c; }
	};
	template<std::size_t N, typename Tag> void load(ptl::bitset<N, Tag> & s, const bits<N> & m) {
		static_assert(sizeof(s) == bytes_of<N>); unsigned char raw[bytes_of<N>]{}; for(std::size_t i{0}; i < N; ++i) raw[i / 8] = static_cast<unsigned char>(raw[i / 8] | (m.b[i] << (i % 8)));
		std::memcpy(static_cast<void *>(&s), raw, sizeof(raw));
	}
	template<std::size_t N, typename Tag> void fill(ptl::bitset<N, Tag> & s, bits<N> & m, const char * name = "b") { // arbitrary bits
		if constexpr(SX_REDUCED && N > 4) { std::size_t at[]{0, 6, N / 2, N - 4}; auto w = at[sx_pick("window", 4)]; std::uint8_t rest = sx_pick("rest", 2); auto x = sx_u8(name); for(std::size_t i{0}; i < N; ++i) m.b[i] = i < w || i >= w + 4 ? rest : (x >> (i - w)) & 1; load(s, m); return; }
		unsigned char raw[bytes_of<N>]{}; if(N) sx_bytes(raw, sizeof(raw), name); if(N % 8) raw[sizeof(raw) - 1] &= static_cast<unsigned char>((1u << (N % 8)) - 1);
		for(std::size_t i{0}; i < N; ++i) m.b[i] = (raw[i / 8] >> (i % 8)) & 1; std::memcpy(static_cast<void *>(&s), raw, sizeof(raw));
	}
	template<std::size_t N, typename Tag> void check(const ptl::bitset<N, Tag> & s, const bits<N> & m, const char * what, bool hashes = true) {
		bool ok{true}; for(std::size_t i{0}; i < N; ++i) { bool v = s.test(i); ok &= v == (m.b[i] != 0); } sx_assert(ok, what);
		ok = true; for(std::size_t i{0}; i < N; ++i) { bool v = s[i]; ok &= v == (m.b[i] != 0); } sx_assert(ok, what);
		ptl::bitset<N, Tag> e; load(e, m); sx_assert(s == e && !(s != e) && e == s, "a bitset must equal one with the same bits"); sx_assert(s.size() == N && s.empty() == (N == 0) && s.max_size() == N, "size");
		if(!hashes) return; using H = std::hash<ptl::bitset<N, Tag>>; sx_assert(H{}(s) == H{}(e), "bitsets with the same bits must have equal hashes");
	}
	template<std::size_t N, typename Tag> void note(const ptl::bitset<N, Tag> & s) { std::uint64_t h{0}; for(std::size_t i{0}; i < N && i < 60; ++i) h = h * 2 + (s.test(i) ? 1 : 0); sx_note("bits", h); }
	template<typename F> void each_size(F f) { // f(integral_constant<size>) for one size per path
#define SX_SIZE(k, n) case k: f(std::integral_constant<std::size_t, n>{}); break;
		auto k = sx_pick("size", SX_REDUCED ? 9 : 20); if(SX_REDUCED) { std::size_t few[]{0, 1, 3, 5, 6, 8, 9, 15, 16}; k = few[k]; }
		switch(k) { SX_SIZE(0, 0) SX_SIZE(1, 1) SX_SIZE(2, 2) SX_SIZE(3, 5) SX_SIZE(4, 7) SX_SIZE(5, 8) SX_SIZE(6, 9) SX_SIZE(7, 15) SX_SIZE(8, 16) SX_SIZE(9, 17) SX_SIZE(10, 24) SX_SIZE(11, 31) SX_SIZE(12, 32) SX_SIZE(13, 33) SX_SIZE(14, 63) SX_SIZE(15, 64) SX_SIZE(16, 65) SX_SIZE(17, 72) SX_SIZE(18, 100) SX_SIZE(19, 129) }
	}
	// many bits: a fixed pattern around one arbitrary byte
	template<std::size_t N, typename Tag> void few(ptl::bitset<N, Tag> & s, bits<N> & m, const char * name = "b") {
		constexpr std::size_t B{bytes_of<N>}; std::size_t at[]{0, 31, 32, B / 2, B - 1, B - 2}; auto w = 8 * at[sx_pick("byte", 6)]; auto rest = sx_pick("rest", 3); auto x = sx_u8(name);
		for(std::size_t i{0}; i < N; ++i) m.b[i] = i >= w && i < w + 8 ? (x >> (i - w)) & 1 : rest == 2 ? i % 3 == 0 || i % 7 == 5 : rest; load(s, m);
	}
	template<typename F> void each_large(F f) {
		switch(sx_pick("size", SX_THOROUGH ? 9 : 5)) { SX_SIZE(0, 256) SX_SIZE(1, 257) SX_SIZE(2, 264) SX_SIZE(3, 300) SX_SIZE(4, 520) SX_SIZE(5, 255) SX_SIZE(6, 512) SX_SIZE(7, 1025) SX_SIZE(8, 2056) }
	}
	// very many bits: bytes beyond the 256th and bits beyond the 65536th; the model is the bytes, a few of which are arbitrary
	template<std::size_t N> struct raw_bits {
		static constexpr std::size_t B{bytes_of<N>}; unsigned char d[B];
		bool at(std::size_t i) const { return (d[i / 8] >> (i % 8)) & 1; } void put(std::size_t i, bool v) { d[i / 8] = static_cast<unsigned char>((d[i / 8] & ~(1u << (i % 8))) | (unsigned(v) << (i % 8))); }
		void trim() { if(N % 8) d[B - 1] &= static_cast<unsigned char>((1u << (N % 8)) - 1); }
		static constexpr std::size_t spots{6}; static std::size_t spot(std::size_t k) { std::size_t at[]{0, 2047, 2048, N / 2 + 1, N > 65536 ? 65536 : N - 9, N - 1}; return at[k]; } // interesting positions
		raw_bits(std::uint64_t rest, const char * name) { std::memset(d, rest == 0 ? 0 : rest == 1 ? 255 : 0x5B, B); d[0] = sx_u8(name); d[B - 1] = sx_u8(name); d[255] = sx_u8(name); d[256] = sx_u8(name); if(B > 8192) d[8192] = sx_u8(name); trim(); }
		std::size_t count() const { std::size_t r{0}; for(std::size_t i{0}; i < B; ++i) { unsigned char x = d[i]; for(int j{0}; j < 8; ++j) r += (x >> j) & 1; } return r; }
	};
	template<std::size_t N> void load(ptl::bitset<N> & s, const raw_bits<N> & m) { static_assert(sizeof(s) == bytes_of<N>); std::memcpy(static_cast<void *>(&s), m.d, sizeof(m.d)); }
	template<std::size_t N> void check(const ptl::bitset<N> & s, const raw_bits<N> & m, const char * what) {
		ptl::bitset<N> e; load(e, m); sx_assert(s == e && !(s != e), what); bool ok{true}; for(std::size_t k{0}; k < m.spots; ++k) for(std::size_t i{m.spot(k) < 4 ? 0 : m.spot(k) - 4}; i < m.spot(k) + 4 && i < N; ++i) ok &= (s.test(i) == m.at(i)) & (static_cast<bool>(s[i]) == m.at(i)); sx_assert(ok, what); sx_assert(std::memcmp(&s, m.d, sizeof(m.d)) == 0, what);
	}
	template<typename F> void each_huge(F f) { switch(sx_pick("size", SX_REDUCED ? 1 : 3)) { SX_SIZE(0, 2083) SX_SIZE(1, 4104) SX_SIZE(2, 65549) } }
#undef SX_SIZE
}
