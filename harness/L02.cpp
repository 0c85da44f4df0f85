// BOUND: pairs of strings (vectors) of which each is empty, inline, has its buffer from here or from one of two foreign modules with allocators of their own, 0 to 48 symbolic characters (0 to 12 elements of two types); every operation on such a pair, each allocation or none of them failing; histories of 3 (thorough: 4) operations on three objects
// ASSUME: a foreign module builds objects of the same binary layout, with capacities of at least the minimal one; its deallocator overwrites what it releases
// OUTSIDE: longer histories, other element types
#include "str.hpp"
#include "vec.hpp"
using namespace sx;

template<typename W, typename T> static W word(const T & o, std::size_t at) { W w; std::memcpy(&w, reinterpret_cast<const unsigned char *>(std::addressof(o)) + at, sizeof(W)); return w; }
// the memory of foreign modules: slots that may be released once each, by their own deallocator only
constexpr std::size_t room{80};
static bool in_use[3]; static bool released[3];
alignas(8) static char chars[3][room]; alignas(8) static unsigned char elements[3][room * 4];
template<int K> static void drop_chars(char * p) noexcept { sx_assert(p == chars[K], "a foreign deallocator is called for its own buffer"); sx_assert(in_use[K] && !released[K], "a foreign buffer is released once"); released[K] = true; std::memset(p, 0x5A, room); }
template<typename T, int K> static void drop_elements(T * p) noexcept { sx_assert(static_cast<void *>(p) == elements[K], "a foreign deallocator is called for its own buffer"); sx_assert(in_use[K] && !released[K], "a foreign buffer is released once"); released[K] = true; std::memset(static_cast<void *>(p), 0x5A, sizeof(elements[K])); }
using drop_t = void(*)(char *) noexcept;
static const drop_t char_droppers[]{drop_chars<0>, drop_chars<1>, drop_chars<2>};
static void reset() { for(auto & x : in_use) x = false; for(auto & x : released) x = false; }

static void foreign(ptl::string & s, int k, const char * p, std::size_t n, std::size_t cap) { // s is inline so far
	in_use[k] = true; std::memcpy(chars[k], p, n); chars[k][n] = 0; struct { drop_t d; char * p; std::size_t cap, siz; } raw{char_droppers[k], chars[k], cap, n}; std::memcpy(static_cast<void *>(&s), &raw, 32);
}
enum : std::size_t { s_inline, s_here, s_foreign, s_kinds };
static void make(ptl::string & s, model & m, int k, std::size_t kind, std::size_t n, const char * name) { char b[64]; sx_bytes(b, n, name); m.set(b, n); switch(kind) { case s_inline: if(n > 22) sx_assume(false); s.append(std::string_view{b, n}); break; case s_here: s.reserve(50); s.append(std::string_view{b, n}); break; case s_foreign: foreign(s, k, b, n, 48); break; } }
// a foreign buffer not released is held by exactly one string, together with its deallocator
template<typename... S> static void held(const S &... s) { for(int k{0}; k < 3; ++k) if(in_use[k]) { int n{0}; ((n += word<drop_t>(s, 0) != nullptr && word<char *>(s, 8) == chars[k]), ...); bool paired{true}; ((paired &= (word<drop_t>(s, 0) == char_droppers[k]) == (word<drop_t>(s, 0) != nullptr && word<char *>(s, 8) == chars[k])), ...); sx_assert(n == (released[k] ? 0 : 1), released[k] ? "a released buffer is still used" : "a buffer is not released when it is no longer used"); sx_assert(paired, "buffer and deallocator belong together"); if(released[k]) sx_reach("released early"); } }
static void all_released() { for(int k{0}; k < 3; ++k) sx_assert(in_use[k] == released[k], "every foreign buffer is released in the end"); }

static void string_op(std::size_t op, ptl::string & a, model & m, ptl::string & b, model & k) { // throws before it changes m and k
	char w[64]; for(auto & c : w) c = 'w';
	switch(op) {
		case 0: a = static_cast<const ptl::string &>(b); m = k; break; case 1: a = std::move(b); m = k; sx_assert(b.data()[b.size()] == 0, "moved from"); b.assign(std::string_view{"moved"}); k.set("moved", 5); break; case 2: a.swap(b); std::swap(m, k); break; case 3: { ptl::string t{static_cast<const ptl::string &>(a)}; check(t, m, "copy"); held(a, b); break; } case 4: { ptl::string t{std::move(a)}; check(t, m, "move"); held(a, b, t); a.assign(std::string_view{"moved"}); m.set("moved", 5); held(a, b, t); break; } case 5: { auto & s = a; a = s; a = std::move(s); a.swap(s); break; }
		case 6: a.push_back('p'); m.splice(m.n, 0, 1, 'p'); break; case 7: a.append(50, 'q'); m.splice(m.n, 0, 50, 'q'); break; case 8: a += b; m.splice(m.n, 0, k.d, k.n); break; case 9: a += a; { char t[120]; std::memcpy(t, m.d, m.n); m.splice(m.n, 0, t, m.n); } break; case 10: a.insert(a.begin() + m.n / 2, std::string_view{w, 30}); m.splice(m.n / 2, 0, w, 30); break; case 11: if(m.n) { a.erase(a.begin()); m.splice(0, 1, w, 0); } break; case 12: a.clear(); m.n = 0; break; case 13: a.shrink_to_fit(); break; case 14: { auto o = a.capacity(); a.reserve(o + 1); sx_assert(a.capacity() > o, "reserve"); break; } case 15: a.resize(60, 'r'); { auto n = m.n; if(n < 60) m.splice(n, 0, 60 - n, 'r'); else m.n = 60; } break; case 16: a.resize(m.n / 2); m.n /= 2; break;
		case 17: a = std::string_view{w, 3}; m.set(w, 3); break; case 18: a.assign(std::string_view{w, 60}); m.set(w, 60); break; case 19: if(m.n) { auto h = m.n / 2; a.assign(std::string_view{a.data() + h, m.n - h}); std::memmove(m.d, m.d + h, m.n - h); m.n -= h; } break; case 20: a.replace(a.begin(), a.begin() + m.n / 2, std::string_view{b}); m.splice(0, m.n / 2, k.d, k.n); break; case 21: { auto t = std::move(a).substr(m.n / 2); model e; e.set(m.d + m.n / 2, m.n - m.n / 2); check(t, e, "substr"); held(a, b, t); a.assign(std::string_view{"rest"}); m.set("rest", 4); break; } case 22: { auto t = a.substr(m.n / 2); model e; e.set(m.d + m.n / 2, m.n - m.n / 2); check(t, e, "substr"); break; } case 23: { auto t = a + b; model e{m}; e.splice(e.n, 0, k.d, k.n); check(t, e, "+"); break; } case 24: swap(a, b); std::swap(m, k); break; case 25: if(m.n) { a.pop_back(); --m.n; } break; case 26: { auto r = a == b; bool e = m.n == k.n; for(std::size_t i{0}; e && i < m.n; ++i) e = m.d[i] == k.d[i]; sx_assert(r == e, "comparison"); break; }
		case 27: { auto t = std::move(a).substr(0, m.n / 2); model e; e.set(m.d, m.n / 2); check(t, e, "substr"); held(a, b, t); a = std::move(t); m.n /= 2; break; } case 28: { a = ptl::string{std::string_view{w, 2}}; m.set(w, 2); break; } case 29: { a = ptl::string{std::string_view{w, 40}}; m.set(w, 40); break; } case 30: { ptl::string t{std::string_view{w, 40}}; a.swap(t); check(t, m, "swap"); held(a, b, t); m.set(w, 40); break; }
	}
}
constexpr std::size_t string_ops{31};
SX_HARNESS(h_string) {
	reset();
	{
		ptl::string a, b; model m, k; auto n = one_of("n", {0, 5, 22, 23, 48}); auto a_kind = sx_pick("a", s_kinds); make(a, m, 0, a_kind, n, "c"); auto o = one_of("o", {3, 22, 30}); auto b_kind = sx_pick("b", s_kinds); make(b, k, 1, b_kind, o, "d"); held(a, b); auto op = sx_pick("op", string_ops); if(op == 26 && n + o > 12) sx_assume(false);
		string_op(op, a, m, b, k); check(a, m, "operation on a string of another module"); check(b, k, "other string"); held(a, b); note(a); usable(a); held(a, b);
	}
	all_released(); sx_reach("end");
}
SX_HARNESS(h_string_no_memory) { // an operation that fails for want of memory leaves the foreign buffer where it is
	reset();
	{
		ptl::string a, b; model m, k; auto n = one_of("n", {5, 23, 48}); auto a_kind = sx_pick("a", s_kinds); auto a_size = n; make(a, m, 0, a_kind, a_size, "c"); auto b_kind = sx_pick("b", s_kinds); auto b_size = one_of("o", {3, 30}); make(b, k, 1, b_kind, b_size, "d"); model x{m}, y{k}; sx_alloc_fail(1); auto op = sx_pick("op", string_ops); if(op == 26 || op == 4) sx_assume(false); auto t = outcome([&] { string_op(op, a, m, b, k); }); sx_alloc_fail(0); sx_assert(t == Thrown::none || t == Thrown::alloc, "what is thrown"); held(a, b);
		if(t == Thrown::none) { check(a, m, "operation"); check(b, k, "other string"); } else { sx_reach("no memory"); bool same_a = a.size() == x.n && same(a.data(), x.d, x.n); if(op != 21 && op != 27 && op != 1) sx_assert(same_a, "a failed operation changes nothing"); usable(b); held(a, b); } usable(a); held(a, b);
	}
	all_released(); sx_reach("end");
}
SX_HARNESS(h_string_history) {
	reset();
	{
		ptl::string s[3]; model m[3]; foreign(s[0], 0, "abc", 3, 48); m[0].set("abc", 3); foreign(s[1], 1, "0123456789012345678901234567", 28, 50); m[1].set("0123456789012345678901234567", 28); if(sx_pick("third", 2)) { s[2].append(40, 'z'); m[2].splice(0, 0, 40, 'z'); }
		for(unsigned i{0}; i < (SX_THOROUGH ? 4u : 3u); ++i) {
			auto w = sx_pick("which", 3); auto & a = s[w]; auto & x = m[w]; auto & b = s[(w + 1) % 3]; auto & y = m[(w + 1) % 3];
			switch(sx_pick("op", 7)) { case 0: a.swap(b); std::swap(x, y); break; case 1: a = std::move(b); x = y; b = std::string_view{"m"}; y.set("m", 1); break; case 2: a = static_cast<const ptl::string &>(b); x = y; break; case 3: a.append(45, 'g'); x.splice(x.n, 0, 45, 'g'); break; case 4: a.resize(4, 'f'); if(x.n < 4) x.splice(x.n, 0, 4 - x.n, 'f'); x.n = 4; a.shrink_to_fit(); break; case 5: { ptl::string t{std::move(a)}; a = std::move(b); b = std::move(t); std::swap(x, y); break; } case 6: { std::swap(a, b); std::swap(x, y); break; } }
			for(int j{0}; j < 3; ++j) check(s[j], m[j], "history"); held(s[0], s[1], s[2]);
		}
	}
	all_released(); sx_reach("end");
}

// vectors
template<typename T> using vdrop_t = void(*)(T *) noexcept;
template<typename T> static vdrop_t<T> dropper(int k) { vdrop_t<T> const d[]{drop_elements<T, 0>, drop_elements<T, 1>, drop_elements<T, 2>}; return d[k]; }
template<typename T> static void foreign(ptl::vector<T> & v, int k, const std::uint16_t * p, std::size_t n, std::size_t cap) { in_use[k] = true; auto e = reinterpret_cast<T *>(elements[k]); for(std::size_t i{0}; i < n; ++i) new(e + i) T(p[i]); struct { vdrop_t<T> d; T * p; std::size_t cap, siz; } raw{dropper<T>(k), e, cap, n}; std::memcpy(static_cast<void *>(&v), &raw, 32); }
template<typename T> static void make(ptl::vector<T> & v, vmodel & m, int k, std::size_t kind, std::size_t n, const char * name) { m.n = n; sx_bytes(m.d, 2 * n, name); switch(kind) { case 0: if(n) sx_assume(false); break; case 1: for(std::size_t i{0}; i < n; ++i) v.push_back(T(m.d[i])); break; case 2: foreign(v, k, m.d, n, 12); break; } }
template<typename T, typename... S> static void vheld(const S &... s) { for(int k{0}; k < 3; ++k) if(in_use[k]) { int n{0}; ((n += word<void *>(s, 8) == elements[k]), ...); bool paired{true}; ((paired &= (word<vdrop_t<T>>(s, 0) == dropper<T>(k)) == (word<void *>(s, 8) == elements[k])), ...); sx_assert(n == (released[k] ? 0 : 1), released[k] ? "a released buffer is still used" : "a buffer is not released when it is no longer used"); sx_assert(paired, "buffer and deallocator belong together"); if(released[k]) sx_reach("released early"); } }
template<typename T> static void vector_op(std::size_t op, ptl::vector<T> & a, vmodel & m, ptl::vector<T> & b, vmodel & k) {
	std::uint16_t w[40]; for(int i{0}; i < 40; ++i) w[i] = static_cast<std::uint16_t>(100 + i); auto empty = [](ptl::vector<T> & v, vmodel & x) { v.clear(); x.n = 0; };
	switch(op) {
		case 0: a = static_cast<const ptl::vector<T> &>(b); m = k; break; case 1: a = std::move(b); m = k; empty(b, k); break; case 2: a.swap(b); std::swap(m, k); break; case 3: { ptl::vector<T> t{static_cast<const ptl::vector<T> &>(a)}; check(t, m, "copy"); vheld<T>(a, b); break; } case 4: { ptl::vector<T> t{std::move(a)}; check(t, m, "move"); vheld<T>(a, b, t); empty(a, m); vheld<T>(a, b, t); break; } case 5: { auto & s = a; a = s; a = std::move(s); a.swap(s); break; }
		case 6: a.push_back(T(std::uint16_t{7})); m.fill(m.n, 1, 7); break; case 7: { T v(std::uint16_t{8}); a.insert(a.begin(), 20, v); m.fill(0, 20, 8); break; } case 8: if(m.n) { a.push_back(a.front()); m.fill(m.n, 1, m.d[0]); } break; case 9: if(m.n) { a.erase(a.begin()); m.erase(0, 1); } break; case 10: empty(a, m); break; case 11: a.shrink_to_fit(); break; case 12: { auto o = a.capacity(); a.reserve(o + 1); sx_assert(a.capacity() > o, "reserve"); break; } case 13: a.resize(20); { auto n = m.n; m.fill(n, 20 - n, 0); } break; case 14: a.resize(m.n / 2); m.n /= 2; break; case 15: a.assign(w, w + 30); m.set(w, 30); break; case 16: a.assign(w, w + 2); m.set(w, 2); break; case 17: a.insert(a.begin() + m.n / 2, w, w + 3); m.splice(m.n / 2, 0, w, 3); break; case 18: swap(a, b); std::swap(m, k); break; case 19: if(m.n) { a.pop_back(); --m.n; } break; case 20: { ptl::vector<T> t{w, w + 3}; a.swap(t); check(t, m, "swap"); vheld<T>(a, b, t); m.set(w, 3); break; } case 21: a = ptl::vector<T>{w, w + 5}; m.set(w, 5); break; case 22: a = ptl::vector<T>{}; m.n = 0; break; case 23: a.erase(a.begin(), a.end()); m.n = 0; a.shrink_to_fit(); break;
	}
}
constexpr std::size_t vector_ops{24};
template<typename T> static void vectors() {
	ptl::vector<T> a, b; vmodel m, k; auto a_kind = sx_pick("a", 3); auto a_size = one_of("n", {0, 1, 9, 10, 11, 12}); make(a, m, 0, a_kind, a_size, "c"); auto b_kind = sx_pick("b", 3); auto b_size = one_of("o", {0, 2, 12}); make(b, k, 1, b_kind, b_size, "d"); vheld<T>(a, b); vector_op(sx_pick("op", vector_ops), a, m, b, k); check(a, m, "operation on a vector of another module"); check(b, k, "other vector"); vheld<T>(a, b); alive<T>(m.n + k.n); note(a); usable(a); vheld<T>(a, b);
}
SX_HARNESS(h_vector) { reset(); if(sx_pick("type", 2)) vectors<std::uint16_t>(); else vectors<tracked>(); all_released(); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end"); }
template<typename T> static void vectors_no_memory() {
	ptl::vector<T> a, b; vmodel m, k; auto a_kind = sx_pick("a", 3); auto a_size = one_of("n", {0, 9, 12}); make(a, m, 0, a_kind, a_size, "c"); auto b_kind = sx_pick("b", 3); auto b_size = one_of("o", {0, 12}); make(b, k, 1, b_kind, b_size, "d"); vmodel x{m}; auto op = sx_pick("op", vector_ops); bool copies = is_tracked<T> && sx_pick("copy throws", 2); if(copies) fuse.copies = 2; else sx_alloc_fail(1); auto t = outcome([&] { vector_op(op, a, m, b, k); }); sx_alloc_fail(0); fuse = {}; sx_assert(t == Thrown::none || t == Thrown::alloc || t == Thrown::user, "what is thrown"); vheld<T>(a, b);
	if(t == Thrown::none) { check(a, m, "operation"); check(b, k, "other vector"); } else { sx_reach("failed"); if(t == Thrown::alloc && op != 20 && op != 21) { vmodel y; check(a, x, "a failed operation changes nothing"); } usable(b); vheld<T>(a, b); } usable(a); vheld<T>(a, b);
}
SX_HARNESS(h_vector_no_memory) { reset(); if(sx_pick("type", 2)) vectors_no_memory<std::uint16_t>(); else vectors_no_memory<tracked>(); all_released(); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end"); }
SX_HARNESS(h_vector_history) {
	reset();
	{
		using T = tracked; ptl::vector<T> s[3]; vmodel m[3]; std::uint16_t w[12]{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; foreign(s[0], 0, w, 3, 10); m[0].set(w, 3); foreign(s[1], 1, w, 12, 12); m[1].set(w, 12); if(sx_pick("third", 2)) { s[2].assign(w, w + 5); m[2].set(w, 5); }
		for(unsigned i{0}; i < (SX_THOROUGH ? 4u : 3u); ++i) {
			auto q = sx_pick("which", 3); auto & a = s[q]; auto & x = m[q]; auto & b = s[(q + 1) % 3]; auto & y = m[(q + 1) % 3];
			switch(sx_pick("op", 6)) { case 0: a.swap(b); std::swap(x, y); break; case 1: a = std::move(b); x = y; b.clear(); y.n = 0; break; case 2: a = static_cast<const ptl::vector<T> &>(b); x = y; break; case 3: a.insert(a.end(), w, w + 8); x.splice(x.n, 0, w, 8); break; case 4: a.resize(2, T(std::uint16_t{9})); { if(x.n < 2) x.fill(x.n, 2 - x.n, 9); x.n = 2; } a.shrink_to_fit(); break; case 5: { ptl::vector<T> t{std::move(a)}; a = std::move(b); b = std::move(t); std::swap(x, y); break; } }
			for(int j{0}; j < 3; ++j) check(s[j], m[j], "history"); vheld<T>(s[0], s[1], s[2]); sx_assert(sx_life_count() == m[0].n + m[1].n + m[2].n, "alive");
		}
	}
	all_released(); sx_assert(sx_life_count() == 0, "all elements destroyed"); sx_reach("end");
}
