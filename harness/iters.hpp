// Iterator kinds and sequence models shared by the harnesses.
#pragma once
#include "sx.hpp"

namespace sx {
	// elements are represented by 16 bits
	inline std::uint16_t val(std::uint16_t v) { return v; }
	inline std::uint16_t val(int v) { return static_cast<std::uint16_t>(v); }
	inline std::uint16_t val(unsigned char v) { return v; }
	template<bool B> std::uint16_t val(const tracked_t<B> & v) { return v.get(); }
	template<typename T> constexpr bool is_tracked = false;
	template<bool B> constexpr bool is_tracked<tracked_t<B>> = true;
	template<typename T> void alive(std::size_t n) { if constexpr(is_tracked<T>) sx_assert(sx_life_count() == n, "number of elements alive"); }

	// partially ordered values: how 1 and 2 of a kind relate is chosen by the solver (less, equal, greater, unordered as with NaN, or equivalent but not equal)
	template<int Kind> struct partial { std::uint8_t who;
		static inline std::uint8_t rel;
		static std::uint8_t ask(const partial & l, const partial & r) { if(l.who == r.who) return 1; return l.who < r.who ? rel : rel >= 3 ? rel : 2 - rel; } // 0 less, 1 equal, 2 greater, 3 unordered, 4 equivalent, not equal
		friend bool operator==(const partial & l, const partial & r) { return ask(l, r) == 1; } friend bool operator!=(const partial & l, const partial & r) { return ask(l, r) != 1; } friend bool operator<(const partial & l, const partial & r) { return ask(l, r) == 0; }
		friend bool operator<=(const partial & l, const partial & r) { auto a = ask(l, r); return a <= 1 || a == 4; } friend bool operator>(const partial & l, const partial & r) { return ask(l, r) == 2; } friend bool operator>=(const partial & l, const partial & r) { auto a = ask(l, r); return a == 1 || a == 2 || a == 4; }
	};
	template<typename L, typename R> void related(const L & l, const R & r, std::uint8_t rel) { // rel: 0 less, 1 equal, 2 greater, 3 unordered, 4 equivalent, not equal
		sx_assert((l == r) == (rel == 1), "=="); sx_assert((l != r) == (rel != 1), "!="); sx_assert((l < r) == (rel == 0), "<"); sx_assert((l <= r) == (rel <= 1 || rel == 4), "<="); sx_assert((l > r) == (rel == 2), ">"); sx_assert((l >= r) == (rel == 1 || rel == 2 || rel == 4), ">="); sx_note("rel", rel);
	}

	inline int it_fuse{-1}; // dereferences left before an iterator throws; negative: never
	inline void it_burn() { if(it_fuse >= 0 && it_fuse-- == 0) throw user_error{2}; }

	// single pass: all copies share the position of the source, as with istream iterators
	template<typename T> struct input_src { const T * cur; const T * last; };
	template<typename T> struct input_it {
		using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
		input_src<T> * src{nullptr};
		const T & operator*() const { it_burn(); if(!src || src->cur == src->last) sx_fail("input iterator dereferenced at its end"); return *src->cur; }
		const T * operator->() const { return &**this; }
		input_it & operator++() { if(!src || src->cur == src->last) sx_fail("input iterator advanced past its end"); ++src->cur; return *this; }
		input_it operator++(int) { auto t{*this}; ++*this; return t; }
		bool at_end() const { return !src || src->cur == src->last; }
		friend bool operator==(const input_it & a, const input_it & b) { return a.at_end() == b.at_end(); }
		friend bool operator!=(const input_it & a, const input_it & b) { return !(a == b); }
	};
	template<typename T, typename Tag> struct multi_it { // forward or bidirectional only
		using iterator_category = Tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
		const T * p{nullptr};
		const T & operator*() const { it_burn(); return *p; }
		const T * operator->() const { return p; }
		multi_it & operator++() { ++p; return *this; }
		multi_it operator++(int) { auto t{*this}; ++p; return t; }
		multi_it & operator--() { --p; return *this; }
		multi_it operator--(int) { auto t{*this}; --p; return t; }
		friend bool operator==(const multi_it & a, const multi_it & b) { return a.p == b.p; }
		friend bool operator!=(const multi_it & a, const multi_it & b) { return a.p != b.p; }
	};
	template<typename T> using fwd_it = multi_it<T, std::forward_iterator_tag>;
	template<typename T> using bidi_it = multi_it<T, std::bidirectional_iterator_tag>;

	// an initializer_list over n elements at p (libstdc++ layout)
	template<typename T> std::initializer_list<T> il(const T * p, std::size_t n) {
		struct { const T * p; std::size_t n; } raw{p, n}; std::initializer_list<T> r;
		static_assert(sizeof(raw) == sizeof(r)); std::memcpy(static_cast<void *>(&r), &raw, sizeof(r)); return r;
	}

	// a position 0..n: all of them when few, otherwise the ends, the middle and the representation boundaries
	inline std::size_t position(const char * name, std::size_t n, std::size_t few = 6) {
		if(n <= few) return sx_concretize(sx_range(name, 0, n));
		std::size_t c[]{0, 1, n / 2, n - 1, n, 22}; auto k = sx_pick(name, n > 23 ? 6 : 5); return c[k];
	}
}
