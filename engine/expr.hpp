// Bit-vector expressions: hash-consed, constant-folded, with their variable sets.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>

namespace sx {
enum class Op : uint8_t { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle, Concat, Extract, ZExt, SExt, Ite };

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
	Op op; bool uninit; uint32_t width; uint32_t id; uint64_t val; // val: constant / variable number / extract low bit
	const Expr * a, * b, * c;
	const VarSet * vars;
};
using E = const Expr *;

struct VarInfo { std::string name; uint32_t width; bool uninit; };

class Pool {
	struct Key { uint64_t h; Expr e; };
	struct Hash { size_t operator()(const Expr * e) const {
		uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull ^ e->width * 0xC2B2AE3D27D4EB4Full ^ e->val * 0x165667B19E3779F9ull;
		h ^= (uint64_t)(uintptr_t)e->a * 0x85EBCA77C2B2AE63ull; h = (h << 13) | (h >> 51);
		h ^= (uint64_t)(uintptr_t)e->b * 0x27D4EB2F165667C5ull; h = (h << 17) | (h >> 47);
		h ^= (uint64_t)(uintptr_t)e->c * 0x9E3779B185EBCA87ull; h ^= h >> 29; return h; } };
	struct Eq_ { bool operator()(const Expr * x, const Expr * y) const {
		return x->op == y->op && x->width == y->width && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c; } };
	std::unordered_set<const Expr *, Hash, Eq_> table;
	std::vector<Expr *> chunks; size_t used{0}; static constexpr size_t CH{4096};
	struct VSHash { size_t operator()(const VarSet * s) const { size_t h{1469598103934665603ull}; for(auto x : s->v) h = (h ^ x) * 1099511628211ull; return h; } };
	struct VSEq { bool operator()(const VarSet * x, const VarSet * y) const { return x->v == y->v; } };
	std::unordered_set<const VarSet *, VSHash, VSEq> vsets;
	const VarSet * empty;
	E byteConst[256]; E bit0, bit1;
	uint32_t nextId{0};

	const VarSet * internVS(VarSet && s) {
		auto it = vsets.find(&s);
		if(it != vsets.end()) return *it;
		auto p = new VarSet(std::move(s)); vsets.insert(p); return p;
	}
	const VarSet * unite(const VarSet * x, const VarSet * y) {
		if(x == y || y->v.empty()) return x;
		if(x->v.empty()) return y;
		VarSet r; r.v.reserve(x->v.size() + y->v.size());
		std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r.v));
		return internVS(std::move(r));
	}
	E mk(Op op, uint32_t w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr) {
		Expr t{op, false, w, 0, val, a, b, c, nullptr};
		auto it = table.find(&t);
		if(it != table.end()) { auto same = same_[(*it)->id]; return same ? same : *it; }
		E e = fresh(t);
		if(auto same = canonical(e)) { same_[e->id] = same; return same; }
		return e;
	}
	E fresh(const Expr & t) {
		const auto op = t.op; const auto val = t.val; auto a = t.a, b = t.b, c = t.c;
		if(chunks.empty() || used == CH) { chunks.push_back((Expr *)malloc(sizeof(Expr) * CH)); used = 0; }
		Expr * e = &chunks.back()[used++];
		*e = t; e->id = nextId++;
		if(op == Op::Var) { VarSet s; s.v.push_back((uint32_t)val); e->vars = internVS(std::move(s)); e->uninit = vars[val].uninit; }
		else {
			const VarSet * vs = empty;
			if(a) { vs = unite(vs, a->vars); e->uninit |= a->uninit; }
			if(b) { vs = unite(vs, b->vars); e->uninit |= b->uninit; }
			if(c) { vs = unite(vs, c->vars); e->uninit |= c->uninit; }
			e->vars = vs;
		}
		table.insert(e); same_.push_back(nullptr); bits_.push_back(none);
		return e;
	}

	// ---- bit level view: every bit of an expression is a literal of an and/xor graph over opaque bits; expressions with
	// the same literals are represented by one node, so that values rearranged bit by bit compare equal without a solver.
	using Lit = uint32_t; // node * 2 + negated; 0 false, 1 true
	static constexpr uint32_t none{~0u};
	std::vector<E> same_; std::vector<uint32_t> bits_; std::vector<Lit> lits; uint32_t nodes{1};
	std::unordered_map<uint64_t, uint32_t> ands, xors;
	std::unordered_multimap<uint64_t, E> byBits;
	Lit land(Lit x, Lit y) {
		if(x == y) return x;
		if(x == (y ^ 1) || x == 0 || y == 0) return 0;
		if(x == 1) return y;
		if(y == 1) return x;
		if(x > y) std::swap(x, y);
		auto [it, n] = ands.emplace((uint64_t)x << 32 | y, nodes); if(n) ++nodes; return it->second * 2;
	}
	Lit lxor(Lit x, Lit y) {
		Lit s = (x ^ y) & 1; x &= ~1u; y &= ~1u;
		if(x == y) return s;
		if(x == 0) return y ^ s;
		if(y == 0) return x ^ s;
		if(x > y) std::swap(x, y);
		auto [it, n] = xors.emplace((uint64_t)x << 32 | y, nodes); if(n) ++nodes; return (it->second * 2) ^ s;
	}
	Lit lor(Lit x, Lit y) { return land(x ^ 1, y ^ 1) ^ 1; }
	Lit lite(Lit c, Lit x, Lit y) {
		if(x == y) return x;
		if(c == 1) return x;
		if(c == 0) return y;
		if(x == (y ^ 1)) return lxor(c, y);
		return lor(land(c, x), land(c ^ 1, y));
	}
	static bool bitwise(Op op) { switch(op) { case Op::And: case Op::Or: case Op::Xor: case Op::Concat: case Op::Extract: case Op::ZExt: case Op::SExt: case Op::Ite: return true; default: return false; } }
	uint32_t bits(E e) { // offset of the literals of e; none: too wide
		if(e->width > 64) return none;
		if(bits_[e->id] != none) return bits_[e->id];
		uint32_t x{none}, y{none}, z{none};
		if(bitwise(e->op)) { x = bits(e->a); if(e->b) y = bits(e->b); if(e->c) z = bits(e->c); }
		auto r = (uint32_t)lits.size(); lits.resize(r + e->width);
		bool opaque = !bitwise(e->op) || x == none || (e->b && y == none) || (e->c && z == none);
		if(e->op == Op::Const) for(uint32_t i{0}; i < e->width; ++i) lits[r + i] = (e->val >> i) & 1;
		else if(opaque) for(uint32_t i{0}; i < e->width; ++i) lits[r + i] = nodes++ * 2;
		else for(uint32_t i{0}; i < e->width; ++i) switch(e->op) {
			case Op::And: { auto l = land(lits[x + i], lits[y + i]); lits[r + i] = l; break; }
			case Op::Or: { auto l = lor(lits[x + i], lits[y + i]); lits[r + i] = l; break; }
			case Op::Xor: { auto l = lxor(lits[x + i], lits[y + i]); lits[r + i] = l; break; }
			case Op::Concat: lits[r + i] = i < e->b->width ? lits[y + i] : lits[x + i - e->b->width]; break;
			case Op::Extract: lits[r + i] = lits[x + i + (uint32_t)e->val]; break;
			case Op::ZExt: lits[r + i] = i < e->a->width ? lits[x + i] : 0; break;
			case Op::SExt: lits[r + i] = lits[x + std::min(i, e->a->width - 1)]; break;
			case Op::Ite: { auto l = lite(lits[x], lits[y + i], lits[z + i]); lits[r + i] = l; break; }
			default: abort();
		}
		return bits_[e->id] = r;
	}
	E canonical(E e) {
		if(e->width > 64 || !(bitwise(e->op) || e->op == Op::Var)) return nullptr;
		auto r = bits(e); if(r == none) return nullptr;
		bool c{true}; uint64_t v{0}, h{e->width};
		for(uint32_t i{0}; i < e->width; ++i) { auto l = lits[r + i]; if(l > 1) c = false; else v |= (uint64_t)l << i; h = (h ^ l) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
		if(c) return cst(v, e->width);
		auto [x, y] = byBits.equal_range(h);
		for(auto i = x; i != y; ++i) { E o = i->second; if(o->width == e->width && std::equal(lits.begin() + r, lits.begin() + r + e->width, lits.begin() + bits_[o->id])) {
			if(o->uninit && !e->uninit) { i->second = e; return nullptr; }
			return o;
		} }
		byBits.emplace(h, e); return nullptr;
	}
	// both sides known bit by bit: nullptr unless that decides the comparison or leaves a single bit
	E eqBits(E a, E b) {
		if(!bitwise(a->op) || !(isC(b) || bitwise(b->op))) return nullptr;
		auto x = bits(a), y = bits(b); if(x == none || y == none) return nullptr;
		uint32_t open{0}, at{0};
		for(uint32_t i{0}; i < a->width; ++i) { auto l = lits[x + i], m = lits[y + i]; if(l == m) continue; if(l == (m ^ 1)) return bit0; ++open; at = i; }
		if(!open) return bit1;
		if(open == 1 && isC(b) && a->width > 1) { auto k = extract(a, at, 1); return (b->val >> at) & 1 ? k : neg(k); }
		return nullptr;
	}
public:
	std::vector<VarInfo> vars;
	Pool() { byBits.reserve(1 << 14); empty = internVS(VarSet{}); table.reserve(1 << 16);
		for(unsigned i = 0; i < 256; ++i) byteConst[i] = mk(Op::Const, 8, i);
		bit0 = mk(Op::Const, 1, 0); bit1 = mk(Op::Const, 1, 1); }
	uint32_t count() const { return nextId; }

	static uint64_t mask(uint32_t w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
	static int64_t sext(uint64_t v, uint32_t w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

	E cst(uint64_t v, uint32_t w) {
		if(w > 64) { return concat(cst(0, w - 64), cst(v, 64)); }
		v &= mask(w);
		if(w == 8) return byteConst[v];
		if(w == 1) return v ? bit1 : bit0;
		return mk(Op::Const, w, v);
	}
	E byte(uint8_t v) { return byteConst[v]; }
	E tru() { return bit1; }
	E fls() { return bit0; }
	E var(const std::string & name, uint32_t w, bool uninit = false) { vars.push_back({name, w, uninit}); return mk(Op::Var, w, vars.size() - 1); }
	E varById(uint32_t id) { return mk(Op::Var, vars[id].width, id); }
	static bool isC(E e) { return e->op == Op::Const; }

	E add(E a, E b) {
		if(isC(a) && isC(b)) return cst(a->val + b->val, a->width);
		if(isC(a)) std::swap(a, b);
		if(isC(b)) {
			if(b->val == 0) return a;
			if(a->op == Op::Add && isC(a->b)) return add(a->a, cst(a->b->val + b->val, a->width));
			if(a->op == Op::Ite && isC(a->b) && isC(a->c)) return ite(a->a, add(a->b, b), add(a->c, b));
		}
		return mk(Op::Add, a->width, 0, a, b);
	}
	E sub(E a, E b) {
		if(isC(a) && isC(b)) return cst(a->val - b->val, a->width);
		if(isC(b)) return add(a, cst(0 - b->val, a->width));
		if(a == b) return cst(0, a->width);
		if(a->op == Op::Add && a->a == b) return a->b;
		if(a->op == Op::Add && a->b == b) return a->a;
		if(a->op == Op::Add && isC(a->b) && b->op == Op::Add && isC(b->b) && a->a == b->a) return cst(a->b->val - b->b->val, a->width);
		if(a->op == Op::Add && isC(a->b)) return add(sub(a->a, b), a->b);
		if(b->op == Op::Add && isC(b->b)) return add(sub(a, b->a), cst(0 - b->b->val, a->width));
		return mk(Op::Sub, a->width, 0, a, b);
	}
	E mul(E a, E b) {
		if(isC(a) && isC(b)) return cst(a->val * b->val, a->width);
		if(isC(a)) std::swap(a, b);
		if(isC(b)) {
			if(b->val == 0) return b;
			if(b->val == 1) return a;
			if(a->width <= 64 && (b->val & (b->val - 1)) == 0) return shl(a, cst(__builtin_ctzll(b->val), a->width));
		}
		return mk(Op::Mul, a->width, 0, a, b);
	}
	E udiv(E a, E b) {
		if(isC(a) && isC(b) && b->val) return cst(a->val / b->val, a->width);
		if(isC(b) && b->val && (b->val & (b->val - 1)) == 0) return lshr(a, cst(__builtin_ctzll(b->val), a->width));
		return mk(Op::UDiv, a->width, 0, a, b);
	}
	E urem(E a, E b) {
		if(isC(a) && isC(b) && b->val) return cst(a->val % b->val, a->width);
		if(isC(b) && b->val && (b->val & (b->val - 1)) == 0) return band(a, cst(b->val - 1, a->width));
		return mk(Op::URem, a->width, 0, a, b);
	}
	E sdiv(E a, E b) {
		if(isC(a) && isC(b) && b->val) { auto x = sext(a->val, a->width), y = sext(b->val, b->width); if(y == -1) return cst(0 - a->val, a->width); return cst((uint64_t)(x / y), a->width); }
		if(isC(b) && b->val == 1) return a;
		return mk(Op::SDiv, a->width, 0, a, b);
	}
	E srem(E a, E b) {
		if(isC(a) && isC(b) && b->val) { auto x = sext(a->val, a->width), y = sext(b->val, b->width); if(y == -1) return cst(0, a->width); return cst((uint64_t)(x % y), a->width); }
		return mk(Op::SRem, a->width, 0, a, b);
	}
	E band(E a, E b) {
		if(isC(a) && isC(b)) return cst(a->val & b->val, a->width);
		if(isC(a)) std::swap(a, b);
		if(a == b) return a;
		if(isC(b)) {
			if(b->val == 0) return b;
			if(b->val == mask(b->width)) return a;
			if((b->val & (b->val + 1)) == 0) return zext(extract(a, 0, 64 - __builtin_clzll(b->val)), a->width);
		}
		if(a->width == 1 && neg(a) == b) return bit0;
		if(!isC(b) && a->id > b->id) std::swap(a, b);
		return mk(Op::And, a->width, 0, a, b);
	}
	E bor(E a, E b) {
		if(isC(a) && isC(b)) return cst(a->val | b->val, a->width);
		if(isC(a)) std::swap(a, b);
		if(a == b) return a;
		if(isC(b)) {
			if(b->val == 0) return a;
			if(b->val == mask(b->width) && b->width <= 64) return b;
		}
		if(a->width == 1 && neg(a) == b) return bit1;
		if(a->width > 64) { // disjoint zext/shl combinations made by scalar replacement
			if(auto r = orParts(a, b)) return r;
		}
		if(!isC(b) && a->id > b->id) std::swap(a, b);
		return mk(Op::Or, a->width, 0, a, b);
	}
	E bxor(E a, E b) {
		if(isC(a) && isC(b)) return cst(a->val ^ b->val, a->width);
		if(isC(a)) std::swap(a, b);
		if(a == b) return cst(0, a->width);
		if(isC(b)) {
			if(b->val == 0) return a;
			if(a->op == Op::Xor && isC(a->b)) return bxor(a->a, cst(a->b->val ^ b->val, a->width));
			if(a->width == 1 && a->op == Op::Ite && isC(a->b) && isC(a->c)) return ite(a->a, bxor(a->b, b), bxor(a->c, b));
		}
		if(!isC(b) && a->id > b->id) std::swap(a, b);
		return mk(Op::Xor, a->width, 0, a, b);
	}
	E neg(E a) { return bxor(a, a->width == 1 ? bit1 : cst(~0ull, a->width)); } // bitwise not
	E shl(E a, E b) {
		if(isC(b)) {
			if(b->val >= a->width) return cst(0, a->width);
			if(b->val == 0) return a;
			if(isC(a)) return cst(a->val << b->val, a->width);
			return concat(extract(a, 0, a->width - (uint32_t)b->val), cst(0, (uint32_t)b->val));
		}
		return mk(Op::Shl, a->width, 0, a, b);
	}
	E lshr(E a, E b) {
		if(isC(b)) {
			if(b->val >= a->width) return cst(0, a->width);
			if(b->val == 0) return a;
			if(isC(a)) return cst(a->val >> b->val, a->width);
			return zext(extract(a, (uint32_t)b->val, a->width - (uint32_t)b->val), a->width);
		}
		return mk(Op::LShr, a->width, 0, a, b);
	}
	E ashr(E a, E b) {
		if(isC(b)) {
			if(b->val == 0) return a;
			auto s = std::min<uint64_t>(b->val, a->width - 1);
			if(isC(a)) return cst((uint64_t)(sext(a->val, a->width) >> s), a->width);
			return sxt(extract(a, (uint32_t)s, a->width - (uint32_t)s), a->width);
		}
		return mk(Op::AShr, a->width, 0, a, b);
	}
	E eq(E a, E b) {
		if(a == b) return bit1;
		if(isC(a) && isC(b)) return a->val == b->val ? bit1 : bit0;
		if(isC(a)) std::swap(a, b);
		if(auto r = eqBits(a, b)) return r;
		if(isC(b)) {
			if(a->width == 1) return b->val ? a : neg(a);
			if(a->op == Op::ZExt) { auto iw = a->a->width; if(b->val & ~mask(iw)) return bit0; return eq(a->a, cst(b->val, iw)); }
			if(a->op == Op::SExt) { auto iw = a->a->width; if((uint64_t)sext(b->val & mask(iw), iw) % 1 == 0 && (((uint64_t)sext(b->val & mask(iw), iw)) & mask(a->width)) != b->val) return bit0; return eq(a->a, cst(b->val, iw)); }
			if(a->op == Op::Add && isC(a->b)) return eq(a->a, cst(b->val - a->b->val, a->width));
			if(a->op == Op::Xor && isC(a->b)) return eq(a->a, cst(b->val ^ a->b->val, a->width));
			if(a->op == Op::Ite && (isC(a->b) || isC(a->c))) {
				if(isC(a->b) && isC(a->c)) { bool x = a->b->val == b->val, y = a->c->val == b->val; if(x && y) return bit1; if(!x && !y) return bit0; return x ? a->a : neg(a->a); }
				if(isC(a->b)) return a->b->val == b->val ? bor(a->a, eq(a->c, b)) : band(neg(a->a), eq(a->c, b));
				return a->c->val == b->val ? bor(neg(a->a), eq(a->b, b)) : band(a->a, eq(a->b, b));
			}
			if(a->op == Op::Concat && a->width <= 64) return band(eq(a->a, cst(b->val >> a->b->width, a->a->width)), eq(a->b, cst(b->val, a->b->width)));
		} else {
			if(a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return eq(a->a, b->a);
			if(a->op == Op::Add && isC(a->b) && b->op == Op::Add && isC(b->b) && a->b == b->b) return eq(a->a, b->a);
			if(a->op == Op::Concat && b->op == Op::Concat && a->b->width == b->b->width) return band(eq(a->a, b->a), eq(a->b, b->b));
			if(a->id > b->id) std::swap(a, b);
		}
		return mk(Op::Eq, 1, 0, a, b);
	}
	E ult(E a, E b) {
		if(a == b) return bit0;
		if(isC(a) && isC(b)) return a->val < b->val ? bit1 : bit0;
		if(isC(b) && b->val == 0) return bit0;
		if(isC(a) && a->width <= 64 && a->val == mask(a->width)) return bit0;
		if(isC(b) && b->val == 1) return eq(a, cst(0, a->width));
		if(a->op == Op::ZExt && isC(b)) { auto iw = a->a->width; if(b->val > mask(iw)) return bit1; return ult(a->a, cst(b->val, iw)); }
		if(b->op == Op::ZExt && isC(a)) { auto iw = b->a->width; if(a->val > mask(iw)) return bit0; return ult(cst(a->val, iw), b->a); }
		if(a->op == Op::ZExt && b->op == Op::ZExt && a->a->width == b->a->width) return ult(a->a, b->a);
		if(a->width == 1) return band(neg(a), b);
		return mk(Op::Ult, 1, 0, a, b);
	}
	E ule(E a, E b) { return neg(ult(b, a)); }
	E slt(E a, E b) {
		if(a == b) return bit0;
		if(isC(a) && isC(b)) return sext(a->val, a->width) < sext(b->val, b->width) ? bit1 : bit0;
		if(a->op == Op::ZExt && b->op == Op::ZExt) return ult(a, b);
		if(a->op == Op::ZExt && isC(b)) return sext(b->val, b->width) <= 0 ? bit0 : ult(a, b);
		if(b->op == Op::ZExt && isC(a)) return sext(a->val, a->width) < 0 ? bit1 : ult(a, b);
		if(a->op == Op::Ite && isC(a->b) && isC(a->c) && isC(b)) return ite(a->a, slt(a->b, b), slt(a->c, b));
		if(b->op == Op::Ite && isC(b->b) && isC(b->c) && isC(a)) return ite(b->a, slt(a, b->b), slt(a, b->c));
		return mk(Op::Slt, 1, 0, a, b);
	}
	E sle(E a, E b) { return neg(slt(b, a)); }
	E concat(E hi, E lo) {
		uint32_t w = hi->width + lo->width;
		if(isC(hi) && isC(lo) && w <= 64) return cst(hi->val << lo->width | lo->val, w);
		if(hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->val == lo->val + lo->width) return extract(hi->a, (uint32_t)lo->val, w);
		if(isC(hi) && hi->val == 0) return zext(lo, w);
		if(lo->op == Op::Extract && lo->val == 0 && hi->op == Op::Concat && hi->b->op == Op::Extract && hi->b->a == lo->a && hi->b->val == lo->width)
			return concat(hi->a, extract(lo->a, 0, hi->b->width + lo->width));
		if(lo->op == Op::Concat && hi->op == Op::Extract && lo->a->op == Op::Extract && hi->a == lo->a->a && hi->val == lo->a->val + lo->a->width)
			return concat(extract(hi->a, (uint32_t)lo->a->val, hi->width + lo->a->width), lo->b);
		return mk(Op::Concat, w, 0, hi, lo);
	}
	E extract(E a, uint32_t lo, uint32_t w) {
		if(lo == 0 && w == a->width) return a;
		switch(a->op) {
			case Op::Const: return cst(a->val >> lo, w);
			case Op::Extract: return extract(a->a, lo + (uint32_t)a->val, w);
			case Op::Concat: {
				uint32_t lw = a->b->width;
				if(lo + w <= lw) return extract(a->b, lo, w);
				if(lo >= lw) return extract(a->a, lo - lw, w);
				return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo));
			}
			case Op::ZExt: {
				uint32_t iw = a->a->width;
				if(lo + w <= iw) return extract(a->a, lo, w);
				if(lo >= iw) return cst(0, w);
				return zext(extract(a->a, lo, iw - lo), w);
			}
			case Op::SExt: {
				uint32_t iw = a->a->width;
				if(lo + w <= iw) return extract(a->a, lo, w);
				if(lo == 0) return sxt(a->a, w);
				break;
			}
			case Op::Ite:
				if(isC(a->b) || isC(a->c) || a->width > 64) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
				break;
			case Op::And: return band(extract(a->a, lo, w), extract(a->b, lo, w));
			case Op::Or: return bor(extract(a->a, lo, w), extract(a->b, lo, w));
			case Op::Xor: return bxor(extract(a->a, lo, w), extract(a->b, lo, w));
			case Op::Add: if(lo == 0) return add(extract(a->a, 0, w), extract(a->b, 0, w)); break;
			case Op::Sub: if(lo == 0) return sub(extract(a->a, 0, w), extract(a->b, 0, w)); break;
			case Op::Mul: if(lo == 0) return mul(extract(a->a, 0, w), extract(a->b, 0, w)); break;
			default: break;
		}
		return mk(Op::Extract, w, lo, a);
	}
	E zext(E a, uint32_t w) {
		if(w == a->width) return a;
		if(isC(a) && w <= 64) return cst(a->val, w);
		if(a->op == Op::ZExt) return zext(a->a, w);
		if(a->op == Op::Ite && isC(a->b) && isC(a->c) && w <= 64) return ite(a->a, zext(a->b, w), zext(a->c, w));
		return mk(Op::ZExt, w, 0, a);
	}
	E sxt(E a, uint32_t w) {
		if(w == a->width) return a;
		if(isC(a) && w <= 64) return cst((uint64_t)sext(a->val, a->width), w);
		if(a->op == Op::ZExt) return zext(a->a, w);
		if(a->op == Op::SExt) return sxt(a->a, w);
		if(a->op == Op::Ite && isC(a->b) && isC(a->c) && w <= 64) return ite(a->a, sxt(a->b, w), sxt(a->c, w));
		return mk(Op::SExt, w, 0, a);
	}
	E ite(E c, E x, E y) {
		if(x == y) return x;
		if(isC(c)) return c->val ? x : y;
		if(c->op == Op::Xor && isC(c->b)) return ite(c->a, y, x);
		if(x->width == 1) {
			if(x == bit1 && y == bit0) return c;
			if(x == bit0 && y == bit1) return neg(c);
			if(x == bit1) return bor(c, y);
			if(x == bit0) return band(neg(c), y);
			if(y == bit0) return band(c, x);
			if(y == bit1) return bor(neg(c), x);
		}
		if(x->op == Op::Ite && x->a == c) x = x->b;
		if(y->op == Op::Ite && y->a == c) y = y->c;
		if(x == y) return x;
		if(y->op == Op::Ite && y->b == x) return ite(bor(c, y->a), x, y->c);
		return mk(Op::Ite, x->width, 0, c, x, y);
	}
	// or of values whose set bits are known not to overlap: recombine as a concatenation
	E orParts(E a, E b) {
		auto lowZero = [](E e) -> uint32_t { return e->op == Op::Concat && isC(e->b) && e->b->val == 0 ? e->b->width : 0; };
		auto actual = [](E e) -> uint32_t { return e->op == Op::ZExt ? e->a->width : e->width; };
		if(lowZero(b) >= actual(a) && lowZero(b)) { auto k = lowZero(b); return concat(extract(b, k, b->width - k), extract(a, 0, k)); }
		if(lowZero(a) >= actual(b) && lowZero(a)) { auto k = lowZero(a); return concat(extract(a, k, a->width - k), extract(b, 0, k)); }
		return nullptr;
	}
};

inline std::string show(const Pool & p, E e, int depth = 6) {
	char buf[64];
	switch(e->op) {
		case Op::Const: snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->val, e->width); return buf;
		case Op::Var: return p.vars[e->val].name;
		default: break;
	}
	static const char * n[]{"const","var","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","concat","extract","zext","sext","ite"};
	if(!depth) return "...";
	std::string s{"("}; s += n[(int)e->op];
	if(e->op == Op::Extract) { snprintf(buf, sizeof buf, "[%llu+%u]", (unsigned long long)e->val, e->width); s += buf; }
	for(auto x : {e->a, e->b, e->c}) if(x) { s += ' '; s += show(p, x, depth - 1); }
	return s + ")";
}
}
