// Path-condition solver: models, evaluation, independent slicing, query cache, Z3 (QF_BV).
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <memory>
#include <chrono>
#include <stdexcept>
#include <map>

namespace sx {
struct Model { uint64_t id; std::vector<uint64_t> v; };
using ModelRef = std::shared_ptr<const Model>;

enum class Sat { no, yes, unknown };

class Solver {
	Pool & p;
	Z3_context ctx;
	std::vector<Z3_ast> bvMemo, boolMemo;
	std::vector<uint64_t> memoStamp, memoVal;
	uint64_t nextModel{1};
	struct Cached { Sat r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
	struct VecHash { size_t operator()(const std::vector<uint32_t> & v) const { size_t h{1469598103934665603ull}; for(auto x : v) h = (h ^ x) * 1099511628211ull; return h; } };
	std::unordered_map<std::vector<uint32_t>, Cached, VecHash> cache;
	Z3_solver s, quick; // quick: incremental core with a small budget, tried first
	Z3_sort bvSort(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
	static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
public:
	unsigned timeoutMs{20000};
	std::string dumpDir; unsigned dumpEvery{0}, dumped{0};
	struct Stats { uint64_t queries{0}, sat{0}, unsat{0}, unknown{0}, cacheHits{0}, free{0}; double time{0}, maxTime{0}; } st;

	explicit Solver(Pool & p) : p{p} {
		auto cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
		ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
		Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e)); });
		mkSolver();
	}
	void mkSolver() {
		s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
		Z3_solver_inc_ref(ctx, s);
		auto ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps);
		Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
		Z3_solver_set_params(ctx, s, ps); Z3_params_dec_ref(ctx, ps);
		quick = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, quick);
		ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps); Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "rlimit"), 50000);
		Z3_solver_set_params(ctx, quick, ps); Z3_params_dec_ref(ctx, ps);
	}
	ModelRef emptyModel() { return std::make_shared<const Model>(Model{nextModel++, {}}); }

	// value of a variable no constraint has mentioned: scattered for characters and elements, 0 for choices
	uint64_t unset(uint64_t id) const { auto w = p.vars[id].width; return w > 16 || w == 1 ? 0 : ((id + 1) * 0x9E3779B97F4A7C15ull >> 40) & Pool::mask(w); }

	// ---- evaluation under a model
	unsigned __int128 evalWide(E e, const Model & m) {
		if(e->width <= 64) return eval(e, m);
		switch(e->op) {
			case Op::Concat: return (e->b->width >= 128 ? 0 : evalWide(e->a, m) << e->b->width) | evalWide(e->b, m);
			case Op::ZExt: return evalWide(e->a, m);
			case Op::Ite: return eval(e->a, m) ? evalWide(e->b, m) : evalWide(e->c, m);
			case Op::Extract: if(e->a->width <= 128) return evalWide(e->a, m) >> e->val; break;
			case Op::Or: return evalWide(e->a, m) | evalWide(e->b, m);
			case Op::And: return evalWide(e->a, m) & evalWide(e->b, m);
			case Op::Xor: return evalWide(e->a, m) ^ evalWide(e->b, m);
			case Op::Mul: return evalWide(e->a, m) * evalWide(e->b, m);
			case Op::Add: return evalWide(e->a, m) + evalWide(e->b, m);
			case Op::SExt: return (unsigned __int128)(__int128)Pool::sext(eval(e->a, m), e->a->width);
			default: break;
		}
		throw std::runtime_error("evalWide: unsupported " + show(p, e));
	}
	uint64_t eval(E e, const Model & m) {
		switch(e->op) {
			case Op::Const: return e->val;
			case Op::Var: return e->val < m.v.size() ? m.v[e->val] : unset(e->val);
			default: break;
		}
		if(e->id >= memoStamp.size()) { memoStamp.resize(p.count() * 2 + 1024, 0); memoVal.resize(memoStamp.size()); }
		if(memoStamp[e->id] == m.id) return memoVal[e->id];
		uint64_t r{0}; const auto w = e->width; const auto M = Pool::mask(w);
		if(w > 64) throw std::runtime_error("eval: wide expression");
		if(e->op == Op::Ite) r = eval(e->a, m) ? eval(e->b, m) : eval(e->c, m);
		else if(e->op == Op::Extract) r = (uint64_t)(e->a->width > 64 ? evalWide(e->a, m) >> e->val : eval(e->a, m) >> e->val) & M;
		else if(e->a->width > 64 || (e->b && e->b->width > 64)) {
			auto x = evalWide(e->a, m), y = evalWide(e->b, m);
			unsigned __int128 W = e->a->width >= 128 ? ~(unsigned __int128)0 : ((unsigned __int128)1 << e->a->width) - 1; x &= W; y &= W;
			switch(e->op) { case Op::Eq: r = x == y; break; case Op::Ult: r = x < y; break; default: throw std::runtime_error("eval: wide operand"); }
		} else {
			uint64_t a = eval(e->a, m), b = e->b ? eval(e->b, m) : 0;
			const auto aw = e->a->width;
			switch(e->op) {
				case Op::Add: r = a + b; break;
				case Op::Sub: r = a - b; break;
				case Op::Mul: r = a * b; break;
				case Op::UDiv: r = b ? a / b : ~0ull; break;
				case Op::URem: r = b ? a % b : a; break;
				case Op::SDiv: { auto x = Pool::sext(a, w), y = Pool::sext(b, w); r = y == 0 ? (x < 0 ? 1 : ~0ull) : y == -1 ? 0 - a : (uint64_t)(x / y); break; }
				case Op::SRem: { auto x = Pool::sext(a, w), y = Pool::sext(b, w); r = y == 0 ? a : y == -1 ? 0 : (uint64_t)(x % y); break; }
				case Op::And: r = a & b; break;
				case Op::Or: r = a | b; break;
				case Op::Xor: r = a ^ b; break;
				case Op::Shl: r = b >= w ? 0 : a << b; break;
				case Op::LShr: r = b >= w ? 0 : a >> b; break;
				case Op::AShr: r = (uint64_t)(Pool::sext(a, w) >> (b >= w ? w - 1 : b)); break;
				case Op::Eq: r = a == b; break;
				case Op::Ult: r = a < b; break;
				case Op::Ule: r = a <= b; break;
				case Op::Slt: r = Pool::sext(a, aw) < Pool::sext(b, aw); break;
				case Op::Sle: r = Pool::sext(a, aw) <= Pool::sext(b, aw); break;
				case Op::Concat: r = a << e->b->width | b; break;
				case Op::ZExt: r = a; break;
				case Op::SExt: r = (uint64_t)Pool::sext(a, aw); break;
				default: throw std::runtime_error("eval: op");
			}
			r &= M;
		}
		memoStamp[e->id] = m.id; memoVal[e->id] = r;
		return r;
	}

	// ---- Z3 translation
	Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, bvSort(w)); }
	Z3_ast toBool(E e) {
		if(e->id >= boolMemo.size()) boolMemo.resize(p.count() * 2 + 1024, nullptr);
		if(boolMemo[e->id]) return boolMemo[e->id];
		Z3_ast r;
		switch(e->op) {
			case Op::Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
			case Op::Eq: r = e->a->width == 1 ? Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)) : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Ult: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Ule: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Slt: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Sle: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::And: { Z3_ast x[]{toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
			case Op::Or: { Z3_ast x[]{toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
			case Op::Xor: r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break;
			case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
			default: r = Z3_mk_eq(ctx, toBV(e), num(1, 1)); break;
		}
		Z3_inc_ref(ctx, r); boolMemo.resize(std::max<size_t>(boolMemo.size(), e->id + 1), nullptr);
		return boolMemo[e->id] = r;
	}
	Z3_ast toBV(E e) {
		if(e->id >= bvMemo.size()) bvMemo.resize(p.count() * 2 + 1024, nullptr);
		if(bvMemo[e->id]) return bvMemo[e->id];
		Z3_ast r;
		switch(e->op) {
			case Op::Const: r = num(e->val, e->width); break;
			case Op::Var: { char n[32]; snprintf(n, sizeof n, "v%llu", (unsigned long long)e->val); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), bvSort(e->width)); break; }
			case Op::Add: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Sub: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Mul: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::UDiv: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::SDiv: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::URem: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::SRem: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::And: r = Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Or: r = Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Xor: r = Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Shl: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::LShr: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::AShr: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Concat: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
			case Op::Extract: r = Z3_mk_extract(ctx, (unsigned)e->val + e->width - 1, (unsigned)e->val, toBV(e->a)); break;
			case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->width - e->a->width, toBV(e->a)); break;
			case Op::SExt: r = Z3_mk_sign_ext(ctx, e->width - e->a->width, toBV(e->a)); break;
			case Op::Ite: r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->c)); break;
			default: r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1)); break;
		}
		Z3_inc_ref(ctx, r); bvMemo.resize(std::max<size_t>(bvMemo.size(), e->id + 1), nullptr);
		return bvMemo[e->id] = r;
	}

	static bool intersects(const std::vector<uint32_t> & a, const std::vector<uint32_t> & b) {
		size_t i{0}, j{0};
		while(i < a.size() && j < b.size()) { if(a[i] == b[j]) return true; if(a[i] < b[j]) ++i; else ++j; }
		return false;
	}

	// Is  constraints /\ cond  satisfiable?  base is a model of constraints; on yes, out is a model of both.
	Sat check(const std::vector<E> & cs, const ModelRef & base, E cond, ModelRef & out) {
		if(cond == p.fls()) return Sat::no;
		if(eval(cond, *base)) { ++st.free; out = base; return Sat::yes; }
		E notCond = p.neg(cond);
		std::vector<E> slice{cond}; std::vector<uint32_t> vars = cond->vars->v;
		std::vector<char> used(cs.size(), 0);
		for(bool again{true}; again;) {
			again = false;
			for(size_t i{0}; i < cs.size(); ++i) if(!used[i]) {
				if(cs[i] == notCond) return Sat::no;
				if(intersects(vars, cs[i]->vars->v)) {
					used[i] = 1; slice.push_back(cs[i]);
					std::vector<uint32_t> u; std::set_union(vars.begin(), vars.end(), cs[i]->vars->v.begin(), cs[i]->vars->v.end(), std::back_inserter(u));
					if(u.size() != vars.size()) { vars.swap(u); again = true; }
				}
			}
		}
		std::vector<uint32_t> key; for(auto e : slice) key.push_back(e->id);
		std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
		auto it = cache.find(key);
		const Cached * c;
		if(it != cache.end()) { ++st.cacheHits; c = &it->second; }
		else { auto r = solve(slice, vars); c = &cache.emplace(std::move(key), std::move(r)).first->second; }
		if(c->r == Sat::yes) {
			auto m = std::make_shared<Model>(Model{nextModel++, base->v});
			for(auto & [id, v] : c->vals) { while(id >= m->v.size()) m->v.push_back(unset(m->v.size())); m->v[id] = v; }
			out = m;
		}
		return c->r;
	}
private:
	Cached solve(const std::vector<E> & slice, const std::vector<uint32_t> & vars) {
		auto t0 = now();
		auto s = quick; Z3_solver_reset(ctx, s);
		for(auto e : slice) Z3_solver_assert(ctx, s, toBool(e));
		auto r = Z3_solver_check(ctx, s);
		if(r == Z3_L_UNDEF) {
			s = this->s; Z3_solver_reset(ctx, s);
			for(auto e : slice) Z3_solver_assert(ctx, s, toBool(e));
			r = Z3_solver_check(ctx, s);
		}
		Cached c{r == Z3_L_TRUE ? Sat::yes : r == Z3_L_FALSE ? Sat::no : Sat::unknown, {}};
		if(c.r == Sat::yes) {
			auto m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
			for(auto v : vars) {
				Z3_ast o; uint64_t x{0};
				if(Z3_model_eval(ctx, m, toBV(p.varById(v)), true, &o)) Z3_get_numeral_uint64(ctx, o, &x);
				c.vals.emplace_back(v, x);
			}
			Z3_model_dec_ref(ctx, m);
		}
		auto dt = now() - t0;
		if(!dumpDir.empty() && dumpEvery && st.queries % dumpEvery == 0 && c.r != Sat::unknown) {
			char fn[512]; snprintf(fn, sizeof fn, "%s/q%d_%llu.smt2", dumpDir.c_str(), (int)getpid(), (unsigned long long)st.queries);
			if(auto f = fopen(fn, "w")) { fprintf(f, "; expect %s\n(set-logic QF_BV)\n%s(check-sat)\n", c.r == Sat::yes ? "sat" : "unsat", Z3_solver_to_string(ctx, s)); fclose(f); ++dumped; }
		}
		++st.queries; st.time += dt; st.maxTime = std::max(st.maxTime, dt);
		if(c.r == Sat::yes) ++st.sat; else if(c.r == Sat::no) ++st.unsat; else ++st.unknown;
		return c;
	}
};
}
