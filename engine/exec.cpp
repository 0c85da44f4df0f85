// sxe: symbolic executor for LLVM IR (C++ compiled by clang), deciding harness assertions and memory safety with Z3.
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fstream>
#include <sstream>
#include <deque>
#include <functional>
#include <iostream>
#include "state.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

using namespace sx;
namespace {
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct TooDeep {};
volatile sig_atomic_t alarmed{0};
struct Unsupported : std::runtime_error { using runtime_error::runtime_error; };

struct Violation { std::string kind, msg, where, stack, fn; std::vector<std::pair<std::string, uint64_t>> inputs; };
struct Trace { std::vector<std::pair<std::string, uint64_t>> inputs, notes; };
struct Result {
	std::vector<Violation> viols; std::map<std::string, uint64_t> violSeen; std::vector<Trace> traces; std::map<std::string, uint64_t> reach;
	std::set<std::string> functions, problems;
	uint64_t paths{0}, killed{0}, states{0}, steps{0}, forks{0}, asserts{0}, solverAsserts{0}, maxSteps{0}, memChecks{0};
	Solver::Stats q; bool incomplete{false}; uint64_t maxDepth{0};
};

enum class R { next, term };
enum B : int {
	b_none = -1, b_u8, b_u16, b_u32, b_u64, b_range, b_pick, b_bytes, b_assume, b_assert, b_conc, b_reach, b_heap_live, b_alloc_fail, b_life_ctor, b_life_dtor,
	b_life_check, b_life_count, b_note, b_fail, b_noleak, b_symbolic, b_may, b_shared,
	b_new, b_new_nt, b_newa, b_newa_nt, b_new_al, b_newa_al, b_del, b_dela, b_malloc, b_calloc, b_realloc, b_free, b_aligned_alloc,
	b_strlen, b_memcmp, b_memchr, b_memcpy, b_memmove, b_memset, b_strcmp, b_strncmp, b_hash,
	b_exc_alloc, b_exc_free, b_throw, b_begin, b_end, b_rethrow, b_getexc, b_uncaught, b_terminate, b_abort, b_pure, b_guard_acq, b_guard_rel, b_atexit, b_nop, b_zero,
	b_throw_named, b_strchr, b_rawmemchr, b_distinct
};

class Executor {
public:
	llvm::Module & M; const llvm::DataLayout & DL;
	Pool pool; Solver solver{pool};
	std::unordered_map<const llvm::Function *, std::unique_ptr<KFunction>> kfs;
	std::unordered_map<const llvm::GlobalValue *, uint64_t> globalAddr;
	std::vector<const llvm::Function *> funcs;
	std::unordered_map<std::string, std::pair<int, std::string>> builtins;
	std::unordered_map<std::string, uint64_t> typeinfoAddr;
	std::unordered_map<uint64_t, std::vector<uint64_t>> bases;      // typeinfo -> base typeinfos
	std::unordered_map<uint64_t, std::string> typeinfoName;
	std::unordered_map<uint64_t, uint32_t> tiId; 
	std::vector<std::string> names; std::unordered_map<std::string, uint32_t> nameId;
	std::unordered_map<std::string, uint32_t> varKey; 
	std::vector<std::unique_ptr<State>> work; Result * res{nullptr};
	State initial;
	uint64_t maxSteps{60000000}, allocLimit{1u << 20}; unsigned maxViols{3}, sampleMax{40}, chainMax{600}; double deadline{1e300}; uint32_t instUid{0};
	uint64_t rng{88172645463325252ull}, seenPaths{0};
	bool trace{false}, checkAlign{false}; // the packed types hand out references to unaligned members by design

	explicit Executor(llvm::Module & M) : M{M}, DL{M.getDataLayout()} { initBuiltins(); setupGlobals(); }

	uint32_t intern(const std::string & s) { auto [it, n] = nameId.emplace(s, names.size()); if(n) names.push_back(s); return it->second; }
	uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

	// ------------------------------------------------------------------ types
	uint32_t widthOf(llvm::Type * t) {
		if(t->isIntegerTy()) return t->getIntegerBitWidth();
		if(t->isPointerTy()) return 64;
		if(t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
		if(t->isStructTy() || t->isArrayTy()) return (uint32_t)DL.getTypeAllocSize(t) * 8;
		if(t->isFloatTy()) return 32;
		if(t->isDoubleTy()) return 64;
		if(t->isX86_FP80Ty()) return 80;
		std::string s; llvm::raw_string_ostream o{s}; t->print(o); throw Unsupported("type " + o.str());
	}
	uint32_t fieldBit(llvm::Type * t, llvm::ArrayRef<unsigned> idx, llvm::Type *& leaf) {
		uint64_t off{0};
		for(auto i : idx) {
			if(auto s = llvm::dyn_cast<llvm::StructType>(t)) { off += DL.getStructLayout(s)->getElementOffset(i); t = s->getElementType(i); }
			else { t = llvm::cast<llvm::ArrayType>(t)->getElementType(); off += i * DL.getTypeAllocSize(t); }
		}
		leaf = t; return (uint32_t)off * 8;
	}
	// ------------------------------------------------------------------ globals
	uint64_t newObj(State & st, uint64_t size, uint64_t align, Kind kind, const char * name) {
		if(size > 0x7fffffff) throw Unsupported("object too large");
		uint32_t id;
		if(!st.freeIds.empty()) { id = st.freeIds.back(); st.freeIds.pop_back(); }
		else { id = (uint32_t)st.objs.size(); if(id >= (1u << 18)) throw Unsupported("object table full"); st.objs.emplace_back(); st.gens.push_back(0); }
		auto o = new Obj; o->size = (uint32_t)size; o->kind = kind; o->name = name;
		if(align < 1) align = 1;
		o->base = ((uint64_t)(st.gens[id] & 0xFFF) << 18 | id) << 32 | (0x1000 + (align < 0x1000 ? align : 0));
		o->bytes.assign(size, nullptr);
		st.objs[id] = ObjRef{o};
		return o->base;
	}
	static uint32_t idOf(uint64_t a) { return (uint32_t)(a >> 32) & 0x3FFFF; }
	void dropObj(State & st, uint64_t base) { // free slot for reuse under a new generation
		auto id = idOf(base); st.gens[id] = (st.gens[id] + 1) & 0xFFF; st.objs[id] = ObjRef{}; st.freeIds.push_back(id);
	}
	void setupGlobals() {
		initial.objs.emplace_back(); initial.gens.push_back(0); // id 0: null page
		initial.model = solver.emptyModel(); initial.life = std::make_shared<const std::map<uint64_t, uint32_t>>();
		for(auto & F : M) { globalAddr[&F] = 0xF000000000000000ull | (funcs.size() + 1) * 16; funcs.push_back(&F); }
		for(auto & G : M.globals()) {
			uint64_t size = G.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(G.getValueType()) : 64;
			if(!G.hasInitializer()) size = std::max<uint64_t>(size, 64);
			globalAddr[&G] = newObj(initial, size, G.getAlign() ? G.getAlign()->value() : DL.getABITypeAlign(G.getValueType()->isSized() ? G.getValueType() : llvm::Type::getInt64Ty(M.getContext())).value(), Kind::global, strdup(G.getName().str().c_str()));
		}
		for(auto & A : M.aliases()) globalAddr[&A] = 0; // resolved below
		for(auto & A : M.aliases()) if(auto t = A.getAliaseeObject()) globalAddr[&A] = globalAddr[t];
		for(auto & G : M.globals()) {
			auto & o = initial.objs[idOf(globalAddr[&G])].write();
			for(auto & b : o.bytes) b = pool.byte(0);
			if(G.hasInitializer()) writeConst(G.getInitializer(), o.bytes, 0);
			o.readonly = G.isConstant(); o.watched = !G.isConstant() && !G.isThreadLocal() && G.getName().contains("3ptl") && !G.getName().starts_with("_ZGV");
			auto n = G.getName();
			if(n.starts_with("_ZTI")) { typeinfoAddr[n.str()] = globalAddr[&G]; typeinfoName[globalAddr[&G]] = n.str(); }
		}
		for(auto & G : M.globals()) if(G.getName().starts_with("_ZTI") && G.hasInitializer()) if(auto s = llvm::dyn_cast<llvm::ConstantStruct>(G.getInitializer())) {
			auto & bs = bases[globalAddr[&G]];
			for(unsigned i{2}; i < s->getNumOperands(); ++i) if(auto b = llvm::dyn_cast<llvm::GlobalVariable>(s->getOperand(i)->stripPointerCasts())) if(b->getName().starts_with("_ZTI")) bs.push_back(globalAddr[b]);
		}
		static const char * std_[][2]{{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},
			{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"},
			{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"},{"_ZTISt19bad_optional_access","_ZTISt9exception"},{"_ZTISt18bad_variant_access","_ZTISt9exception"}};
		for(auto & e : std_) { auto d = tiByName(e[0]), b = tiByName(e[1]); if(bases[d].empty()) bases[d].push_back(b); }
	}
	uint64_t tiByName(const std::string & n) {
		auto it = typeinfoAddr.find(n); if(it != typeinfoAddr.end()) return it->second;
		auto a = newObj(initial, 64, 8, Kind::global, strdup(n.c_str())); typeinfoAddr[n] = a; typeinfoName[a] = n; return a;
	}
	bool derives(uint64_t d, uint64_t b) { if(d == b) return true; auto it = bases.find(d); if(it != bases.end()) for(auto x : it->second) if(derives(x, b)) return true; return false; }
	uint32_t selectorOf(uint64_t ti) { auto [it, n] = tiId.emplace(ti, (uint32_t)tiId.size() + 1); return it->second; }

	void putBytes(E v, std::vector<E> & out, uint64_t off) { auto n = (v->width + 7) / 8; E w = v->width % 8 ? pool.zext(v, n * 8) : v; for(uint32_t i{0}; i < n; ++i) out[off + i] = pool.extract(w, i * 8, 8); }
	void writeConst(const llvm::Constant * c, std::vector<E> & out, uint64_t off) {
		if(llvm::isa<llvm::ConstantAggregateZero>(c)) { auto n = DL.getTypeAllocSize(c->getType()); for(uint64_t i{0}; i < n; ++i) out[off + i] = pool.byte(0); }
		else if(auto d = llvm::dyn_cast<llvm::ConstantDataSequential>(c)) {
			auto es = d->getElementByteSize();
			for(unsigned i{0}; i < d->getNumElements(); ++i) { auto v = d->getElementType()->isIntegerTy() ? d->getElementAsInteger(i) : d->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(); for(unsigned k{0}; k < es; ++k) out[off + i * es + k] = pool.byte((uint8_t)(v >> (8 * k))); }
		} else if(auto s = llvm::dyn_cast<llvm::ConstantStruct>(c)) {
			auto l = DL.getStructLayout(s->getType()); for(unsigned i{0}; i < s->getNumOperands(); ++i) writeConst(s->getOperand(i), out, off + l->getElementOffset(i));
		} else if(auto a = llvm::dyn_cast<llvm::ConstantArray>(c)) {
			auto es = DL.getTypeAllocSize(a->getType()->getElementType()); for(unsigned i{0}; i < a->getNumOperands(); ++i) writeConst(a->getOperand(i), out, off + i * es);
		} else if(llvm::isa<llvm::UndefValue>(c)) { // padding or explicitly uninitialised
		} else putBytes(constE(c), out, off);
	}
	E constE(const llvm::Constant * c) { // nullptr for undef scalars
		if(auto i = llvm::dyn_cast<llvm::ConstantInt>(c)) {
			auto & v = i->getValue(); auto w = v.getBitWidth();
			if(w <= 64) return pool.cst(v.getZExtValue(), w);
			E r{nullptr}; for(unsigned k{0}; k < w; k += 64) { auto part = pool.cst(v.extractBitsAsZExtValue(std::min(64u, w - k), k), std::min(64u, w - k)); r = r ? pool.concat(part, r) : part; }
			return r;
		}
		if(llvm::isa<llvm::ConstantPointerNull>(c)) return pool.cst(0, 64);
		if(auto g = llvm::dyn_cast<llvm::GlobalValue>(c)) return pool.cst(globalAddr.at(g), 64);
		if(llvm::isa<llvm::UndefValue>(c)) { auto t = c->getType(); if(t->isAggregateType()) return pool.cst(0, widthOf(t)); return nullptr; }
		if(auto f = llvm::dyn_cast<llvm::ConstantFP>(c)) return pool.cst(f->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(c->getType()));
		if(c->getType()->isAggregateType()) {
			std::vector<E> b(DL.getTypeAllocSize(c->getType()), pool.byte(0)); writeConst(c, b, 0); 
			if(b.empty()) return pool.cst(0, 8);
			E r = b[0]; for(size_t i{1}; i < b.size(); ++i) r = pool.concat(b[i], r); return r;
		}
		if(auto ce = llvm::dyn_cast<llvm::ConstantExpr>(c)) {
			auto op = [&](unsigned i) { auto e = constE(ce->getOperand(i)); return e ? e : pool.cst(0, widthOf(ce->getOperand(i)->getType())); };
			switch(ce->getOpcode()) {
				case llvm::Instruction::GetElementPtr: { llvm::APInt off{64, 0}; if(!llvm::cast<llvm::GEPOperator>(ce)->accumulateConstantOffset(DL, off)) break; return pool.add(op(0), pool.cst(off.getZExtValue(), 64)); }
				case llvm::Instruction::BitCast: case llvm::Instruction::AddrSpaceCast: return op(0);
				case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: { auto w = widthOf(ce->getType()); auto e = op(0); return e->width >= w ? pool.extract(e, 0, w) : pool.zext(e, w); }
				case llvm::Instruction::Add: return pool.add(op(0), op(1));
				case llvm::Instruction::Sub: return pool.sub(op(0), op(1));
				case llvm::Instruction::Xor: return pool.bxor(op(0), op(1));
				case llvm::Instruction::Trunc: return pool.extract(op(0), 0, widthOf(ce->getType()));
				default: break;
			}
		}
		std::string s; llvm::raw_string_ostream o{s}; c->print(o); throw Unsupported("constant " + o.str());
	}

	// ------------------------------------------------------------------ decoding
	KFunction & kf(const llvm::Function * F) {
		auto & p = kfs[F]; if(p) return *p;
		p = std::make_unique<KFunction>(); auto & k = *p; k.F = F; k.name = F->getName().str();
		std::unordered_map<const llvm::Value *, int> reg; std::unordered_map<const llvm::BasicBlock *, uint32_t> bno;
		for(auto & a : F->args()) reg[&a] = (int)k.nregs++;
		for(auto & bb : *F) { bno[&bb] = (uint32_t)k.blocks.size(); k.blocks.push_back(&bb); for(auto & i : bb) if(!i.getType()->isVoidTy()) reg[&i] = (int)k.nregs++; }
		std::unordered_map<const llvm::Value *, int> cidx;
		auto opnd = [&](const llvm::Value * v) -> int32_t {
			auto it = reg.find(v); if(it != reg.end()) return it->second;
			auto ci = cidx.find(v); if(ci != cidx.end()) return ci->second;
			auto c = llvm::dyn_cast<llvm::Constant>(v);
			if(!c) { k.consts.push_back(pool.cst(0, 8)); k.constWidths.push_back(8); } // metadata, asm
			else { k.consts.push_back(constE(c)); k.constWidths.push_back(widthOf(c->getType())); }
			return cidx[v] = -(int32_t)k.consts.size();
		};
		for(auto & bb : *F) {
			k.blockStart.push_back((uint32_t)k.insts.size());
			for(auto & i : bb) {
				KInst x; x.I = &i; x.opcode = i.getOpcode(); x.dest = i.getType()->isVoidTy() ? -1 : reg[&i]; x.width = widthOf(i.getType()); x.uid = instUid++;
				if(llvm::isa<llvm::DbgInfoIntrinsic>(i)) { x.opcode = 0; x.width = 0; k.insts.push_back(std::move(x)); continue; }
				if(auto ph = llvm::dyn_cast<llvm::PHINode>(&i)) { for(unsigned n{0}; n < ph->getNumIncomingValues(); ++n) { x.ops.push_back(opnd(ph->getIncomingValue(n))); x.blocks.push_back(bno.at(ph->getIncomingBlock(n))); } }
				else if(auto b = llvm::dyn_cast<llvm::BranchInst>(&i)) { if(b->isConditional()) x.ops.push_back(opnd(b->getCondition())); for(unsigned n{0}; n < b->getNumSuccessors(); ++n) x.blocks.push_back(bno.at(b->getSuccessor(n))); }
				else if(auto s = llvm::dyn_cast<llvm::SwitchInst>(&i)) { x.ops.push_back(opnd(s->getCondition())); x.blocks.push_back(bno.at(s->getDefaultDest())); for(auto & c : s->cases()) { x.blocks.push_back(bno.at(c.getCaseSuccessor())); x.aux.push_back(c.getCaseValue()->getZExtValue()); } }
				else if(auto cb = llvm::dyn_cast<llvm::CallBase>(&i)) {
					for(auto & a : cb->args()) x.ops.push_back(opnd(a.get()));
					x.callee = llvm::dyn_cast<llvm::Function>(cb->getCalledOperand()->stripPointerCasts());
					if(auto al = llvm::dyn_cast<llvm::GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) x.callee = llvm::dyn_cast<llvm::Function>(al->getAliaseeObject());
					if(!x.callee) x.ops.push_back(opnd(cb->getCalledOperand()));
					else if(x.callee->isDeclaration() && !x.callee->isIntrinsic()) { auto it = builtins.find(x.callee->getName().str()); if(it != builtins.end()) x.builtin = it->second.first; }
					if(auto inv = llvm::dyn_cast<llvm::InvokeInst>(&i)) { x.blocks.push_back(bno.at(inv->getNormalDest())); x.blocks.push_back(bno.at(inv->getUnwindDest())); }
				} else if(auto g = llvm::dyn_cast<llvm::GetElementPtrInst>(&i)) {
					x.ops.push_back(opnd(g->getPointerOperand())); uint64_t c{0}; x.aux.push_back(0);
					for(auto it = llvm::gep_type_begin(g), e = llvm::gep_type_end(g); it != e; ++it) {
						if(auto s = it.getStructTypeOrNull()) c += DL.getStructLayout(s)->getElementOffset((unsigned)llvm::cast<llvm::ConstantInt>(it.getOperand())->getZExtValue());
						else { uint64_t es = DL.getTypeAllocSize(it.getIndexedType()); if(auto ci = llvm::dyn_cast<llvm::ConstantInt>(it.getOperand())) c += (uint64_t)ci->getSExtValue() * es; else { x.ops.push_back(opnd(it.getOperand())); x.aux.push_back(es); } }
					}
					x.aux[0] = c;
				} else if(auto ev = llvm::dyn_cast<llvm::ExtractValueInst>(&i)) { llvm::Type * l; x.ops.push_back(opnd(ev->getAggregateOperand())); x.aux.push_back(fieldBit(ev->getAggregateOperand()->getType(), ev->getIndices(), l)); }
				else if(auto iv = llvm::dyn_cast<llvm::InsertValueInst>(&i)) { llvm::Type * l; x.ops.push_back(opnd(iv->getAggregateOperand())); x.ops.push_back(opnd(iv->getInsertedValueOperand())); x.aux.push_back(fieldBit(iv->getAggregateOperand()->getType(), iv->getIndices(), l)); }
				else if(!llvm::isa<llvm::LandingPadInst>(i)) for(auto & o : i.operands()) if(!llvm::isa<llvm::BasicBlock>(o.get())) x.ops.push_back(opnd(o.get()));
				k.insts.push_back(std::move(x));
			}
		}
		return k;
	}

	// ------------------------------------------------------------------ values
	E freshUninit(State & st, uint32_t w) {
		if(w > 64) { E hi = freshUninit(st, w - 64); return pool.concat(hi, freshUninit(st, 64)); }
		auto key = "u" + std::to_string(st.uninitCount++) + ":" + std::to_string(w);
		auto it = varKey.find(key); if(it != varKey.end()) return pool.varById(it->second);
		auto e = pool.var(key, w, true); varKey[key] = (uint32_t)e->val; return e;
	}
	E input(State & st, const std::string & name, uint32_t w) {
		auto key = std::to_string(st.seq.size()) + ":" + name + ":" + std::to_string(w);
		auto it = varKey.find(key); E e;
		if(it != varKey.end()) e = pool.varById(it->second); else { e = pool.var(key, w); varKey[key] = (uint32_t)e->val; }
		st.seq.push_back({intern(name), (uint8_t)w, e}); return e;
	}
	E fold(State & st, E e) {
		if(!st.anyFixed || Pool::isC(e)) return e;
		for(auto v : e->vars->v) if(v / 64 >= st.fixed.size() || !(st.fixed[v / 64] >> (v % 64) & 1)) return e;
		if(e->width > 64) return e;
		return pool.cst(solver.eval(e, *st.model), e->width);
	}
	E get(State & st, int32_t op) {
		auto & f = st.frames.back();
		if(op >= 0) { auto e = f.regs[op]; return st.anyFixed ? fold(st, e) : e; }
		auto e = f.kf->consts[-1 - op]; return e ? e : freshUninit(st, f.kf->constWidths[-1 - op]);
	}
	void addCons(State & st, E c) {
		if(c == pool.tru()) return;
		if(c->op == Op::And) { addCons(st, c->a); addCons(st, c->b); return; }
		for(auto x : st.cons) if(x == c) return;
		st.cons.push_back(c);
		E v{nullptr};
		if(c->op == Op::Eq && c->a->op == Op::Var && Pool::isC(c->b)) v = c->a;
		else if(c->op == Op::Var) v = c;
		else if(c->op == Op::Xor && c->a->op == Op::Var && Pool::isC(c->b)) v = c->a;
		if(v) { auto n = v->val; if(n / 64 >= st.fixed.size()) st.fixed.resize(n / 64 + 1, 0); st.fixed[n / 64] |= 1ull << (n % 64); st.anyFixed = true; }
	}
	Sat may(State & st, E c, ModelRef & m) {
		auto r = solver.check(st.cons, st.model, c, m);
		if(r == Sat::unknown) { res->problems.insert("solver gave no answer within its time limit"); res->incomplete = true; }
		return r;
	}
	E subst(E e, std::unordered_map<E, E> & memo) {
		if(!e->uninit) return e;
		auto it = memo.find(e); if(it != memo.end()) return it->second;
		E r;
		if(e->op == Op::Var) { auto key = "twin:" + pool.vars[e->val].name; auto k = varKey.find(key); if(k != varKey.end()) r = pool.varById(k->second); else { r = pool.var(key, e->width, true); varKey[key] = (uint32_t)r->val; } }
		else {
			E a = subst(e->a, memo), b = e->b ? subst(e->b, memo) : nullptr, c = e->c ? subst(e->c, memo) : nullptr;
			switch(e->op) {
				case Op::Add: r = pool.add(a, b); break; case Op::Sub: r = pool.sub(a, b); break; case Op::Mul: r = pool.mul(a, b); break;
				case Op::UDiv: r = pool.udiv(a, b); break; case Op::SDiv: r = pool.sdiv(a, b); break; case Op::URem: r = pool.urem(a, b); break; case Op::SRem: r = pool.srem(a, b); break;
				case Op::And: r = pool.band(a, b); break; case Op::Or: r = pool.bor(a, b); break; case Op::Xor: r = pool.bxor(a, b); break;
				case Op::Shl: r = pool.shl(a, b); break; case Op::LShr: r = pool.lshr(a, b); break; case Op::AShr: r = pool.ashr(a, b); break;
				case Op::Eq: r = pool.eq(a, b); break; case Op::Ult: r = pool.ult(a, b); break; case Op::Ule: r = pool.ule(a, b); break; case Op::Slt: r = pool.slt(a, b); break; case Op::Sle: r = pool.sle(a, b); break;
				case Op::Concat: r = pool.concat(a, b); break; case Op::Extract: r = pool.extract(a, (uint32_t)e->val, e->width); break;
				case Op::ZExt: r = pool.zext(a, e->width); break; case Op::SExt: r = pool.sxt(a, e->width); break; case Op::Ite: r = pool.ite(a, b, c); break;
				default: r = e;
			}
		}
		return memo[e] = r;
	}
	// does the value of e really depend on uninitialised memory? reports the violation and returns true if so
	bool tainted(State & st, E e, const char * what) {
		if(!e->uninit) return false;
		std::unordered_map<E, E> memo; E t = subst(e, memo);
		E differ = e->width <= 64 ? pool.neg(pool.eq(e, t)) : pool.tru();
		ModelRef m;
		if(may(st, differ, m) == Sat::yes) { violate(st, "uninit", std::string{"use of an uninitialised value: "} + what, m); return true; }
		return false;
	}
	// ------------------------------------------------------------------ reporting
	std::string locOf(const KInst & ki) {
		if(auto & d = ki.I->getDebugLoc()) { auto f = llvm::cast<llvm::DIScope>(d.getScope())->getFilename().str(); auto p = f.rfind('/'); return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(d.getLine()); }
		return "?";
	}
	static std::string fnName(const KFunction & k) { auto n = llvm::demangle(k.name); if(n.size() > 160) n = n.substr(0, 160) + "..."; return n; }
	void violate(State & st, const std::string & kind, const std::string & msg, ModelRef m = nullptr) {
		if(!m) m = st.model;
		Violation v; v.kind = kind; v.msg = msg;
		for(size_t i = st.frames.size(); i-- > 0;) {
			auto & f = st.frames[i]; auto l = locOf(f.kf->insts[f.pc]);
			if(v.where.empty() && l.find(".hpp:") != std::string::npos) { v.where = l; v.fn = fnName(*f.kf); }
			if(st.frames.size() - i <= 12) v.stack += (v.stack.empty() ? "" : " < ") + fnName(*f.kf) + " (" + l + ")";
		}
		if(v.where.empty() && !st.frames.empty()) { auto & f = st.frames.back(); v.where = locOf(f.kf->insts[f.pc]); v.fn = fnName(*f.kf); }
		keep(*res, std::move(v), 8, [&](Violation & v) { for(auto & s : st.seq) v.inputs.emplace_back(names[s.name], solver.eval(s.e, *m)); });
	}
	// a few different counterexamples of the same violation are kept (a sample of all that were seen): not each of them need show natively
public:
	template<typename F> static void keep(Result & r, Violation && v, unsigned most, F complete) {
		if(v.kind == "hang" || v.kind == "recursion") most = 2;
		std::vector<size_t> same; for(size_t i{0}; i < r.viols.size(); ++i) { auto & o = r.viols[i]; if(o.kind == v.kind && o.msg == v.msg && o.where == v.where) same.push_back(i); }
		auto seen = ++r.violSeen[v.kind + '\0' + v.msg + '\0' + v.where];
		if(same.size() < most) { complete(v); r.viols.push_back(std::move(v)); return; }
		auto x = (seen * 6364136223846793005ull + 1442695040888963407ull) >> 33; auto k = x % seen; if(k < most) { complete(v); r.viols[same[k]] = std::move(v); }
	}
	void killed() { ++res->killed; }

	// ------------------------------------------------------------------ forking
	State & forkState(State & st) { ++res->forks; ++res->states; ++st.depthForks; work.push_back(std::make_unique<State>(st)); return *work.back(); }
	// make e concrete; other feasible values are left to a forked copy of the state that re-executes the instruction
	bool conc(State & st, E e, uint64_t & v, const char * what) {
		e = fold(st, e);
		if(Pool::isC(e)) { v = e->val; return true; }
		if(e->uninit && tainted(st, e, what)) return false;
		v = solver.eval(e, *st.model); E is = pool.eq(e, pool.cst(v, e->width)); ModelRef m;
		auto r = may(st, pool.neg(is), m);
		if(r == Sat::unknown) { killed(); return false; }
		if(r == Sat::yes) {
			auto & f = st.frames.back(); auto ki = &f.kf->insts[f.pc];
			if(st.chainAt == ki) ++st.chain; else { st.chainAt = ki; st.chain = 1; }
			if(st.chain > chainMax) { res->problems.insert(std::string{"too many values to enumerate: "} + what + " at " + locOf(*ki)); res->incomplete = true; }
			else { auto & o = forkState(st); addCons(o, pool.neg(is)); o.model = m; }
		}
		addCons(st, is); st.chainAt = nullptr; st.chain = 0;
		return true;
	}
	// decide a condition: 1 / 0 with the state narrowed and the other side forked; -1 if the state is finished
	int decide(State & st, E c, const char * what) {
		c = fold(st, c);
		if(Pool::isC(c)) return (int)c->val;
		if(c->uninit && tainted(st, c, what)) return -1;
		bool now_ = solver.eval(c, *st.model); E other = now_ ? pool.neg(c) : c; ModelRef m;
		auto r = may(st, other, m);
		if(r == Sat::unknown) { killed(); return -1; }
		if(r == Sat::yes) { auto & o = forkState(st); addCons(o, other); o.model = m; addCons(st, now_ ? c : pool.neg(c)); }
		return now_;
	}

	// ------------------------------------------------------------------ memory
	std::string describe(const Obj & o) { return std::string{kindName(o.kind)} + " object" + (*o.name ? std::string{" '"} + o.name + "'" : "") + " of " + std::to_string(o.size) + " bytes"; }
	// concrete address -> object; on error returns nullptr and sets kind/msg
	ObjRef * resolve(State & st, uint64_t addr, uint64_t n, bool write, uint64_t & off, std::string & kind, std::string & msg) {
		++res->memChecks;
		auto id = idOf(addr); const char * what = write ? "write" : "read";
		if((addr >> 60) == 0xF) { kind = "bad-access"; msg = std::string{what} + " of function memory"; return nullptr; }
		if(id == 0 || id >= st.objs.size()) { kind = "null-deref"; msg = std::string{what} + (addr == 0 ? " through a null pointer" : " through an invalid pointer"); return nullptr; }
		auto & r = st.objs[id];
		if(!r || r->base >> 32 != addr >> 32) { kind = "use-after-scope"; msg = std::string{what} + " of an object whose lifetime has ended"; return nullptr; }
		if(r->dead) { kind = r->freed ? "use-after-free" : "use-after-scope"; msg = std::string{what} + " of a dead " + describe(*r.get()); return nullptr; }
		off = addr - r->base;
		if(off > r->size || n > r->size - off) { kind = "out-of-bounds"; msg = std::string{what} + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + describe(*r.get()); return nullptr; }
		if(write && r->readonly) { kind = "readonly"; msg = "write to a constant " + describe(*r.get()); return nullptr; }
		if(write && st.shared && r->watched && !st.guards) { kind = "race"; msg = "an operation that only reads writes to shared memory: " + describe(*r.get()); return nullptr; }
		return &r;
	}
	E readBytes(State & st, ObjRef & r, uint64_t off, uint32_t n) {
		const auto & b = r->bytes;
		bool allC{n <= 8}; uint64_t c{0};
		for(uint32_t i{0}; i < n && allC; ++i) { auto e = b[off + i]; if(!e || !Pool::isC(e)) allC = false; else c |= e->val << (8 * i); }
		if(allC) return pool.cst(c, n * 8);
		for(uint32_t i{0}; i < n; ++i) if(!b[off + i]) { 
			bool all{true}; for(uint32_t k{0}; k < n; ++k) if(b[off + k]) all = false;
			auto & w = r.write();
			if(all) { auto e = freshUninit(st, n * 8); for(uint32_t k{0}; k < n; ++k) w.bytes[off + k] = pool.extract(e, k * 8, 8); return e; }
			w.bytes[off + i] = freshUninit(st, 8);
		}
		const auto & bb = r->bytes;
		E e = bb[off]; for(uint32_t i{1}; i < n; ++i) e = pool.concat(bb[off + i], e);
		return e;
	}
	void writeBytes(Obj & o, uint64_t off, E v) {
		auto n = (v->width + 7) / 8;
		if(Pool::isC(v)) { for(uint32_t i{0}; i < n; ++i) o.bytes[off + i] = pool.byte((uint8_t)(v->val >> (8 * i))); return; }
		if(v->width % 8) v = pool.zext(v, n * 8);
		for(uint32_t i{0}; i < n; ++i) o.bytes[off + i] = pool.extract(v, i * 8, 8);
	}
	// symbolic address: pin it to one object (forking the rest); returns object and in-range offset expression
	bool pin(State & st, E addr, uint32_t n, bool write, ObjRef *& r, E & offE) {
		std::string kind, msg; uint64_t off;
		auto a = solver.eval(addr, *st.model);
		r = resolve(st, a, n, write, off, kind, msg);
		if(!r) { violate(st, kind, msg); return false; }
		auto base = (*r)->base, last = (*r)->size - (uint64_t)n;
		offE = pool.sub(addr, pool.cst(base, 64));
		E in = pool.ule(offE, pool.cst(last, 64)); ModelRef m;
		auto q = may(st, pool.neg(in), m);
		if(q == Sat::unknown) { killed(); return false; }
		if(q == Sat::yes) { auto & o = forkState(st); addCons(o, pool.neg(in)); o.model = m; addCons(st, in); 
			r = resolve(st, a, n, write, off, kind, msg); }
		return true;
	}
	bool alignOk(State & st, uint64_t addr, uint64_t align, bool write) {
		if(checkAlign && align > 1 && addr % align) { violate(st, "misaligned", std::string{write ? "write" : "read"} + " at an address not aligned to " + std::to_string(align)); return false; }
		return true;
	}
	E load(State & st, E addr, llvm::Type * ty, uint64_t align) { // nullptr: state finished
		uint32_t w = widthOf(ty), n = ty->isAggregateType() ? w / 8 : (w + 7) / 8;
		if(addr->uninit && tainted(st, addr, "address")) return nullptr;
		E v;
		if(Pool::isC(addr)) {
			std::string kind, msg; uint64_t off; auto r = resolve(st, addr->val, n, false, off, kind, msg);
			if(!r) { violate(st, kind, msg); return nullptr; }
			if(!alignOk(st, addr->val, align, false)) return nullptr;
			v = readBytes(st, *r, off, n);
		} else {
			ObjRef * r; E offE; if(!pin(st, addr, n, false, r, offE)) return nullptr;
			if((*r)->size > 512 || n > 16) { uint64_t a; if(!conc(st, addr, a, "load address")) return nullptr; std::string k, m; uint64_t off; r = resolve(st, a, n, false, off, k, m); if(!r) { violate(st, k, m); return nullptr; } v = readBytes(st, *r, off, n); }
			else {
				auto size = (*r)->size; v = nullptr;
				std::vector<std::pair<E, E>> cand;
				for(uint32_t o{0}; o + n <= size; ++o) { E c = pool.eq(offE, pool.cst(o, 64)); if(c == pool.fls()) continue; cand.emplace_back(c, readBytes(st, *r, o, n)); }
				if(cand.empty()) throw Unsupported("no candidate offset");
				v = cand.back().second; for(size_t i = cand.size() - 1; i-- > 0;) v = pool.ite(cand[i].first, cand[i].second, v);
			}
		}
		if(!ty->isAggregateType() && w % 8) v = pool.extract(v, 0, w);
		return v;
	}
	bool store(State & st, E addr, E v, llvm::Type * ty, uint64_t align) {
		uint32_t n = (v->width + 7) / 8;
		if(addr->uninit && tainted(st, addr, "address")) return false;
		if(Pool::isC(addr)) {
			std::string kind, msg; uint64_t off; auto r = resolve(st, addr->val, n, true, off, kind, msg);
			if(!r) { violate(st, kind, msg); return false; }
			if(!alignOk(st, addr->val, align, true)) return false;
			writeBytes(r->write(), off, v); return true;
		}
		ObjRef * r; E offE; if(!pin(st, addr, n, true, r, offE)) return false;
		if((*r)->size > 512) { uint64_t a; if(!conc(st, addr, a, "store address")) return false; std::string k, m; uint64_t off; r = resolve(st, a, n, true, off, k, m); if(!r) { violate(st, k, m); return false; } writeBytes(r->write(), off, v); return true; }
		auto & o = r->write(); if(v->width % 8) v = pool.zext(v, n * 8);
		for(uint32_t k{0}; k + n <= o.size; ++k) {
			E c = pool.eq(offE, pool.cst(k, 64)); if(c == pool.fls()) continue;
			for(uint32_t i{0}; i < n; ++i) { auto & b = o.bytes[k + i]; if(!b) b = freshUninit(st, 8); b = pool.ite(c, pool.extract(v, i * 8, 8), b); }
		}
		return true;
	}
	bool span(State & st, uint64_t addr, uint64_t n, bool write, ObjRef *& r, uint64_t & off) {
		std::string kind, msg; r = resolve(st, addr, n, write, off, kind, msg);
		if(!r) { violate(st, kind, msg); return false; }
		return true;
	}
	E byteAt(State & st, ObjRef & r, uint64_t off) { return readBytes(st, r, off, 1); }
	// lifetime registry: no registered element may remain in storage that disappears
	bool lifeGone(State & st, uint64_t base, uint64_t size, const char * what) {
		auto it = st.life->lower_bound(base);
		if(it != st.life->end() && it->first < base + size) { violate(st, "lifetime", std::string{what} + " still holds an element that was never destroyed"); return false; }
		return true;
	}
	bool release(State & st, uint64_t addr, Kind want, uint64_t sized, bool haveSize) {
		if(addr == 0) return true;
		auto id = idOf(addr); auto bad = [&](const char * k, const std::string & m) { violate(st, k, m); return false; };
		if(id == 0 || id >= st.objs.size() || (addr >> 60) == 0xF) return bad("bad-free", "deallocation of an invalid pointer");
		auto & r = st.objs[id];
		if(!r || r->base >> 32 != addr >> 32 || (r->dead && r->freed)) return bad("double-free", "deallocation of memory already deallocated");
		if(r->kind != Kind::heapNew && r->kind != Kind::heapNewArr && r->kind != Kind::heapMalloc) return bad("bad-free", "deallocation of a non-heap object: " + describe(*r.get()));
		if(addr != r->base) return bad("bad-free", "deallocation of a pointer into the middle of " + describe(*r.get()));
		if(r->kind != want) return bad("alloc-mismatch", std::string{"memory allocated with "} + kindName(r->kind) + " deallocated as " + kindName(want));
		if(haveSize && sized != r->size) return bad("size-mismatch", "sized deallocation with " + std::to_string(sized) + " of " + describe(*r.get()));
		if(st.shared && r->watched) return bad("race", "an operation that only reads deallocates shared memory: " + describe(*r.get()));
		if(!lifeGone(st, r->base, r->size, "deallocated storage")) return false;
		auto & o = r.write(); o.dead = o.freed = true; o.bytes.clear(); o.bytes.shrink_to_fit();
		return true;
	}
	uint64_t heapLive(State & st) { uint64_t n{0}; for(auto & o : st.objs) if(o && !o->dead && (o->kind == Kind::heapNew || o->kind == Kind::heapNewArr || o->kind == Kind::heapMalloc)) ++n; return n; }

	// ------------------------------------------------------------------ control flow
	void enterBlock(State & st, uint32_t to) {
		auto & f = st.frames.back(); auto from = f.block; auto pc = f.kf->blockStart[to];
		std::vector<std::pair<int, E>> vals;
		while(f.kf->insts[pc].opcode == llvm::Instruction::PHI) {
			auto & x = f.kf->insts[pc]; size_t i{0}; while(i < x.blocks.size() && x.blocks[i] != from) ++i;
			if(i == x.blocks.size()) throw Unsupported("phi");
			vals.emplace_back(x.dest, get(st, x.ops[i])); ++pc;
		}
		for(auto & [d, e] : vals) f.regs[d] = e;
		f.block = to; f.pc = pc;
	}
	void finishCall(State & st, const KInst & ki, E v) { // result of the call at the current pc of the top frame
		auto & f = st.frames.back();
		if(ki.dest >= 0 && v) f.regs[ki.dest] = v;
		if(ki.opcode == llvm::Instruction::Invoke) enterBlock(st, ki.blocks[0]); else ++f.pc;
	}
	void pushFrame(State & st, KFunction & k, std::vector<E> args) {
		if(st.frames.size() > 1500) throw TooDeep{};
		++k.entered; Frame f; f.kf = &k; f.pc = 0; f.block = 0; f.regs.assign(k.nregs, nullptr);
		for(size_t i{0}; i < args.size() && i < k.F->arg_size(); ++i) f.regs[i] = args[i];
		st.frames.push_back(std::move(f));
	}
	bool popFrame(State & st) {
		auto & f = st.frames.back();
		for(auto a : f.allocas) { auto & o = st.objs[idOf(a)]; if(!o->dead && !st.life->empty() && !lifeGone(st, a, o->size, "a variable going out of scope")) return false; dropObj(st, a); }
		st.frames.pop_back(); return true;
	}
	// ---- exceptions
	enum Match { none, cleanup, handler };
	Match matches(const llvm::LandingPadInst * lp, uint64_t ti, uint32_t & sel) {
		for(unsigned i{0}; i < lp->getNumClauses(); ++i) {
			if(!lp->isCatch(i)) throw Unsupported("exception specification filter");
			auto c = lp->getClause(i)->stripPointerCasts();
			if(llvm::isa<llvm::ConstantPointerNull>(c)) { sel = 0x7fff; return handler; }
			auto a = globalAddr.at(llvm::cast<llvm::GlobalValue>(c));
			if(derives(ti, a)) { sel = selectorOf(a); return handler; }
		}
		sel = 0; return lp->isCleanup() ? cleanup : none;
	}
	R unwind(State & st, uint64_t obj, uint64_t ti, bool fromTop) {
		// phase 1
		bool found{false}; uint32_t sel; size_t start = st.frames.size() - (fromTop ? 0 : 1);
		auto lpOf = [&](Frame & f) -> const llvm::LandingPadInst * { auto & ki = f.kf->insts[f.pc]; return ki.opcode == llvm::Instruction::Invoke ? f.kf->blocks[ki.blocks[1]]->getLandingPadInst() : nullptr; };
		auto tn = typeinfoName.count(ti) ? llvm::demangle("_ZTS" + typeinfoName[ti].substr(4)).substr(18) : std::string{"?"};
		for(size_t i = start; i-- > 0;) {
			if(auto lp = lpOf(st.frames[i])) { if(matches(lp, ti, sel) == handler) { found = true; break; } }
			else if(st.frames[i].kf->F->doesNotThrow()) { violate(st, "terminate", "exception " + tn + " leaves a function that must not throw"); return R::term; }
		}
		if(!found) { violate(st, "uncaught", "uncaught exception " + tn); return R::term; }
		if(!fromTop) if(!popFrame(st)) return R::term;
		for(;;) {
			auto & f = st.frames.back();
			if(auto lp = lpOf(f)) {
				auto m = matches(lp, ti, sel);
				if(m != none) { st.lp = pool.concat(pool.cst(sel, 64), pool.cst(obj, 64)); enterBlock(st, f.kf->insts[f.pc].blocks[1]); return R::next; }
			}
			if(!popFrame(st)) return R::term;
		}
	}
	R throwStd(State & st, const char * tiName) {
		auto ti = tiByName0(tiName); auto obj = newObj(st, 16, 16, Kind::exception, ""); st.excs.push_back({obj, ti, 0, 0, false});
		return unwind(st, obj, ti, true);
	}
	uint64_t tiByName0(const char * n) { auto it = typeinfoAddr.find(n); if(it == typeinfoAddr.end()) throw Unsupported(std::string{"typeinfo "} + n); return it->second; }

	// ------------------------------------------------------------------ builtins
	void initBuiltins() {
		auto add = [&](const char * n, int b, const char * x = "") { builtins[n] = {b, x}; };
		add("sx_u8", b_u8); add("sx_u16", b_u16); add("sx_u32", b_u32); add("sx_u64", b_u64); add("sx_range", b_range); add("sx_pick", b_pick); add("sx_bytes", b_bytes);
		add("sx_assume", b_assume); add("sx_assert", b_assert); add("sx_concretize", b_conc); add("sx_reach", b_reach); add("sx_heap_live", b_heap_live); add("sx_alloc_fail", b_alloc_fail);
		add("sx_life_ctor", b_life_ctor); add("sx_life_dtor", b_life_dtor); add("sx_life_check", b_life_check); add("sx_life_count", b_life_count); add("sx_note", b_note); add("sx_fail", b_fail); add("sx_noleak", b_noleak); add("sx_shared", b_shared); add("sx_same_object", b_distinct);
		add("_Znwm", b_new); add("_ZnwmRKSt9nothrow_t", b_new_nt); add("_Znam", b_newa); add("_ZnamRKSt9nothrow_t", b_newa_nt); add("_ZnwmSt11align_val_t", b_new_al); add("_ZnamSt11align_val_t", b_newa_al);
		for(auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) add(n, b_del, strstr(n, "Pvm") ? "s" : "");
		for(auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdaPvRKSt9nothrow_t"}) add(n, b_dela, strstr(n, "Pvm") ? "s" : "");
		add("malloc", b_malloc); add("calloc", b_calloc); add("realloc", b_realloc); add("free", b_free); add("aligned_alloc", b_aligned_alloc);
		add("strlen", b_strlen); add("memcmp", b_memcmp); add("bcmp", b_memcmp); add("memchr", b_memchr); add("memcpy", b_memcpy); add("memmove", b_memmove); add("memset", b_memset); add("strcmp", b_strcmp); add("strncmp", b_strncmp); add("strchr", b_strchr);
		add("_ZSt11_Hash_bytesPKvmm", b_hash); 
		add("__cxa_allocate_exception", b_exc_alloc); add("__cxa_free_exception", b_exc_free); add("__cxa_throw", b_throw); add("__cxa_begin_catch", b_begin); add("__cxa_end_catch", b_end); add("__cxa_rethrow", b_rethrow); add("__cxa_get_exception_ptr", b_getexc); add("_ZSt18uncaught_exceptionv", b_uncaught); add("_ZSt19uncaught_exceptionsv", b_uncaught);
		add("_ZSt9terminatev", b_terminate); add("abort", b_abort); add("exit", b_abort); add("_exit", b_abort); add("_ZSt10unexpectedv", b_terminate); add("__cxa_pure_virtual", b_pure); add("__assert_fail", b_abort); add("__clang_call_terminate", b_terminate);
		add("_ZSt21__glibcxx_assert_failPKciS0_S0_", b_abort);
		add("__cxa_guard_acquire", b_guard_acq); add("__cxa_guard_release", b_guard_rel); add("__cxa_guard_abort", b_nop); add("__cxa_atexit", b_zero); add("atexit", b_zero);
		for(auto c : {"11logic_error", "12out_of_range", "12length_error", "16invalid_argument", "12domain_error", "13runtime_error", "11range_error", "14overflow_error", "15underflow_error"})
			for(auto s : {"C1EPKc", "C2EPKc", "D0Ev", "D1Ev", "D2Ev", "C1ERKS_", "C2ERKS_", "C1EOS_", "C2EOS_"}) add(strdup((std::string{"_ZNSt"} + c + s).c_str()), b_nop);
		for(auto c : {"9exception", "9bad_alloc", "20bad_array_new_length", "8bad_cast", "17bad_function_call", "19bad_optional_access", "18bad_variant_access"}) for(auto s : {"D0Ev", "D1Ev", "D2Ev"}) add(strdup((std::string{"_ZNSt"} + c + s).c_str()), b_nop);
		add("_ZNSt8ios_base4InitC1Ev", b_nop); add("_ZNSt8ios_base4InitD1Ev", b_nop);
		struct { const char * f, * t; } thr[]{{"_ZSt17__throw_bad_allocv","_ZTISt9bad_alloc"},{"_ZSt28__throw_bad_array_new_lengthv","_ZTISt20bad_array_new_length"},{"_ZSt16__throw_bad_castv","_ZTISt8bad_cast"},{"_ZSt19__throw_logic_errorPKc","_ZTISt11logic_error"},{"_ZSt20__throw_length_errorPKc","_ZTISt12length_error"},
			{"_ZSt20__throw_out_of_rangePKc","_ZTISt12out_of_range"},{"_ZSt24__throw_out_of_range_fmtPKcz","_ZTISt12out_of_range"},{"_ZSt24__throw_invalid_argumentPKc","_ZTISt16invalid_argument"},{"_ZSt21__throw_runtime_errorPKc","_ZTISt13runtime_error"},{"_ZSt25__throw_bad_function_callv","_ZTISt17bad_function_call"},
			{"_ZSt20__throw_overflow_errorPKc","_ZTISt14overflow_error"},{"_ZSt20__throw_domain_errorPKc","_ZTISt12domain_error"},{"_ZSt19__throw_range_errorPKc","_ZTISt11range_error"}};
		for(auto & t : thr) add(t.f, b_throw_named, t.t);
	}
	std::string cstr(State & st, E a) {
		std::string s; if(!Pool::isC(a)) throw Unsupported("symbolic string literal");
		for(uint64_t p = a->val;; ++p) { std::string k, m; uint64_t off; auto r = resolve(st, p, 1, false, off, k, m); if(!r) throw Unsupported("bad literal"); auto e = (*r)->bytes[off]; if(!e || !Pool::isC(e)) throw Unsupported("literal bytes"); if(!e->val) return s; s += (char)e->val; }
	}
	R done(State & st, const KInst & ki, E v = nullptr) { finishCall(st, ki, v); return R::next; }
	// allocation; fails when too large or, within the fault budget, by choice
	R alloc(State & st, const KInst & ki, uint64_t n, uint64_t align, Kind k, bool nothrow, bool zero) {
		auto fail = [&](State & s) { return nothrow ? done(s, ki, pool.cst(0, 64)) : throwStd(s, "_ZTISt9bad_alloc"); };
		if(n > allocLimit) return fail(st);
		if(st.failBudget > 0) {
			auto & o = forkState(st); auto id = intern("alloc"); --o.failBudget;
			o.seq.push_back({id, 8, pool.cst(1, 8)}); st.seq.push_back({id, 8, pool.cst(0, 8)});
			// finish the failing copy's instruction now
			if(fail(o) == R::term) dropWork(&o);
		}
		auto a = newObj(st, n, align, k, ""); 
		if(zero) for(auto & b : st.objs[idOf(a)].write().bytes) b = pool.byte(0);
		return done(st, ki, pool.cst(a, 64));
	}
	void dropWork(State * s) { for(size_t i = work.size(); i-- > 0;) if(work[i].get() == s) { work.erase(work.begin() + (long)i); return; } }
	// size arguments: values above the limit stay symbolic and fail, the others are enumerated
	bool allocSize(State & st, E e, uint64_t & v) {
		e = fold(st, e);
		if(Pool::isC(e)) { v = e->val; return true; }
		auto d = decide(st, pool.ult(pool.cst(allocLimit, 64), e), "allocation size");
		if(d < 0) return false;
		if(d) { v = allocLimit + 1; return true; }
		return conc(st, e, v, "allocation size");
	}
	R callBuiltin(State & st, const KInst & ki, int b, std::vector<E> & a, const std::string & extra) {
		auto C = [&](unsigned i, uint64_t & v, const char * w) { return conc(st, a[i], v, w); };
		uint64_t x, y, z;
		switch(b) {
			case b_u8: return done(st, ki, input(st, cstr(st, a[0]), 8));
			case b_u16: return done(st, ki, input(st, cstr(st, a[0]), 16));
			case b_u32: return done(st, ki, input(st, cstr(st, a[0]), 32));
			case b_u64: return done(st, ki, input(st, cstr(st, a[0]), 64));
			case b_range: {
				if(!C(1, x, "range") || !C(2, y, "range")) return R::term;
				if(x > y) { killed(); return R::term; }
				auto e = input(st, cstr(st, a[0]), 64); 
				if(x == y) { st.seq.back().e = pool.cst(x, 64); return done(st, ki, pool.cst(x, 64)); }
				E c = pool.band(pool.ule(pool.cst(x, 64), e), pool.ule(e, pool.cst(y, 64))); ModelRef m;
				if(may(st, c, m) != Sat::yes) { killed(); return R::term; }
				st.model = m; if(x) addCons(st, c->op == Op::And ? c->a : c); addCons(st, c); return done(st, ki, e);
			}
			case b_pick: {
				if(!C(1, x, "pick")) return R::term;
				if(!x) { killed(); return R::term; }
				auto e = input(st, cstr(st, a[0]), 64); E dom = pool.ult(e, pool.cst(x, 64)); ModelRef m;
				if(may(st, dom, m) != Sat::yes) { killed(); return R::term; }
				st.model = m; if(x > 1) addCons(st, dom);
				for(uint64_t i = x; i-- > 1;) { // one path per value the solver finds feasible
					E is = pool.eq(e, pool.cst(i, 64)); auto r = may(st, is, m);
					if(r == Sat::unknown) { killed(); return R::term; }
					if(r == Sat::no) continue;
					auto & o = forkState(st); addCons(o, is); o.model = m; finishCall(o, ki, pool.cst(i, 64));
				}
				E is = pool.eq(e, pool.cst(0, 64)); if(may(st, is, m) != Sat::yes) { killed(); return R::term; }
				st.model = m; addCons(st, is); return done(st, ki, pool.cst(0, 64));
			}
			case b_bytes: {
				if(!C(0, x, "address") || !C(1, y, "length")) return R::term;
				auto nm = cstr(st, a[2]); ObjRef * r; uint64_t off;
				if(y) { if(!span(st, x, y, true, r, off)) return R::term; auto & o = r->write(); for(uint64_t i{0}; i < y; ++i) o.bytes[off + i] = input(st, nm, 8); }
				return done(st, ki);
			}
			case b_assume: {
				E c = pool.extract(a[0], 0, 1); c = fold(st, c); if(tainted(st, c, "assumption")) return R::term;
				ModelRef m; if(may(st, c, m) != Sat::yes) { killed(); return R::term; }
				st.model = m; addCons(st, c); return done(st, ki);
			}
			case b_assert: {
				E c = pool.extract(a[0], 0, 1); c = fold(st, c); ++res->asserts;
				if(c->uninit && tainted(st, c, "asserted condition")) return R::term;
				if(c == pool.tru()) return done(st, ki);
				++res->solverAsserts; ModelRef m; auto r = may(st, pool.neg(c), m);
				if(r == Sat::yes) { violate(st, "assert", cstr(st, a[1]), m); ModelRef m2; if(may(st, c, m2) != Sat::yes) return R::term; st.model = m2; addCons(st, c); }
				else if(r == Sat::unknown) { killed(); return R::term; }
				return done(st, ki);
			}
			case b_fail: violate(st, "assert", cstr(st, a[0])); return R::term;
			case b_conc: if(!C(0, x, "concretised value")) return R::term; return done(st, ki, pool.cst(x, 64));
			case b_reach: ++res->reach[cstr(st, a[0])]; return done(st, ki);
			case b_note: { auto nm = intern(cstr(st, a[0])); if(a[1]->uninit && tainted(st, a[1], "observed value")) return R::term; st.notes.emplace_back(nm, a[1]); return done(st, ki); }
			case b_heap_live: return done(st, ki, pool.cst(heapLive(st), 64));
			case b_alloc_fail: if(!C(0, x, "budget")) return R::term; st.failBudget = (int)x; return done(st, ki);
			case b_shared: // from here on (1) everything on the heap and the static data of ptl may be in use by other threads; (0) no longer
				if(!C(0, x, "flag")) return R::term; st.shared = x; if(x) for(auto & o : st.objs) if(o && !o->dead && (o->kind == Kind::heapNew || o->kind == Kind::heapNewArr || o->kind == Kind::heapMalloc)) { if(!o->watched) o.write().watched = true; } return done(st, ki);
			case b_noleak: st.leakCheck = false; return done(st, ki);
			case b_distinct: if(!C(0, x, "address") || !C(1, y, "address")) return R::term; return done(st, ki, pool.cst(x >> 32 == y >> 32, 32));
			case b_life_ctor: case b_life_dtor: case b_life_check: {
				if(!C(0, x, "address")) return R::term;
				bool live = st.life->count(x);
				if(b == b_life_ctor && live) { violate(st, "lifetime", "an element is constructed over a live element"); return R::term; }
				if(b != b_life_ctor && !live) { violate(st, "lifetime", b == b_life_dtor ? "an element is destroyed that is not alive" : "an element is used that is not alive"); return R::term; }
				if(b != b_life_check) { auto n = std::make_shared<std::map<uint64_t, uint32_t>>(*st.life); if(b == b_life_ctor) (*n)[x] = 1; else n->erase(x); st.life = n; }
				return done(st, ki);
			}
			case b_life_count: return done(st, ki, pool.cst(st.life->size(), 64));
			case b_new: case b_new_nt: if(!allocSize(st, a[0], x)) return R::term; return alloc(st, ki, x, 16, Kind::heapNew, b == b_new_nt, false);
			case b_newa: case b_newa_nt: if(!allocSize(st, a[0], x)) return R::term; return alloc(st, ki, x, 16, Kind::heapNewArr, b == b_newa_nt, false);
			case b_new_al: case b_newa_al: if(!allocSize(st, a[0], x) || !C(1, y, "alignment")) return R::term; return alloc(st, ki, x, y, b == b_new_al ? Kind::heapNew : Kind::heapNewArr, false, false);
			case b_malloc: if(!allocSize(st, a[0], x)) return R::term; return alloc(st, ki, x, 16, Kind::heapMalloc, true, false);
			case b_aligned_alloc: if(!allocSize(st, a[1], x) || !C(0, y, "alignment")) return R::term; return alloc(st, ki, x, y, Kind::heapMalloc, true, false);
			case b_calloc: {
				// overflow of the product is a failure
				E w = pool.mul(pool.zext(a[0], 128), pool.zext(a[1], 128)); E p;
				if(Pool::isC(a[0]) && Pool::isC(a[1])) { auto t = (unsigned __int128)a[0]->val * a[1]->val; p = pool.cst(t > allocLimit ? allocLimit + 1 : (uint64_t)t, 64); }
				else if((Pool::isC(a[1]) && a[1]->val == 1)) p = a[0];
				else if((Pool::isC(a[0]) && a[0]->val == 1)) p = a[1];
				else p = pool.ite(pool.eq(pool.extract(w, 64, 64), pool.cst(0, 64)), pool.extract(w, 0, 64), pool.cst(allocLimit + 1, 64));
				if(!allocSize(st, p, x)) return R::term; return alloc(st, ki, x, 16, Kind::heapMalloc, true, true);
			}
			case b_realloc: throw Unsupported("realloc");
			case b_del: case b_dela: { if(!C(0, x, "freed pointer")) return R::term; bool s = extra == "s"; if(s && !C(1, y, "freed size")) return R::term; if(!release(st, x, b == b_del ? Kind::heapNew : Kind::heapNewArr, y, s)) return R::term; return done(st, ki); }
			case b_free: if(!C(0, x, "freed pointer")) return R::term; if(!release(st, x, Kind::heapMalloc, 0, false)) return R::term; return done(st, ki);
			case b_strlen: {
				if(!C(0, x, "string address")) return R::term;
				for(uint64_t i{0};; ++i) {
					ObjRef * r; uint64_t off; if(!span(st, x + i, 1, false, r, off)) return R::term;
					auto d = decide(st, pool.eq(byteAt(st, *r, off), pool.byte(0)), "string byte"); if(d < 0) return R::term;
					if(d) return done(st, ki, pool.cst(i, 64));
				}
			}
			case b_memcmp: {
				if(!C(0, x, "address") || !C(1, y, "address") || !C(2, z, "length")) return R::term;
				if(!z) return done(st, ki, pool.cst(0, 32));
				ObjRef * r, * q; uint64_t o1, o2; if(!span(st, x, z, false, r, o1) || !span(st, y, z, false, q, o2)) return R::term;
				// uninitialised bytes are unconstrained: whatever follows the first few cannot make the result independent of them
				uint64_t unknown{0};
				for(uint64_t i{0}; i < z; ++i) { E p = byteAt(st, *r, o1 + i), s = byteAt(st, *q, o2 + i); if((p->uninit || s->uninit) && p != s && ++unknown == 8) z = i + 1; }
				E v = pool.cst(0, 32);
				for(uint64_t i = z; i-- > 0;) { E p = byteAt(st, *r, o1 + i), s = byteAt(st, *q, o2 + i); v = pool.ite(pool.eq(p, s), v, pool.sub(pool.zext(p, 32), pool.zext(s, 32))); }
				return done(st, ki, v);
			}
			case b_strcmp: case b_strncmp: {
				if(!C(0, x, "address") || !C(1, y, "address")) return R::term;
				z = ~0ull; if(b == b_strncmp && !C(2, z, "length")) return R::term;
				for(uint64_t i{0}; i < z; ++i) {
					ObjRef * r, * q; uint64_t o1, o2; if(!span(st, x + i, 1, false, r, o1) || !span(st, y + i, 1, false, q, o2)) return R::term;
					E p = byteAt(st, *r, o1), s = byteAt(st, *q, o2);
					auto d = decide(st, pool.band(pool.eq(p, s), pool.neg(pool.eq(p, pool.byte(0)))), "string byte"); if(d < 0) return R::term;
					if(!d) return done(st, ki, pool.sub(pool.zext(p, 32), pool.zext(s, 32)));
				}
				return done(st, ki, pool.cst(0, 32));
			}
			case b_memchr: {
				if(!C(0, x, "address") || !C(2, z, "length")) return R::term;
				E ch = pool.extract(a[1], 0, 8);
				for(uint64_t i{0}; i < z; ++i) {
					ObjRef * r; uint64_t off; if(!span(st, x + i, 1, false, r, off)) return R::term;
					auto d = decide(st, pool.eq(byteAt(st, *r, off), ch), "searched byte"); if(d < 0) return R::term;
					if(d) return done(st, ki, pool.cst(x + i, 64));
				}
				return done(st, ki, pool.cst(0, 64));
			}
			case b_strchr: {
				if(!C(0, x, "address")) return R::term; E ch = pool.extract(a[1], 0, 8);
				for(uint64_t i{0};; ++i) {
					ObjRef * r; uint64_t off; if(!span(st, x + i, 1, false, r, off)) return R::term; E p = byteAt(st, *r, off);
					auto d = decide(st, pool.eq(p, ch), "searched byte"); if(d < 0) return R::term; if(d) return done(st, ki, pool.cst(x + i, 64));
					d = decide(st, pool.eq(p, pool.byte(0)), "string byte"); if(d < 0) return R::term; if(d) return done(st, ki, pool.cst(0, 64));
				}
			}
			case b_memcpy: case b_memmove: { auto dst = a[0]; auto r = copy(st, a, b == b_memmove); if(r == R::term) return r; return done(st, ki, dst); }
			case b_memset: { auto dst = a[0]; auto r = fill(st, a); if(r == R::term) return r; return done(st, ki, dst); }
			case b_hash: {
				if(!C(0, x, "address") || !C(1, y, "length")) return R::term;
				E h = pool.bxor(pool.zext(a[2], 64), pool.cst(y * 0x9E3779B97F4A7C15ull, 64));
				if(y) { ObjRef * r; uint64_t off; if(!span(st, x, y, false, r, off)) return R::term; for(uint64_t i{0}; i < y; ++i) { h = pool.concat(pool.extract(h, 0, 57), pool.extract(h, 57, 7)); h = pool.bxor(h, pool.zext(byteAt(st, *r, off + i), 64)); } }
				return done(st, ki, h);
			}
			case b_exc_alloc: { if(!C(0, x, "size")) return R::term; auto o = newObj(st, x, 16, Kind::exception, ""); return done(st, ki, pool.cst(o, 64)); }
			case b_exc_free: return done(st, ki);
			case b_throw: if(!C(0, x, "exception") || !C(1, y, "typeinfo") || !C(2, z, "destructor")) return R::term; st.excs.push_back({x, y, z, 0, false}); return unwind(st, x, y, true);
			case b_begin: case b_getexc: {
				if(!C(0, x, "exception")) return R::term;
				if(b == b_begin) for(size_t i = st.excs.size(); i-- > 0;) if(st.excs[i].obj == x) { ++st.excs[i].handlers; st.excs[i].rethrown = false; st.caught.push_back((uint32_t)i); break; }
				return done(st, ki, pool.cst(x, 64));
			}
			case b_end: {
				if(st.caught.empty()) return done(st, ki);
				auto & e = st.excs[st.caught.back()]; st.caught.pop_back();
				if(--e.handlers == 0 && !e.rethrown && e.dtor) { auto F = funcAt(e.dtor); if(F && !F->isDeclaration()) { auto o = e.obj; pushFrame(st, kf(F), {pool.cst(o, 64)}); return R::next; } }
				return done(st, ki);
			}
			case b_rethrow: { if(st.caught.empty()) { violate(st, "terminate", "rethrow without an exception"); return R::term; } auto & e = st.excs[st.caught.back()]; e.rethrown = true; auto o = e.obj, t = e.tinfo; return unwind(st, o, t, true); }
			case b_uncaught: { uint64_t n{0}; for(auto & e : st.excs) if(!e.handlers) ++n; return done(st, ki, pool.cst(n, ki.width)); }
			case b_throw_named: return throwStd(st, extra.c_str());
			case b_terminate: violate(st, "terminate", "std::terminate is called"); return R::term;
			case b_abort: violate(st, "abort", "the process is aborted or exits"); return R::term;
			case b_pure: violate(st, "pure-virtual", "pure virtual call"); return R::term;
			case b_guard_acq: { E v = load(st, a[0], llvm::Type::getInt8Ty(M.getContext()), 1); if(!v) return R::term; if(Pool::isC(v) && v->val == 0) ++st.guards; return done(st, ki, pool.zext(pool.eq(v, pool.byte(0)), 32)); }
			case b_guard_rel: if(!store(st, a[0], pool.byte(1), nullptr, 1)) return R::term; if(st.guards) --st.guards; return done(st, ki);
			case b_nop: return done(st, ki, ki.width ? pool.cst(0, ki.width) : nullptr);
			case b_zero: return done(st, ki, pool.cst(0, ki.width));
		}
		throw Unsupported("builtin");
	}
	const llvm::Function * funcAt(uint64_t a) { if((a >> 60) != 0xF) return nullptr; auto i = (a & 0xFFFFFFFFFFF) / 16; return i && i <= funcs.size() ? funcs[i - 1] : nullptr; }
	R copy(State & st, std::vector<E> & a, bool move) {
		uint64_t d, s, n; if(!conc(st, a[2], n, "copy length")) return R::term;
		if(!n) return R::next;
		if(!conc(st, a[0], d, "copy destination") || !conc(st, a[1], s, "copy source")) return R::term;
		ObjRef * r, * q; uint64_t o1, o2; if(!span(st, s, n, false, q, o2) || !span(st, d, n, true, r, o1)) return R::term;
		if(d == s) return R::next;
		if(!move && d >> 32 == s >> 32 && (d < s ? d + n > s : s + n > d)) { violate(st, "overlap", "memcpy of overlapping ranges"); return R::term; }
		std::vector<E> tmp((*q)->bytes.begin() + (long)o2, (*q)->bytes.begin() + (long)(o2 + n));
		auto & w = r->write(); std::copy(tmp.begin(), tmp.end(), w.bytes.begin() + (long)o1);
		return R::next;
	}
	R fill(State & st, std::vector<E> & a) {
		uint64_t d, n; if(!conc(st, a[2], n, "fill length")) return R::term;
		if(!n) return R::next;
		if(!conc(st, a[0], d, "fill destination")) return R::term;
		ObjRef * r; uint64_t off; if(!span(st, d, n, true, r, off)) return R::term;
		auto & w = r->write(); E v = pool.extract(a[1], 0, 8); for(uint64_t i{0}; i < n; ++i) w.bytes[off + i] = v;
		return R::next;
	}
	R intrinsic(State & st, const KInst & ki, std::vector<E> & a) {
		using namespace llvm;
		auto w = ki.width; auto one = [&] { return pool.cst(1, w); }; (void)one;
		auto msb = [&](E e) { return pool.extract(e, e->width - 1, 1); };
		switch(ki.callee->getIntrinsicID()) {
			case Intrinsic::memcpy: case Intrinsic::memcpy_inline: if(copy(st, a, false) == R::term) return R::term; return done(st, ki);
			case Intrinsic::memmove: if(copy(st, a, true) == R::term) return R::term; return done(st, ki);
			case Intrinsic::memset: case Intrinsic::memset_inline: if(fill(st, a) == R::term) return R::term; return done(st, ki);
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
				if(!Pool::isC(a[1])) return done(st, ki);
				auto id = idOf(a[1]->val); if(id >= st.objs.size() || !st.objs[id] || st.objs[id]->base != a[1]->val) return done(st, ki);
				bool end = ki.callee->getIntrinsicID() == Intrinsic::lifetime_end;
				if(end && !st.life->empty() && !st.objs[id]->dead && !lifeGone(st, a[1]->val, st.objs[id]->size, "a variable going out of scope")) return R::term;
				auto & o = st.objs[id].write(); o.dead = end; std::fill(o.bytes.begin(), o.bytes.end(), nullptr);
				return done(st, ki);
			}
			case Intrinsic::invariant_start: return done(st, ki, pool.cst(0, 64));
			case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::sideeffect: return done(st, ki);
			case Intrinsic::stacksave: return done(st, ki, pool.cst(0, 64));
			case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: return done(st, ki, a[0]);
			case Intrinsic::is_constant: return done(st, ki, pool.cst(Pool::isC(a[0]), 1));
			case Intrinsic::objectsize: return done(st, ki, pool.cst(~0ull, w));
			case Intrinsic::ptrmask: return done(st, ki, pool.band(a[0], pool.zext(a[1], 64)));
			case Intrinsic::assume: { ModelRef m; E c = fold(st, a[0]); if(c == pool.tru()) return done(st, ki); if(may(st, pool.neg(c), m) == Sat::yes) { violate(st, "unreachable", "an assumption stated to the compiler is false", m); return R::term; } return done(st, ki); }
			case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violate(st, "abort", "trap"); return R::term;
			case Intrinsic::eh_typeid_for: { if(!Pool::isC(a[0])) throw Unsupported("typeid.for"); return done(st, ki, pool.cst(selectorOf(a[0]->val), 32)); }
			case Intrinsic::umin: return done(st, ki, pool.ite(pool.ult(a[0], a[1]), a[0], a[1]));
			case Intrinsic::umax: return done(st, ki, pool.ite(pool.ult(a[0], a[1]), a[1], a[0]));
			case Intrinsic::smin: return done(st, ki, pool.ite(pool.slt(a[0], a[1]), a[0], a[1]));
			case Intrinsic::smax: return done(st, ki, pool.ite(pool.slt(a[0], a[1]), a[1], a[0]));
			case Intrinsic::abs: return done(st, ki, pool.ite(msb(a[0]), pool.sub(pool.cst(0, w), a[0]), a[0]));
			case Intrinsic::bswap: { E r = pool.extract(a[0], w - 8, 8); for(uint32_t i{8}; i < w; i += 8) r = pool.concat(pool.extract(a[0], w - 8 - i, 8), r); return done(st, ki, r); }
			case Intrinsic::ctpop: { E r = pool.cst(0, w); for(uint32_t i{0}; i < w; ++i) r = pool.add(r, pool.zext(pool.extract(a[0], i, 1), w)); return done(st, ki, r); }
			case Intrinsic::cttz: { E r = pool.cst(w, w); for(uint32_t i = w; i-- > 0;) r = pool.ite(pool.extract(a[0], i, 1), pool.cst(i, w), r); return done(st, ki, r); }
			case Intrinsic::ctlz: { E r = pool.cst(w, w); for(uint32_t i{0}; i < w; ++i) r = pool.ite(pool.extract(a[0], i, 1), pool.cst(w - 1 - i, w), r); return done(st, ki, r); }
			case Intrinsic::bitreverse: { E r = pool.extract(a[0], w - 1, 1); for(uint32_t i{1}; i < w; ++i) r = pool.concat(pool.extract(a[0], w - 1 - i, 1), r); return done(st, ki, r); }
			case Intrinsic::fshl: case Intrinsic::fshr: {
				if(!Pool::isC(a[2])) throw Unsupported("symbolic funnel shift"); auto s = a[2]->val % w; E c = pool.concat(a[0], a[1]);
				if(ki.callee->getIntrinsicID() == Intrinsic::fshl) return done(st, ki, pool.extract(c, w - (uint32_t)s, w)); return done(st, ki, pool.extract(c, (uint32_t)s, w));
			}
			case Intrinsic::usub_sat: return done(st, ki, pool.ite(pool.ult(a[0], a[1]), pool.cst(0, w), pool.sub(a[0], a[1])));
			case Intrinsic::uadd_sat: { E s = pool.add(a[0], a[1]); return done(st, ki, pool.ite(pool.ult(s, a[0]), pool.cst(~0ull, w), s)); }
			case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
				auto n = a[0]->width; E r, o;
				switch(ki.callee->getIntrinsicID()) {
					case Intrinsic::uadd_with_overflow: r = pool.add(a[0], a[1]); o = pool.ult(r, a[0]); break;
					case Intrinsic::usub_with_overflow: r = pool.sub(a[0], a[1]); o = pool.ult(a[0], a[1]); break;
					case Intrinsic::umul_with_overflow:
						r = pool.mul(a[0], a[1]);
						if(Pool::isC(a[1]) && n <= 64) o = a[1]->val ? pool.ult(pool.cst(Pool::mask(n) / a[1]->val, n), a[0]) : pool.fls();
						else if(Pool::isC(a[0]) && n <= 64) o = a[0]->val ? pool.ult(pool.cst(Pool::mask(n) / a[0]->val, n), a[1]) : pool.fls();
						else o = pool.neg(pool.eq(pool.extract(pool.mul(pool.zext(a[0], 2 * n), pool.zext(a[1], 2 * n)), n, n), pool.cst(0, n)));
						break;
					default: {
						auto id = ki.callee->getIntrinsicID(); E x = pool.sxt(a[0], 2 * n), y = pool.sxt(a[1], 2 * n);
						E wr = id == Intrinsic::sadd_with_overflow ? pool.add(x, y) : id == Intrinsic::ssub_with_overflow ? pool.sub(x, y) : pool.mul(x, y);
						r = pool.extract(wr, 0, n); o = pool.neg(pool.eq(wr, pool.sxt(r, 2 * n)));
					}
				}
				// memory image of { iN, i1 }
				auto total = ki.width; auto off = n; // i1 follows directly
				return done(st, ki, pool.zext(pool.concat(o, r), total)); (void)off;
			}
			default: throw Unsupported("intrinsic " + ki.callee->getName().str());
		}
	}
	R call(State & st, const KInst & ki) {
		auto & cb = llvm::cast<llvm::CallBase>(*ki.I);
		std::vector<E> a; auto n = cb.arg_size(); a.reserve(n);
		const llvm::Function * F = ki.callee;
		for(unsigned i{0}; i < n; ++i) a.push_back(get(st, ki.ops[i]));
		if(!F) {
			if(cb.isInlineAsm()) { auto ia = llvm::cast<llvm::InlineAsm>(cb.getCalledOperand()); if(ia->getAsmString().empty() && ki.width == 0) { return done(st, ki); } throw Unsupported("inline assembly"); }
			uint64_t v; if(!conc(st, get(st, ki.ops[n]), v, "called function")) return R::term;
			F = funcAt(v);
			if(!F) { violate(st, "bad-call", v ? "call through an invalid function pointer" : "call through a null function pointer"); return R::term; }
			if(F->arg_size() > n && !F->isVarArg()) { violate(st, "bad-call", "call with too few arguments"); return R::term; }
		}
		if(F->isIntrinsic()) return intrinsic(st, ki, a);
		if(F->getName() == "__clang_call_terminate") return callBuiltin(st, ki, b_terminate, a, "");
		if(F->isDeclaration()) {
			auto it = builtins.find(F->getName().str());
			if(it == builtins.end()) throw Unsupported("external function " + llvm::demangle(F->getName().str()));
			return callBuiltin(st, ki, it->second.first, a, it->second.second);
		}
		auto & k = kf(F);
		for(unsigned i{0}; i < F->arg_size() && i < n; ++i) if(cb.isByValArgument(i)) { // callee-owned copy
			auto ty = cb.getParamByValType(i); auto size = DL.getTypeAllocSize(ty); auto o = newObj(st, size, cb.getParamAlign(i).valueOrOne().value(), Kind::stack, "argument");
			std::vector<E> args{pool.cst(o, 64), a[i], pool.cst(size, 64)}; if(copy(st, args, false) == R::term) return R::term;
			a[i] = pool.cst(o, 64); byval.push_back(o);
		}
		pushFrame(st, k, std::move(a));
		for(auto o : byval) st.frames.back().allocas.push_back(o);
		byval.clear();
		return R::next;
	}
	std::vector<uint64_t> byval;
	bool overflowCheck(State & st, E bad, const char * what) {
		bad = fold(st, bad); if(bad == pool.fls()) return true;
		ModelRef m; auto r = may(st, bad, m);
		if(r == Sat::yes) { violate(st, "overflow", what, m); ModelRef m2; E ok = pool.neg(bad); if(may(st, ok, m2) != Sat::yes) return false; st.model = m2; addCons(st, ok); }
		return r != Sat::unknown;
	}
	R step(State & st) {
		using LI = llvm::Instruction;
		auto & f = st.frames.back(); auto & ki = f.kf->insts[f.pc]; ++st.steps; ++res->steps;
		auto set = [&](E v) { auto & g = st.frames.back(); g.regs[ki.dest] = v; ++g.pc; return R::next; };
		if(trace) { std::string s; llvm::raw_string_ostream o{s}; ki.I->print(o); fprintf(stderr, "[%zu] %s\n", st.frames.size(), o.str().c_str()); }
		switch(ki.opcode) {
			case 0: ++f.pc; return R::next;
			case LI::Ret: {
				E v = ki.ops.empty() ? nullptr : get(st, ki.ops[0]);
				if(!popFrame(st)) return R::term;
				if(st.frames.empty()) return R::term;
				auto & g = st.frames.back(); auto & ci = g.kf->insts[g.pc]; finishCall(st, ci, ci.dest >= 0 ? v : nullptr); return R::next;
			}
			case LI::Br: {
				if(ki.ops.empty()) { enterBlock(st, ki.blocks[0]); return R::next; }
				auto d = decide2(st, get(st, ki.ops[0]), ki);
				if(d < 0) return R::term;
				enterBlock(st, ki.blocks[d ? 0 : 1]); return R::next;
			}
			case LI::Switch: {
				E c = get(st, ki.ops[0]);
				if(Pool::isC(c)) { size_t i{0}; for(; i < ki.aux.size(); ++i) if(ki.aux[i] == c->val) break; enterBlock(st, i < ki.aux.size() ? ki.blocks[i + 1] : ki.blocks[0]); return R::next; }
				if(c->uninit && tainted(st, c, "switch value")) return R::term;
				for(size_t i{0}; i < ki.aux.size(); ++i) { auto d = decide(st, pool.eq(c, pool.cst(ki.aux[i], c->width)), "switch value"); if(d < 0) return R::term; if(d) { enterBlock(st, ki.blocks[i + 1]); return R::next; } }
				enterBlock(st, ki.blocks[0]); return R::next;
			}
			case LI::Unreachable: violate(st, "unreachable", "control reaches code marked unreachable (flowing off a function or a non-returning call returned)"); return R::term;
			case LI::Alloca: {
				auto al = llvm::cast<llvm::AllocaInst>(ki.I); uint64_t n{1}; if(al->isArrayAllocation() && !conc(st, get(st, ki.ops[0]), n, "alloca size")) return R::term;
				static std::unordered_map<const llvm::Instruction *, const char *> nm; auto & s = nm[al]; if(!s) s = strdup(al->getName().str().c_str());
				auto a = newObj(st, n * DL.getTypeAllocSize(al->getAllocatedType()), al->getAlign().value(), Kind::stack, s);
				st.frames.back().allocas.push_back(a); return set(pool.cst(a, 64));
			}
			case LI::Load: { auto l = llvm::cast<llvm::LoadInst>(ki.I); E v = load(st, get(st, ki.ops[0]), l->getType(), l->getAlign().value()); if(!v) return R::term; return set(fold(st, v)); }
			case LI::Store: { auto s = llvm::cast<llvm::StoreInst>(ki.I); E v = get(st, ki.ops[0]); if(!store(st, get(st, ki.ops[1]), v, s->getValueOperand()->getType(), s->getAlign().value())) return R::term; ++st.frames.back().pc; return R::next; }
			case LI::GetElementPtr: {
				E e = pool.add(get(st, ki.ops[0]), pool.cst(ki.aux[0], 64));
				for(size_t i{1}; i < ki.ops.size(); ++i) { E x = get(st, ki.ops[i]); if(x->width < 64) x = pool.sxt(x, 64); e = pool.add(e, pool.mul(x, pool.cst(ki.aux[i], 64))); }
				return set(e);
			}
			case LI::Call: case LI::Invoke: return call(st, ki);
			case LI::LandingPad: { E v = st.lp; st.lp = nullptr; return set(v); }
			case LI::Resume: { uint64_t x; if(!conc(st, pool.extract(get(st, ki.ops[0]), 0, 64), x, "exception")) return R::term; uint64_t ti{0}; for(auto & e : st.excs) if(e.obj == x) ti = e.tinfo; return unwind(st, x, ti, false); }
			case LI::ExtractValue: return set(pool.extract(get(st, ki.ops[0]), (uint32_t)ki.aux[0], ki.width));
			case LI::InsertValue: {
				E agg = get(st, ki.ops[0]), v = get(st, ki.ops[1]); uint32_t lo = (uint32_t)ki.aux[0], hi = lo + v->width; E r = v;
				if(lo) r = pool.concat(r, pool.extract(agg, 0, lo));
				if(hi < agg->width) r = pool.concat(pool.extract(agg, hi, agg->width - hi), r);
				return set(r);
			}
			case LI::Select: { E c = get(st, ki.ops[0]), x = get(st, ki.ops[1]), y = get(st, ki.ops[2]); return set(fold(st, pool.ite(c, x, y))); }
			case LI::Freeze: case LI::BitCast: return set(get(st, ki.ops[0]));
			case LI::PtrToInt: case LI::IntToPtr: case LI::Trunc: case LI::ZExt: { E x = get(st, ki.ops[0]); return set(x->width >= ki.width ? pool.extract(x, 0, ki.width) : pool.zext(x, ki.width)); }
			case LI::SExt: return set(pool.sxt(get(st, ki.ops[0]), ki.width));
			case LI::ICmp: {
				E x = get(st, ki.ops[0]), y = get(st, ki.ops[1]); E r; using P = llvm::CmpInst;
				switch(llvm::cast<llvm::ICmpInst>(ki.I)->getPredicate()) {
					case P::ICMP_EQ: r = pool.eq(x, y); break; case P::ICMP_NE: r = pool.neg(pool.eq(x, y)); break;
					case P::ICMP_ULT: r = pool.ult(x, y); break; case P::ICMP_ULE: r = pool.ule(x, y); break; case P::ICMP_UGT: r = pool.ult(y, x); break; case P::ICMP_UGE: r = pool.ule(y, x); break;
					case P::ICMP_SLT: r = pool.slt(x, y); break; case P::ICMP_SLE: r = pool.sle(x, y); break; case P::ICMP_SGT: r = pool.slt(y, x); break; case P::ICMP_SGE: r = pool.sle(y, x); break;
					default: throw Unsupported("icmp");
				}
				return set(r);
			}
			default: break;
		}
		if(ki.ops.size() == 2) {
			E x = get(st, ki.ops[0]), y = get(st, ki.ops[1]); auto w = ki.width; E r;
			auto ob = llvm::dyn_cast<llvm::OverflowingBinaryOperator>(ki.I); bool nsw = ob && ob->hasNoSignedWrap() && w <= 64;
			switch(ki.opcode) {
				case LI::Add: r = pool.add(x, y); if(nsw) { E sx_ = pool.extract(x, w - 1, 1), sy = pool.extract(y, w - 1, 1), sr = pool.extract(r, w - 1, 1); if(!overflowCheck(st, pool.band(pool.eq(sx_, sy), pool.neg(pool.eq(sx_, sr))), "signed overflow in addition")) return R::term; } return set(r);
				case LI::Sub: r = pool.sub(x, y); if(nsw) { E sx_ = pool.extract(x, w - 1, 1), sy = pool.extract(y, w - 1, 1), sr = pool.extract(r, w - 1, 1); if(!overflowCheck(st, pool.band(pool.neg(pool.eq(sx_, sy)), pool.neg(pool.eq(sx_, sr))), "signed overflow in subtraction")) return R::term; } return set(r);
				case LI::Mul: r = pool.mul(x, y); if(nsw) { E wide = pool.mul(pool.sxt(x, 2 * w), pool.sxt(y, 2 * w)); if(!(Pool::isC(x) && Pool::isC(y)) && w <= 32) if(!overflowCheck(st, pool.neg(pool.eq(wide, pool.sxt(r, 2 * w))), "signed overflow in multiplication")) return R::term; } return set(r);
				case LI::UDiv: case LI::SDiv: case LI::URem: case LI::SRem: {
					E z = fold(st, pool.eq(y, pool.cst(0, w)));
					if(z != pool.fls()) { ModelRef m; if(may(st, z, m) == Sat::yes) { violate(st, "div-by-zero", "division by zero", m); ModelRef m2; if(may(st, pool.neg(z), m2) != Sat::yes) return R::term; st.model = m2; addCons(st, pool.neg(z)); } }
					auto ex = llvm::dyn_cast<llvm::PossiblyExactOperator>(ki.I); 
					if(ex && ex->isExact() && Pool::isC(y) && y->val && (y->val & (y->val - 1)) == 0 && ki.opcode == LI::SDiv) return set(pool.ashr(x, pool.cst(__builtin_ctzll(y->val), w)));
					r = ki.opcode == LI::UDiv ? pool.udiv(x, y) : ki.opcode == LI::SDiv ? pool.sdiv(x, y) : ki.opcode == LI::URem ? pool.urem(x, y) : pool.srem(x, y); return set(r);
				}
				case LI::And: return set(pool.band(x, y)); case LI::Or: return set(pool.bor(x, y)); case LI::Xor: return set(pool.bxor(x, y));
				case LI::Shl: case LI::LShr: case LI::AShr: {
					E big = fold(st, pool.ule(pool.cst(w, y->width), y));
					if(big != pool.fls()) { ModelRef m; if(may(st, big, m) == Sat::yes) { violate(st, "shift", "shift amount not smaller than the width", m); ModelRef m2; if(may(st, pool.neg(big), m2) != Sat::yes) return R::term; st.model = m2; addCons(st, pool.neg(big)); } }
					r = ki.opcode == LI::Shl ? pool.shl(x, y) : ki.opcode == LI::LShr ? pool.lshr(x, y) : pool.ashr(x, y); return set(r);
				}
				default: break;
			}
		}
		std::string s; llvm::raw_string_ostream o{s}; ki.I->print(o); throw Unsupported("instruction " + o.str());
	}
	int decide2(State & st, E c, const KInst & ki) { return decide(st, c, "branch condition"); }

	// run one state until it finishes
	void run(State & st, const std::string & entry) {
		try {
			for(;;) {
				if(step(st) == R::term) break;
				if(st.steps > maxSteps) { violate(st, "hang", "no end within " + std::to_string(maxSteps) + " steps"); return; }
				if((st.steps & 0xFFF) == 0 && now() > deadline) { res->incomplete = true; res->problems.insert("time limit"); return; }
				if(slice && --slice == 0) { paused = true; return; }
			}
			if(st.frames.empty()) completed(st);
		} catch(const TooDeep &) { byval.clear(); violate(st, "recursion", "recursion without end (call depth over 1500)");
		} catch(const Unsupported & e) { 
			std::string where; if(!st.frames.empty()) { auto & f = st.frames.back(); where = " in " + fnName(*f.kf) + " (" + locOf(f.kf->insts[f.pc]) + ")"; }
			res->problems.insert(std::string{"unsupported: "} + e.what() + where); res->incomplete = true; byval.clear();
		}
	}
	uint64_t slice{0}; bool paused{false};
	void completed(State & st) {
		++res->paths; res->maxSteps = std::max(res->maxSteps, st.steps); res->maxDepth = std::max<uint64_t>(res->maxDepth, st.seq.size());
		if(st.leakCheck) {
			auto report = [&](const char * k, const std::string & m) { Violation v; v.kind = k; v.msg = m; v.where = "end"; keep(*res, std::move(v), 8, [&](Violation & v) { for(auto & s : st.seq) v.inputs.emplace_back(names[s.name], solver.eval(s.e, *st.model)); }); };
			if(auto n = heapLive(st)) report("leak", std::to_string(n) + " heap allocation(s) never released"); 
			else if(!st.life->empty()) report("lifetime", std::to_string(st.life->size()) + " element(s) never destroyed");
		}
		++seenPaths; size_t slot = res->traces.size();
		if(slot >= sampleMax) { slot = rnd() % seenPaths; if(slot >= sampleMax) return; } else res->traces.emplace_back();
		auto & t = res->traces[slot]; t.inputs.clear(); t.notes.clear();
		for(auto & s : st.seq) t.inputs.emplace_back(names[s.name], solver.eval(s.e, *st.model));
		for(auto & [n, e] : st.notes) t.notes.emplace_back(names[n], solver.eval(e, *st.model));
	}
	State * makeEntry(const std::string & entry) {
		auto F = M.getFunction(entry); if(!F || F->isDeclaration()) throw Unsupported("no entry " + entry);
		auto st = std::make_unique<State>(initial);
		pushFrame(*st, kf(F), {});
		work.push_back(std::move(st)); ++res->states; return work.back().get();
	}
	void runCtors() { // global constructors
		auto G = M.getNamedGlobal("llvm.global_ctors"); if(!G || !G->hasInitializer()) return;
		auto arr = llvm::dyn_cast<llvm::ConstantArray>(G->getInitializer()); if(!arr) return;
		for(auto & o : arr->operands()) {
			auto F = llvm::dyn_cast<llvm::Function>(llvm::cast<llvm::ConstantStruct>(o)->getOperand(1)->stripPointerCasts()); if(!F) continue;
			Result tmp; res = &tmp; pushFrame(initial, kf(F), {});
			while(!initial.frames.empty()) { if(initial.frames.size() == 1 && initial.frames[0].kf->insts[initial.frames[0].pc].opcode == llvm::Instruction::Ret) { popFrame(initial); break; } if(step(initial) == R::term) break; }
			if(!work.empty()) throw Unsupported("forking global constructor");
		}
		initial.steps = 0;
	}
};

// ---------------------------------------------------------------------- result exchange and output
std::string esc(const std::string & s) { std::string r; for(char c : s) { if(c == '\\' || c == '\t' || c == '\n') { r += '\\'; r += c == '\t' ? 't' : c == '\n' ? 'n' : '\\'; } else r += c; } return r; }
std::string unesc(const std::string & s) { std::string r; for(size_t i{0}; i < s.size(); ++i) if(s[i] == '\\' && i + 1 < s.size()) { ++i; r += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : '\\'; } else r += s[i]; return r; }
std::string pairs(const std::vector<std::pair<std::string, uint64_t>> & v) { std::string r; for(auto & [n, x] : v) r += n + "=" + std::to_string(x) + ";"; return r; }
std::vector<std::pair<std::string, uint64_t>> unpairs(const std::string & s) { std::vector<std::pair<std::string, uint64_t>> r; size_t i{0}; while(i < s.size()) { auto e = s.find('=', i), f = s.find(';', e); r.emplace_back(s.substr(i, e - i), std::stoull(s.substr(e + 1, f - e - 1))); i = f + 1; } return r; }
void save(const Result & r, const std::string & fn) {
	std::ofstream o{fn};
	o << "n\t" << r.paths << '\t' << r.killed << '\t' << r.states << '\t' << r.steps << '\t' << r.forks << '\t' << r.asserts << '\t' << r.solverAsserts << '\t' << r.maxSteps << '\t' << r.memChecks << '\t' << r.incomplete << '\t' << r.maxDepth << '\n';
	o << "q\t" << r.q.queries << '\t' << r.q.sat << '\t' << r.q.unsat << '\t' << r.q.unknown << '\t' << r.q.cacheHits << '\t' << r.q.free << '\t' << r.q.time << '\t' << r.q.maxTime << '\n';
	for(auto & [l, n] : r.reach) o << "r\t" << esc(l) << '\t' << n << '\n';
	for(auto & f : r.functions) o << "f\t" << esc(f) << '\n';
	for(auto & f : r.problems) o << "p\t" << esc(f) << '\n';
	for(auto & v : r.viols) o << "v\t" << esc(v.kind) << '\t' << esc(v.msg) << '\t' << esc(v.where) << '\t' << esc(v.fn) << '\t' << esc(v.stack) << '\t' << pairs(v.inputs) << '\n';
	for(auto & t : r.traces) o << "t\t" << pairs(t.inputs) << '\t' << pairs(t.notes) << '\n';
	o << "end\n";
}
bool merge(Result & r, const std::string & fn) {
	std::ifstream i{fn}; std::string l; bool end{false};
	while(std::getline(i, l)) {
		std::vector<std::string> f; { size_t p{0}; for(;;) { auto e = l.find('\t', p); f.push_back(l.substr(p, e == std::string::npos ? e : e - p)); if(e == std::string::npos) break; p = e + 1; } }
		auto u = [&](size_t k) { return std::stoull(f[k]); };
		if(f[0] == "n") { r.paths += u(1); r.killed += u(2); r.states += u(3); r.steps += u(4); r.forks += u(5); r.asserts += u(6); r.solverAsserts += u(7); r.maxSteps = std::max<uint64_t>(r.maxSteps, u(8)); r.memChecks += u(9); r.incomplete |= u(10); r.maxDepth = std::max<uint64_t>(r.maxDepth, u(11)); }
		else if(f[0] == "q") { r.q.queries += u(1); r.q.sat += u(2); r.q.unsat += u(3); r.q.unknown += u(4); r.q.cacheHits += u(5); r.q.free += u(6); r.q.time += std::stod(f[7]); r.q.maxTime = std::max(r.q.maxTime, std::stod(f[8])); }
		else if(f[0] == "r") r.reach[unesc(f[1])] += u(2);
		else if(f[0] == "f") r.functions.insert(unesc(f[1]));
		else if(f[0] == "p") r.problems.insert(unesc(f[1]));
		else if(f[0] == "v") { Violation v{unesc(f[1]), unesc(f[2]), unesc(f[3]), unesc(f[5]), unesc(f[4]), unpairs(f[6])}; Executor::keep(r, std::move(v), 40, [](Violation &) {}); }
		else if(f[0] == "t") r.traces.push_back({unpairs(f[1]), unpairs(f[2])});
		else if(f[0] == "end") end = true;
	}
	return end;
}
std::string js(const std::string & s) { std::string r{"\""}; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if(c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }
std::string jpairs(const std::vector<std::pair<std::string, uint64_t>> & v) { std::string r{"["}; for(auto & [n, x] : v) { if(r.size() > 1) r += ","; r += "[" + js(n) + "," + std::to_string(x) + "]"; } return r + "]"; }
void json(std::ostream & o, const std::string & name, const Result & r) {
	o << "{\"entry\":" << js(name) << ",\"paths\":" << r.paths << ",\"assumed_away\":" << r.killed << ",\"states\":" << r.states << ",\"steps\":" << r.steps << ",\"forks\":" << r.forks << ",\"asserts\":" << r.asserts << ",\"solver_asserts\":" << r.solverAsserts << ",\"max_path_steps\":" << r.maxSteps << ",\"memory_checks\":" << r.memChecks << ",\"max_inputs\":" << r.maxDepth
	  << ",\"queries\":" << r.q.queries << ",\"sat\":" << r.q.sat << ",\"unsat\":" << r.q.unsat << ",\"unknown\":" << r.q.unknown << ",\"cache_hits\":" << r.q.cacheHits << ",\"model_reuse\":" << r.q.free << ",\"solver_s\":" << r.q.time << ",\"max_query_s\":" << r.q.maxTime << ",\"incomplete\":" << (r.incomplete ? "true" : "false");
	o << ",\"reach\":{"; bool c{false}; for(auto & [l, n] : r.reach) { o << (c ? "," : "") << js(l) << ":" << n; c = true; } o << "},\"functions\":["; c = false;
	for(auto & f : r.functions) { o << (c ? "," : "") << js(f); c = true; } o << "],\"problems\":["; c = false;
	for(auto & f : r.problems) { o << (c ? "," : "") << js(f); c = true; } o << "],\"violations\":["; c = false;
	for(auto & v : r.viols) { o << (c ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"function\":" << js(v.fn) << ",\"stack\":" << js(v.stack) << ",\"inputs\":" << jpairs(v.inputs) << "}"; c = true; } o << "],\"traces\":["; c = false;
	for(auto & t : r.traces) { o << (c ? "," : "") << "{\"inputs\":" << jpairs(t.inputs) << ",\"notes\":" << jpairs(t.notes) << "}"; c = true; } o << "]}";
}
}

int main(int argc, char ** argv) {
	std::string file, out, tmp{"/tmp"}; std::vector<std::string> entries; unsigned jobs{8}, samples{40}; double limit{600}; uint64_t seed{1}, maxSteps{60000000}; bool trace{false}; std::string dump; unsigned dumpEvery{0}, qTimeout{20000}, maxViols{3}, chainMax{600};
	for(int i{1}; i < argc; ++i) {
		std::string a{argv[i]}; auto v = [&] { return std::string{argv[++i]}; };
		if(a == "--entry") entries.push_back(v()); else if(a == "--out") out = v(); else if(a == "--jobs") jobs = (unsigned)std::stoul(v()); else if(a == "--time") limit = std::stod(v());
		else if(a == "--seed") seed = std::stoull(v()); else if(a == "--samples") samples = (unsigned)std::stoul(v()); else if(a == "--max-steps") maxSteps = std::stoull(v()); else if(a == "--tmp") tmp = v(); else if(a == "--trace") trace = true;
		else if(a == "--dump") dump = v(); else if(a == "--dump-every") dumpEvery = (unsigned)std::stoul(v()); else if(a == "--query-timeout") qTimeout = (unsigned)std::stoul(v()); else if(a == "--max-viols") maxViols = (unsigned)std::stoul(v()); else if(a == "--chain") chainMax = (unsigned)std::stoul(v());
		else file = a;
	}
	llvm::LLVMContext ctx; llvm::SMDiagnostic err; auto M = llvm::parseIRFile(file, err, ctx);
	if(!M) { err.print("sxe", llvm::errs()); return 2; }
	try {
		Executor ex{*M}; ex.maxSteps = maxSteps; ex.sampleMax = samples; ex.trace = trace; ex.rng ^= seed * 0x9E3779B97F4A7C15ull; ex.solver.timeoutMs = qTimeout; ex.solver.mkSolver(); ex.solver.dumpDir = dump; ex.solver.dumpEvery = dumpEvery; ex.maxViols = maxViols; ex.chainMax = chainMax;
		ex.deadline = now() + limit; ex.runCtors();
		std::vector<Result> results(entries.size());
		struct Task { size_t entry; std::vector<std::unique_ptr<State>> states; };
		std::deque<Task> tasks;
		auto functions = [&](Result & r) { for(auto & [F, k] : ex.kfs) if(k && k->entered) { r.functions.insert(llvm::demangle(k->name)); k->entered = 0; } };
		for(size_t e{0}; e < entries.size(); ++e) {
			auto & r = results[e]; ex.res = &r; ex.work.clear(); ex.seenPaths = 0; ex.solver.st = {};
			try { ex.makeEntry(entries[e]); } catch(const Unsupported & u) { r.problems.insert(u.what()); r.incomplete = true; continue; }
			// breadth first in this process until there is enough to distribute
			uint64_t budget{jobs > 1 ? 300000ull : ~0ull >> 1}; std::deque<std::unique_ptr<State>> q; for(auto & w : ex.work) q.push_back(std::move(w)); ex.work.clear();
			while(!q.empty() && r.steps < budget && q.size() < (jobs > 1 ? 512u : 1u << 30) && r.violSeen.size() < maxViols) {
				std::unique_ptr<State> s; if(jobs > 1) { s = std::move(q.front()); q.pop_front(); } else { s = std::move(q.back()); q.pop_back(); }
				ex.slice = jobs > 1 ? 2000 : 0; ex.paused = false;
				auto before = r.forks; (void)before; ex.run(*s, entries[e]);
				if(ex.paused) q.push_back(std::move(s));
				for(auto & w : ex.work) q.push_back(std::move(w)); ex.work.clear();
			}
			ex.slice = 0; r.q = ex.solver.st; functions(r);
			if(q.empty() || r.violSeen.size() >= maxViols) continue;
			size_t chunks = std::min<size_t>(q.size(), 64); std::vector<Task> ts(chunks);
			for(size_t i{0}; i < q.size(); ++i) ts[i % chunks].states.push_back(std::move(q[i]));
			for(auto & t : ts) { t.entry = e; tasks.push_back(std::move(t)); }
		}
		std::map<pid_t, std::pair<size_t, std::string>> running; unsigned n{0}; bool grace{false};
		{ struct sigaction sa{}; sa.sa_handler = [](int) { alarmed = 1; }; sigaction(SIGALRM, &sa, nullptr); }
		for(auto & r : results) if(!r.viols.empty() && !grace) { grace = true; alarm(60); }
		auto reap = [&] {
			int status; auto p = wait(&status); if(alarmed) { alarmed = 0; for(auto & [c, x] : running) kill(c, SIGKILL); tasks.clear(); } if(p < 0) return; auto it = running.find(p); if(it == running.end()) return;
			auto & r = results[it->second.first];
			if(!merge(r, it->second.second) || !WIFEXITED(status) || WEXITSTATUS(status)) { r.incomplete = true; r.problems.insert("a worker ended abnormally (status " + std::to_string(status) + ")"); }
			if(!r.viols.empty() && !grace) { grace = true; alarm(60); } // a violation is known: do not wait long for the rest
			unlink(it->second.second.c_str()); running.erase(it);
		};
		while(!tasks.empty() || !running.empty()) {
			if(tasks.empty() || running.size() >= jobs) { reap(); continue; }
			Task t = std::move(tasks.front()); tasks.pop_front(); auto & pr = results[t.entry];
			if(pr.violSeen.size() >= maxViols) continue;
			if(now() > ex.deadline) { pr.incomplete = true; pr.problems.insert("time limit"); continue; }
			auto fn = tmp + "/sxe." + std::to_string(getpid()) + "." + std::to_string(n++);
			fflush(nullptr); auto p = fork();
			if(p == 0) {
				Result r; ex.res = &r; ex.work.clear(); ex.seenPaths = 0; ex.solver.st = {}; ex.rng ^= (uint64_t)n * 0xD1342543DE82EF95ull; ex.sampleMax = std::max(2u, samples / 16);
				for(auto & s : t.states) ex.work.push_back(std::move(s));
				while(!ex.work.empty() && r.violSeen.size() < maxViols && now() < ex.deadline) { auto s = std::move(ex.work.back()); ex.work.pop_back(); ex.run(*s, entries[t.entry]); }
				if(!ex.work.empty() && r.violSeen.size() < maxViols) { r.incomplete = true; r.problems.insert("time limit"); }
				r.q = ex.solver.st; functions(r); save(r, fn); fflush(nullptr); _exit(0);
			}
			running[p] = {t.entry, fn};
		}
		std::ofstream of; if(!out.empty()) of.open(out); std::ostream & o = out.empty() ? std::cout : of;
		o << "["; for(size_t e{0}; e < entries.size(); ++e) { if(e) o << ",\n"; json(o, entries[e], results[e]); } o << "]\n"; o.flush(); fflush(nullptr);
		_exit(0);
	} catch(const std::exception & e) { std::cerr << "sxe: " << e.what() << '\n'; return 2; }
}
