// Memory objects and execution states.
#pragma once
#include "solver.hpp"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <set>

namespace sx {
enum class Kind : uint8_t { global, stack, heapNew, heapNewArr, heapMalloc, exception };
inline const char * kindName(Kind k) { static const char * n[]{"global","stack","new","new[]","malloc","exception"}; return n[(int)k]; }

struct Obj {
	int rc{0};
	uint32_t size{0};
	uint64_t base{0};
	Kind kind{Kind::stack};
	bool readonly{false}, dead{false}, freed{false}, watched{false}; // watched: not to be written while the state is in a shared section
	uint64_t heapAlign{0};
	const char * name{""};
	std::vector<E> bytes; // nullptr: uninitialised
};
class ObjRef {
	Obj * o{nullptr};
public:
	ObjRef() = default;
	explicit ObjRef(Obj * o) : o{o} { if(o) ++o->rc; }
	ObjRef(const ObjRef & r) : o{r.o} { if(o) ++o->rc; }
	ObjRef(ObjRef && r) noexcept : o{r.o} { r.o = nullptr; }
	ObjRef & operator=(ObjRef r) { std::swap(o, r.o); return *this; }
	~ObjRef() { if(o && --o->rc == 0) delete o; }
	Obj * get() const { return o; }
	Obj * operator->() const { return o; }
	explicit operator bool() const { return o; }
	Obj & write() { if(o->rc > 1) { auto n = new Obj(*o); n->rc = 1; --o->rc; o = n; } return *o; }
};

struct KFunction;
struct KInst {
	const llvm::Instruction * I; unsigned opcode; int dest; uint32_t width; std::vector<int32_t> ops;
	std::vector<uint32_t> blocks;     // successor / incoming block numbers
	std::vector<uint64_t> aux;        // GEP: constant offset then scales; insert/extractvalue: bit offset; switch values
	const llvm::Function * callee{nullptr}; int builtin{-1}; mutable uint64_t forks{0}; uint32_t uid;
};
struct KFunction {
	const llvm::Function * F; std::string name; std::vector<KInst> insts; std::vector<uint32_t> blockStart; std::vector<const llvm::BasicBlock *> blocks;
	uint32_t nregs{0}; std::vector<E> consts; std::vector<uint32_t> constWidths; uint64_t entered{0}; unsigned index;
};

struct Frame {
	KFunction * kf; uint32_t pc; uint32_t block; std::vector<E> regs; std::vector<uint64_t> allocas;
};
struct Exc { uint64_t obj, tinfo, dtor; int handlers; bool rethrown; };
struct Seq { uint32_t name; uint8_t width; E e; };

struct State {
	std::vector<Frame> frames;
	std::vector<ObjRef> objs; std::vector<uint16_t> gens; std::vector<uint32_t> freeIds;
	std::vector<E> cons; ModelRef model;
	std::vector<Seq> seq; std::vector<std::pair<uint32_t, E>> notes;
	std::vector<uint64_t> fixed; bool anyFixed{false}; // bit set of variables with exactly one value left (the one in the model)
	std::vector<Exc> excs; std::vector<uint32_t> caught; E lp{nullptr};
	std::shared_ptr<const std::map<uint64_t, uint32_t>> life;
	uint32_t uninitCount{0}; int failBudget{0}; bool leakCheck{true}, shared{false}; int guards{0};
	uint64_t steps{0}, depthForks{0}; uint32_t chain{0}; const KInst * chainAt{nullptr};
	uint64_t asserts{0};
};
}
