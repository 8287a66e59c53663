// gsym: bounded symbolic execution of LLVM IR with a bit-precise heap.
//
//   gsym MODULE.bc ENTRY [-o OUT.json] [options]
//
// Pointers are concrete (object id << 32 | offset) wherever the program makes them so;
// data is bit-level symbolic. Symbolic branches fork the state, and the sides are merged
// again at the branch's post-dominator when their heaps allow it.
#include "bits.h"
#include "solver.h"

#include <llvm/ADT/SmallVector.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <functional>
#include <list>
#include <memory>
#include <set>
#include <unordered_set>

using namespace llvm;
using std::string;
using std::vector;

static const uint32_t CELL_UNINIT = 256, CELL_SYM = 512;

// ---------------------------------------------------------------- values
struct Val {
	uint64_t c = 0;		// concrete value, or addend of a symbolic pointer
	uint32_t bv = 0;	// symbolic bits, 0 = concrete
	uint32_t agg = 0;	// aggregate id
	bool operator==(const Val &o) const { return c == o.c && bv == o.bv && agg == o.agg; }
	bool operator!=(const Val &o) const { return !(*this == o); }
};
static Val mkc(uint64_t c) { Val v; v.c = c; return v; }

struct Obj {
	uint64_t size = 0;
	uint8_t kind = 0;	// 0 global, 1 heap, 2 stack, 3 function, 4 exception
	uint32_t fill = 0;	// of the cells past cells.size(): large objects grow as they are used
	bool readonly = false;
	vector<uint32_t> cells;
	string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct DInst {
	const Instruction *I = nullptr;
	unsigned op = 0;
	int dst = -1;
	uint32_t w = 0;			// result width (ints/ptrs), or operand width
	uint32_t w2 = 0;		// operand width for casts/icmp
	unsigned sub = 0;		// predicate / kind
	vector<int> ops;		// >=0 register, <0 constant ~idx
	Type *ty = nullptr;
	// gep
	int64_t gepConst = 0;
	vector<std::pair<int, int64_t>> gepVar;	// operand index in ops, scale
	vector<uint32_t> gepW;
	// control
	vector<uint32_t> succ;
	vector<uint64_t> cases;
	const Function *callee = nullptr;
	int ext = 0;			// external function id
	bool isInvoke = false;
	vector<unsigned> idx;
};
struct PhiD { int dst; Type *ty; vector<std::pair<uint32_t, int>> in; };
struct DBlock {
	const BasicBlock *bb = nullptr;
	vector<PhiD> phis;
	vector<DInst> insts;
	int ipdom = -2;			// -1 = function exit, -2 = not computed
};
struct DFunc {
	const Function *F = nullptr;
	vector<DBlock> blocks;
	uint32_t nregs = 0;
	std::unordered_map<const BasicBlock *, uint32_t> bbIdx;
	string name;
	bool ipdomDone = false;
};

struct Frame {
	DFunc *f = nullptr;
	uint32_t bb = 0, ip = 0;
	uint64_t serial = 0;
	vector<Val> regs;
	vector<uint32_t> allocas;
	vector<Val> varargs;
};

struct Violation {
	string kind, msg, loc;
	vector<uint8_t> as;
	std::map<string, uint64_t> choices;
	bool uninit = false;
};

struct ExcInfo { uint64_t ti; uint64_t dtor; int handlers; };

struct State {
	vector<std::shared_ptr<Frame>> fr;
	std::unordered_map<uint32_t, ObjP> mem;
	vector<Lit> pc;
	std::map<uint32_t, uint64_t> concr;	// bv id -> concretised value
	std::map<string, uint64_t> choices;
	std::set<string> symNames;
	vector<std::pair<string, Val>> emits;
	std::map<uint64_t, ExcInfo> excs;
	vector<uint64_t> caught;
	uint64_t unwinding = 0;
	int64_t preempt = -1;
	uint64_t steps = 0;	// instructions executed on this path
	uint32_t assumed = 0;	// branches followed although the solver did not decide that they can be taken
	bool reuse = false;	// gs_reuse: addresses of released objects are given out again, the latest first
	std::map<uint32_t, vector<uint32_t>> freed;
	uint32_t depthBase = 0, depthPeak = 0;	// call depth at gs_stack_reset, deepest since
	Frame &top()
	{
		auto &p = fr.back();
		if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
		return *p;
	}
	Frame &frameAt(size_t i)
	{
		auto &p = fr[i];
		if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
		return *p;
	}
};
typedef std::unique_ptr<State> StateP;

struct MergePt {
	uint64_t serial = 0;	// frame serial; 0 = none
	size_t depth = 0;
	int bb = -1;		// block index, or -1: return from the frame
};

struct EngineError { string msg; };	// unsupported construct: no verdict
struct PathError { string kind, msg; };	// program error on this path
struct ForkReq { Lit cond; };		// re-execute the instruction in both worlds
struct ConcrReq { uint32_t bv; uint64_t val; Lit eq; };

enum Ext {
	X_NONE, X_UNSUPPORTED, X_SYMBOLIC, X_CHOICE, X_ASSUME, X_ASSERT, X_ASSERT_EQ, X_REACH, X_EMIT, X_ERR,
	X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_NEW, X_DELETE, X_MEMCPY, X_MEMSET, X_MEMCMP, X_MEMCHR, X_STRLEN,
	X_ABORT, X_NOP, X_NOP0, X_NOP1, X_THROW, X_ALLOCEXC, X_FREEEXC, X_BEGINCATCH, X_ENDCATCH, X_RETHROW, X_GETEXC,
	X_TERMINATE, X_DYNCAST, X_PUREVIRT, X_GUARD_ACQ, X_GUARD_REL, X_ERRNO, X_UNCAUGHT, X_EXIT, X_ISNATIVE, X_NOTE,
	X_OBJSIZE, X_ALIVE, X_HEAP, X_ALIGNED_NEW, X_CURTYPE, X_UF, X_REUSE, X_STKRESET, X_STKPEAK, X_STKMORE
};

// ---------------------------------------------------------------- engine
struct Engine {
	LLVMContext ctx;
	std::unique_ptr<Module> M;
	const DataLayout *DL = nullptr;
	Graph g;
	BVs bvs;
	Solver sol;
	vector<vector<Val>> aggs;
	std::unordered_map<const Function *, std::unique_ptr<DFunc>> dfuncs;
	vector<Val> consts;
	std::unordered_map<const Constant *, int> constIdx;
	std::unordered_map<const GlobalValue *, uint64_t> gaddr;
	std::unordered_map<uint32_t, const Function *> fnById;
	uint32_t nextObj = 1;
	uint64_t nextSerial = 1;
	std::map<string, Ext> extMap;

	// results
	vector<Violation> viols;
	std::set<string> violKeys;
	std::map<string, uint64_t> reached;
	std::map<string, uint64_t> assertsProved;
	string incomplete;
	uint64_t nInstr = 0, nPaths = 0, nForks = 0, nMerges = 0, nMergeFail = 0, nAssumedArms = 0, nAsserts = 0, nAssertsRewrite = 0, nLive = 0;
	uint64_t maxPaths = 200000, maxPathSteps = 600000000, longest = 0;
	double deadline = 0, firstViol = 0;
	bool enough() const { return viols.size() >= maxViol || (firstViol && Solver::now() > firstViol + 30); }
	uint64_t maxViol = 3;
	std::set<string> funcsRun;
	bool verbose = false, noMerge = false;
	uint64_t checkAlign = 0;
	string mergeDebug;

	struct Input { string name; uint32_t nbytes; vector<uint32_t> vars; bool uninit; };
	vector<Input> inputs;
	std::map<string, vector<uint32_t>> ufs;
	struct PathRec { std::map<string, uint64_t> choices; vector<std::pair<string, Val>> emits; vector<Lit> pc; };
	vector<PathRec> pathRecs;
	size_t maxPathRecs = 64;

	Engine() : sol(g) { aggs.push_back({}); initExt(); }

	// ------------------------------------------------ bit vectors
	Val fromBits(const Lit *l, uint32_t n)
	{
		bool conc = n <= 64;
		uint64_t c = 0;
		if (conc) for (uint32_t i = 0; i < n; i++) {
			if (l[i] > 1) { conc = false; break; }
			c |= uint64_t(l[i]) << i;
		}
		if (conc) return mkc(c);
		Val v;
		v.bv = bvs.mk(l, n);
		return v;
	}
	typedef SmallVector<Lit, 64> Bits;
	void toBits(const Val &v, uint32_t n, Bits &out)
	{
		out.resize(n);
		if (!v.bv) {
			for (uint32_t i = 0; i < n; i++) out[i] = i < 64 ? (v.c >> i & 1) : 0;
			return;
		}
		if (bvs.width(v.bv) != n) throw EngineError{"width mismatch " + std::to_string(bvs.width(v.bv)) + " vs " + std::to_string(n)};
		memcpy(out.data(), bvs.get(v.bv), n * sizeof(Lit));
		if (v.c) {	// symbolic pointer with addend
			Bits a(out), b(n);
			for (uint32_t i = 0; i < n; i++) b[i] = v.c >> i & 1;
			addBits(a, b, FALSE_, out);
		}
	}
	Lit addBits(const Bits &a, const Bits &b, Lit cin, Bits &out)
	{
		Lit c = cin;
		out.resize(a.size());
		for (size_t i = 0; i < a.size(); i++) {
			Lit x = g.mkXor(a[i], b[i]);
			Lit s = g.mkXor(x, c);
			// carry = maj(a, b, c), built the same way whatever the order of the operands
			Lit m[3] = {a[i], b[i], c};
			std::sort(m, m + 3);
			c = g.mkXor(g.mkAnd(m[0], m[1]), g.mkAnd(m[2], g.mkXor(m[0], m[1])));
			out[i] = s;
		}
		return c;
	}
	void negBits(const Bits &a, Bits &out)
	{
		Bits n(a.size()), z(a.size(), FALSE_);
		for (size_t i = 0; i < a.size(); i++) n[i] = neg(a[i]);
		addBits(n, z, TRUE_, out);
	}
	Lit subBits(const Bits &a, const Bits &b, Bits &out)
	{
		Bits nb(b.size());
		for (size_t i = 0; i < b.size(); i++) nb[i] = neg(b[i]);
		return addBits(a, nb, TRUE_, out);	// carry out = no borrow (a >= b)
	}
	Lit ultBits(const Bits &a, const Bits &b)
	{
		// from lsb: lt = (~a & b) | (a==b) & lt
		Lit lt = FALSE_;
		for (size_t i = 0; i < a.size(); i++) lt = g.mkIte(g.mkXor(a[i], b[i]), b[i], lt);
		return lt;
	}
	Lit andTree(vector<Lit> v)
	{
		if (v.empty()) return TRUE_;
		std::sort(v.begin(), v.end(), [](Lit a, Lit b) { return (a & 1) != (b & 1) ? (a & 1) > (b & 1) : a < b; });
		while (v.size() > 1) {
			vector<Lit> n;
			for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(g.mkAnd(v[i], v[i + 1]));
			if (v.size() & 1) n.push_back(v.back());
			v = n;
		}
		return v[0];
	}
	Lit eqBits(const Bits &a, const Bits &b)
	{
		vector<Lit> v;
		for (size_t i = 0; i < a.size(); i++) {
			Lit x = neg(g.mkXor(a[i], b[i]));
			if (x == FALSE_) return FALSE_;
			if (x != TRUE_) v.push_back(x);
		}
		return andTree(v);
	}
	static uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ULL : (1ULL << w) - 1; }
	static int64_t sx(uint64_t v, uint32_t w) { return w >= 64 ? int64_t(v) : int64_t(v << (64 - w)) >> (64 - w); }

	Val iteVal(Lit c, const Val &a, const Val &b, Type *ty)
	{
		if (a == b) return a;
		if (ty->isAggregateType()) {
			auto x = aggElems(a, ty), y = aggElems(b, ty);
			for (size_t i = 0; i < x.size(); i++) x[i] = iteVal(c, x[i], y[i], elemType(ty, i));
			return mkAgg(x);
		}
		if (ty->isVectorTy()) throw EngineError{"vector type"};
		uint32_t w = widthOf(ty);
		Bits x, y;
		toBits(a, w, x); toBits(b, w, y);
		for (uint32_t i = 0; i < w; i++) x[i] = g.mkIte(c, x[i], y[i]);
		return fromBits(x.data(), w);
	}

	uint32_t widthOf(Type *t)
	{
		if (t->isIntegerTy()) return t->getIntegerBitWidth();
		if (t->isPointerTy()) return 64;
		if (t->isFloatTy()) return 32;
		if (t->isDoubleTy()) return 64;
		if (t->isX86_FP80Ty()) return 80;
		string s; raw_string_ostream os(s); t->print(os);
		throw EngineError{"unsupported type " + s};
	}
	Type *elemType(Type *t, unsigned i)
	{
		if (auto *st = dyn_cast<StructType>(t)) return st->getElementType(i);
		if (auto *at = dyn_cast<ArrayType>(t)) return at->getElementType();
		return cast<VectorType>(t)->getElementType();
	}
	unsigned elemCount(Type *t)
	{
		if (auto *st = dyn_cast<StructType>(t)) return st->getNumElements();
		if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements();
		return cast<FixedVectorType>(t)->getNumElements();
	}
	bool isAgg(Type *t) { return t->isAggregateType() || t->isVectorTy(); }
	Val mkAgg(const vector<Val> &v)
	{
		aggs.push_back(v);
		Val r; r.agg = aggs.size() - 1;
		return r;
	}
	vector<Val> aggElems(const Val &v, Type *t)
	{
		if (v.agg) return aggs[v.agg];
		vector<Val> r;	// zero aggregate
		for (unsigned i = 0; i < elemCount(t); i++) r.push_back(Val());
		return r;
	}

	// ------------------------------------------------ fresh inputs
	Val freshBits(uint32_t w, const string &name, bool uninit)
	{
		Bits b(w);
		inputs.push_back({name, (w + 7) / 8, {}, uninit});
		uint32_t full = (w + 7) / 8 * 8;
		for (uint32_t i = 0; i < full; i++) { inputs.back().vars.push_back(g.nvars); Lit l = g.newVar(); if (i < w) b[i] = l; }
		return fromBits(b.data(), w);
	}

	// ------------------------------------------------ memory
	Obj *find(State &s, uint64_t addr)
	{
		auto it = s.mem.find(uint32_t(addr >> 32));
		return it == s.mem.end() ? nullptr : it->second.get();
	}
	Obj *findW(State &s, uint64_t addr)
	{
		auto it = s.mem.find(uint32_t(addr >> 32));
		if (it == s.mem.end()) return nullptr;
		if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
		return it->second.get();
	}
	static constexpr uint64_t LARGE = 16 << 20;
	static uint32_t sizeClass(uint64_t n) { return (n + 23) / 16; }	// as glibc rounds sizes
	uint64_t alloc(State &s, uint64_t size, uint8_t kind, const string &name, uint32_t fill = CELL_UNINIT)
	{
		if (size > (1ull << 40)) throw PathError{"alloc", "allocation of " + std::to_string(size) + " bytes"};
		auto o = std::make_shared<Obj>();
		o->size = size; o->kind = kind; o->name = name;
		o->fill = fill;
		o->cells.assign(size > LARGE ? 0 : size, fill);
		uint32_t id = 0;
		if (s.reuse && kind == 1 && size <= LARGE) {
			auto &l = s.freed[sizeClass(size)];
			if (!l.empty()) { id = l.back(); l.pop_back(); }
		}
		if (!id) { id = nextObj++; nextObj += size >> 32; }
		s.mem[id] = o;
		return uint64_t(id) << 32;
	}
	string addrStr(uint64_t a)
	{
		char b[64];
		snprintf(b, sizeof b, "obj%u+%lld", uint32_t(a >> 32), (long long)int32_t(uint32_t(a)));
		return b;
	}
	// bounds-checked access to a concrete address
	Obj *access(State &s, uint64_t addr, uint64_t n, bool write)
	{
		Obj *o = write ? findW(s, addr) : find(s, addr);
		if (!o) {
			uint32_t id = addr >> 32;
			if (id == 0) throw PathError{"null-deref", string(write ? "write to" : "read from") + " null/invalid pointer " + std::to_string(addr)};
			throw PathError{id < nextObj ? "use-after-free/out-of-bounds" : "wild-pointer", string(write ? "write to" : "read from") + " dead object " + addrStr(addr)};
		}
		uint64_t off = uint32_t(addr);
		if (off + n > o->size)
			throw PathError{"out-of-bounds", string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((long long)int32_t(off)) + " of " + std::to_string(o->size) + "-byte " + (o->kind == 1 ? "heap" : o->kind == 2 ? "stack" : "global") + " object " + o->name};
		if (o->kind == 3) throw PathError{"wild-pointer", "data access to a function"};
		if (write && o->readonly) throw PathError{"write-const", "write to constant object " + o->name};
		if (off + n > o->cells.size()) {
			if (off + n > (128u << 20)) throw EngineError{"use of a large part of an object of " + std::to_string(o->size) + " bytes"};
			o->cells.resize(std::min<uint64_t>(o->size, std::max<uint64_t>(off + n, 2 * o->cells.size())), o->fill);
		}
		return o;
	}
	void cellBits(State &s, Obj *o, uint32_t off, Lit *out)
	{
		uint32_t c = o->cells[off];
		if (c < 256) { for (int i = 0; i < 8; i++) out[i] = c >> i & 1; return; }
		if (c == CELL_UNINIT) {
			Val v = freshBits(8, "uninit:" + o->name + "+" + std::to_string(off), true);
			c = CELL_SYM + v.bv;
			// callers pass a writable object when the cell is uninitialised
			o->cells[off] = c;
		}
		memcpy(out, bvs.get(c - CELL_SYM), 8 * sizeof(Lit));
	}
	bool hasUninit(Obj *o, uint32_t off, uint32_t n)
	{
		for (uint32_t i = 0; i < n; i++) if (o->cells[off + i] == CELL_UNINIT) return true;
		return false;
	}
	Val loadInt(State &s, uint64_t addr, uint32_t w)
	{
		uint32_t n = (w + 7) / 8;
		Obj *o = access(s, addr, n, false);
		uint32_t off = addr;
		bool conc = n <= 8;
		uint64_t c = 0;
		if (conc) for (uint32_t i = 0; i < n; i++) {
			uint32_t x = o->cells[off + i];
			if (x >= 256) { conc = false; break; }
			c |= uint64_t(x) << (8 * i);
		}
		if (conc) return mkc(c & maskw(w));
		if (hasUninit(o, off, n)) o = findW(s, addr);
		Bits b(n * 8);
		for (uint32_t i = 0; i < n; i++) cellBits(s, o, off + i, &b[8 * i]);
		return fromBits(b.data(), w);
	}
	uint32_t mkCell(const Lit *l)
	{
		uint32_t c = 0;
		bool conc = true;
		for (int i = 0; i < 8; i++) { if (l[i] > 1) { conc = false; break; } c |= l[i] << i; }
		if (conc) return c;
		return CELL_SYM + bvs.mk(l, 8);
	}
	void storeInt(State &s, uint64_t addr, const Val &v, uint32_t w)
	{
		uint32_t n = (w + 7) / 8;
		Obj *o = access(s, addr, n, true);
		uint32_t off = addr;
		if (!v.bv) {
			for (uint32_t i = 0; i < n; i++) o->cells[off + i] = i < 8 ? (v.c >> (8 * i)) & 255 : 0;
			return;
		}
		Bits b;
		toBits(v, w, b);
		while (b.size() < n * 8) b.push_back(FALSE_);
		for (uint32_t i = 0; i < n; i++) o->cells[off + i] = mkCell(&b[8 * i]);
	}
	// ------- symbolic addresses
	// Resolves a symbolic pointer: returns a concrete base object and an offset bit-vector.
	Obj *resolveSym(State &s, const Val &p, uint64_t n, bool write, Bits &off, uint64_t &base)
	{
		base = p.c;
		// symbolic part must be bounded to the object the addend points into
		Obj *o = find(s, base);
		if (!o || base == 0 || o->size > LARGE) return nullptr;
		Bits sym(64);
		memcpy(sym.data(), bvs.get(p.bv), 64 * sizeof(Lit));
		Bits bb(64);
		uint64_t bo = uint32_t(base);
		for (int i = 0; i < 64; i++) bb[i] = bo >> i & 1;
		addBits(sym, bb, FALSE_, off);
		// in bounds: off + n <= size
		if (n > o->size) throw PathError{"out-of-bounds", "symbolic access to small object " + o->name};
		Bits lim(64);
		uint64_t mx = o->size - n;
		for (int i = 0; i < 64; i++) lim[i] = mx >> i & 1;
		Lit oob = ultBits(lim, off);
		if (oob != FALSE_) {
			vector<Lit> q = s.pc; q.push_back(oob);
			vector<uint8_t> m;
			Solver::R r = sol.check(q, &m);
			if (r == Solver::UNKNOWN) throw EngineError{"solver timeout on bounds check"};
			if (r == Solver::SAT) {
				// report, then continue in bounds
				report(s, "out-of-bounds", string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at a symbolic offset of " + std::to_string(o->size) + "-byte object " + o->name, m);
				addPC(s, neg(oob));
			}
		}
		return o;
	}
	void addPC(State &s, Lit l)
	{
		if (l == TRUE_) return;
		vector<Lit> q = s.pc; q.push_back(l);
		Solver::R r = sol.check(q);
		if (r == Solver::UNSAT) throw PathError{"infeasible", ""};
		if (r == Solver::UNKNOWN) throw EngineError{"solver timeout on path condition"};
		s.pc.push_back(l);
	}
	void pathFeasible(State &s, Lit l, bool &t, bool &f, bool &unsureT, bool &unsureF)
	{
		vector<Lit> q = s.pc; q.push_back(l);
		// an arm that is not refuted in time is followed: what is reported there is decided again
		const double lim = s.assumed || nAssumedArms > 3 ? 1 : 5;
		Solver::R r1 = sol.check(q, nullptr, false, lim);
		q.back() = neg(l);
		Solver::R r2 = r1 == Solver::UNSAT ? Solver::SAT : sol.check(q, nullptr, false, lim);
		unsureT = r1 == Solver::UNKNOWN; unsureF = r2 == Solver::UNKNOWN;
		if (getenv("GS_DEBUG")) fprintf(stderr, "branch %d/%d assumed %u t=%.1f at %s\n", r1, r2, s.assumed, Solver::now(), where(s).substr(0, 120).c_str());
		if (unsureT || unsureF) nAssumedArms++;
		t = r1 != Solver::UNSAT; f = r2 != Solver::UNSAT;
	}
	// mux over all feasible offsets
	Val muxLoad(State &s, Obj *o, const Bits &off, uint32_t n, uint32_t w, uint64_t addr)
	{
		vector<int> symb;
		uint64_t fixed = 0;
		for (int i = 0; i < 64; i++) {
			if (off[i] > 1) symb.push_back(i);
			else fixed |= uint64_t(off[i]) << i;
		}
		if (symb.size() > 14) throw EngineError{"symbolic offset too wide"};
		// make uninitialised candidates explicit
		Obj *wo = o;
		(void)addr;
		std::function<Bits(size_t, uint64_t)> rec = [&](size_t k, uint64_t a) -> Bits {
			if (k && k <= 8) {
				// a table of constants: one table node per bit
				vector<Graph::TT> tt(n * 8, Graph::TT{});
				bool conc = true;
				for (uint64_t m = 0; m < 256 && conc; m++) {
					uint64_t ad = a;
					for (size_t j = 0; j < k; j++) if (m >> j & 1) ad |= 1ULL << symb[j];
					if (ad + n > o->size) continue;	// excluded by the bounds check
					for (uint32_t i = 0; i < n; i++) {
						uint32_t cell = o->cells[ad + i];
						if (cell >= 256) { conc = false; break; }
						for (int q = 0; q < 8; q++) if (cell >> q & 1) tt[8 * i + q][m >> 6] |= 1ULL << (m & 63);
					}
				}
				if (conc) {
					vector<Lit> ix;
					for (size_t j = 0; j < k; j++) ix.push_back(off[symb[j]]);
					Bits b(n * 8, FALSE_);
					for (uint32_t i = 0; i < n * 8; i++) b[i] = g.mkLut(ix, tt[i]);
					return b;
				}
			}
			if (k == 0) {
				Bits b(n * 8, FALSE_);
				if (a + n > o->size) return b;	// excluded by the bounds check: don't care
				for (uint32_t i = 0; i < n; i++) cellBits(s, wo, a + i, &b[8 * i]);
				return b;
			}
			int bit = symb[k - 1];
			uint64_t hiA = a | 1ULL << bit;
			bool hiOut = hiA + n > o->size;
			Bits lo = rec(k - 1, a);
			if (hiOut) return lo;
			Bits hi = rec(k - 1, hiA);
			for (uint32_t i = 0; i < n * 8; i++) lo[i] = g.mkIte(off[bit], hi[i], lo[i]);
			return lo;
		};
		Bits r = rec(symb.size(), fixed);
		return fromBits(r.data(), w);
	}
	uint64_t concretize(State &s, const Val &v, uint32_t w)
	{
		if (!v.bv) return v.c;
		Bits b;
		toBits(v, w, b);
		Val u = fromBits(b.data(), w);
		if (!u.bv) return u.c;
		auto it = s.concr.find(u.bv);
		if (it != s.concr.end()) return it->second;
		vector<uint8_t> m;
		Solver::R r = sol.check(s.pc, &m);
		if (r == Solver::UNSAT) throw PathError{"infeasible", ""};
		if (r != Solver::SAT) throw EngineError{"solver timeout in concretisation"};
		vector<Lit> ls(b.begin(), b.end());
		std::unordered_map<uint32_t, uint8_t> val;
		sol.evalCone(ls, m, val);
		uint64_t x = 0;
		Bits xb(w);
		for (uint32_t i = 0; i < w; i++) {
			uint64_t bit = b[i] < 2 ? b[i] : (val[b[i] >> 1] ^ (b[i] & 1));
			if (i < 64) x |= bit << i;
			xb[i] = bit;
		}
		throw ConcrReq{u.bv, x, eqBits(b, xb)};
	}
	uint64_t concPtr(State &s, const Val &v) { return concretize(s, v, 64); }

	Val load(State &s, const Val &p, Type *ty)
	{
		if (isAgg(ty)) {
			uint64_t a = concPtr(s, p);
			vector<Val> r;
			for (unsigned i = 0; i < elemCount(ty); i++) r.push_back(load(s, mkc(a + elemOffset(ty, i)), elemType(ty, i)));
			return mkAgg(r);
		}
		uint32_t w = widthOf(ty);
		if (!p.bv) return loadInt(s, p.c, w);
		uint32_t n = (w + 7) / 8;
		Bits off; uint64_t base;
		Obj *o = resolveSym(s, p, n, false, off, base);
		if (!o) return loadInt(s, concPtr(s, p), w);
		bool un = false;
		for (uint32_t c : o->cells) if (c == CELL_UNINIT) un = true;
		if (un) o = findW(s, base);
		return muxLoad(s, o, off, n, w, base);
	}
	uint64_t elemOffset(Type *t, unsigned i)
	{
		if (auto *st = dyn_cast<StructType>(t)) return DL->getStructLayout(st)->getElementOffset(i);
		return i * DL->getTypeAllocSize(elemType(t, i));
	}
	void store(State &s, const Val &p, const Val &v, Type *ty)
	{
		if (isAgg(ty)) {
			uint64_t a = concPtr(s, p);
			auto e = aggElems(v, ty);
			for (unsigned i = 0; i < e.size(); i++) store(s, mkc(a + elemOffset(ty, i)), e[i], elemType(ty, i));
			return;
		}
		uint32_t w = widthOf(ty);
		if (!p.bv) { storeInt(s, p.c, v, w); return; }
		uint32_t n = (w + 7) / 8;
		Bits off; uint64_t base;
		Obj *o = resolveSym(s, p, n, true, off, base);
		if (!o) { storeInt(s, concPtr(s, p), v, w); return; }
		if (o->size > 4096) { storeInt(s, concPtr(s, p), v, w); return; }
		o = findW(s, base);
		if (o->readonly) throw PathError{"write-const", "write to constant object"};
		Bits b;
		toBits(v, w, b);
		while (b.size() < n * 8) b.push_back(FALSE_);
		for (uint64_t a = 0; a + n <= o->size; a++) {
			Bits ab(64);
			for (int i = 0; i < 64; i++) ab[i] = a >> i & 1;
			Lit hit = eqBits(off, ab);
			if (hit == FALSE_) continue;
			for (uint32_t i = 0; i < n; i++) {
				Bits cur(8);
				cellBits(s, o, a + i, cur.data());
				for (int k = 0; k < 8; k++) cur[k] = g.mkIte(hit, b[8 * i + k], cur[k]);
				o->cells[a + i] = mkCell(cur.data());
			}
		}
	}
	void copyMem(State &s, uint64_t dst, uint64_t src, uint64_t n)
	{
		if (!n) return;
		vector<uint32_t> tmp;
		{
			Obj *so = access(s, src, n, false);
			tmp.assign(so->cells.begin() + uint32_t(src), so->cells.begin() + uint32_t(src) + n);
		}
		Obj *d = access(s, dst, n, true);
		std::copy(tmp.begin(), tmp.end(), d->cells.begin() + uint32_t(dst));
	}
	string cstr(State &s, uint64_t a)
	{
		string r;
		while (r.size() < 4096) {
			Obj *o = access(s, a, 1, false);
			uint32_t c = o->cells[uint32_t(a)];
			if (c >= 256) { r += '?'; a++; continue; }
			if (!c) break;
			r += char(c); a++;
		}
		return r;
	}

	// ------------------------------------------------ globals and constants
	void initGlobals(State &s)
	{
		for (auto &F : *M) {
			auto o = std::make_shared<Obj>();
			o->kind = 3; o->size = 1; o->cells.assign(1, 0); o->name = F.getName().str();
			uint32_t id = nextObj++;
			s.mem[id] = o;
			gaddr[&F] = uint64_t(id) << 32;
			fnById[id] = &F;
		}
		for (auto &G : M->globals()) {
			uint64_t sz = DL->getTypeAllocSize(G.getValueType());
			uint64_t a;
			if (G.isDeclaration()) a = alloc(s, std::max<uint64_t>(sz, 256), 0, G.getName().str(), 0);
			else a = alloc(s, sz, 0, G.getName().str(), 0);
			gaddr[&G] = a;
		}
		for (auto &A : M->aliases()) {
			const GlobalObject *b = A.getAliaseeObject();
			APInt off(64, 0);
			if (b) gaddr[&A] = gaddr[b] + 0;
		}
		for (auto &G : M->globals()) {
			if (G.isDeclaration()) continue;
			initConst(s, gaddr[&G], G.getInitializer());
		}
		for (auto &G : M->globals()) if (G.isConstant() && !G.isDeclaration()) findW(s, gaddr[&G])->readonly = true;
	}
	void initConst(State &s, uint64_t addr, const Constant *c)
	{
		if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
		if (auto *ca = dyn_cast<ConstantDataSequential>(c)) {
			uint64_t es = DL->getTypeAllocSize(ca->getElementType());
			for (unsigned i = 0; i < ca->getNumElements(); i++) initConst(s, addr + i * es, ca->getElementAsConstant(i));
			return;
		}
		if (isAgg(c->getType())) {
			for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(s, addr + elemOffset(c->getType(), i), cast<Constant>(c->getOperand(i)));
			return;
		}
		store(s, mkc(addr), evalConst(c), c->getType());
	}
	Val evalConst(const Constant *c)
	{
		if (auto *ci = dyn_cast<ConstantInt>(c)) {
			uint32_t w = ci->getBitWidth();
			if (w <= 64) return mkc(ci->getZExtValue());
			Bits b(w);
			for (uint32_t i = 0; i < w; i++) b[i] = ci->getValue()[i];
			return fromBits(b.data(), w);
		}
		if (isa<ConstantPointerNull>(c)) return mkc(0);
		if (auto *cf = dyn_cast<ConstantFP>(c)) return mkc(cf->getValueAPF().bitcastToAPInt().getLimitedValue());
		if (auto *gv = dyn_cast<GlobalValue>(c)) {
			auto it = gaddr.find(gv);
			if (it == gaddr.end()) throw EngineError{"unknown global " + gv->getName().str()};
			return mkc(it->second);
		}
		if (isa<UndefValue>(c)) {	// undef and poison
			if (isAgg(c->getType())) {
				vector<Val> v;
				for (unsigned i = 0; i < elemCount(c->getType()); i++) v.push_back(mkc(0));
				return mkAgg(v);
			}
			return mkc(0);	// replaced by a fresh value at the use (see operand())
		}
		if (isa<ConstantAggregateZero>(c)) {
			vector<Val> v;
			for (unsigned i = 0; i < elemCount(c->getType()); i++) v.push_back(evalConst(Constant::getNullValue(elemType(c->getType(), i))));
			return mkAgg(v);
		}
		if (isAgg(c->getType())) {
			vector<Val> v;
			for (unsigned i = 0; i < elemCount(c->getType()); i++) v.push_back(evalConst(c->getAggregateElement(i)));
			return mkAgg(v);
		}
		if (auto *ce = dyn_cast<ConstantExpr>(c)) {
			switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: {
				Val b = evalConst(ce->getOperand(0));
				APInt off(64, 0);
				if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw EngineError{"constant gep"};
				return mkc(b.c + off.getSExtValue());
			}
			case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
				return evalConst(ce->getOperand(0));
			case Instruction::Add: return mkc((evalConst(ce->getOperand(0)).c + evalConst(ce->getOperand(1)).c) & maskw(widthOf(c->getType())));
			case Instruction::Sub: return mkc((evalConst(ce->getOperand(0)).c - evalConst(ce->getOperand(1)).c) & maskw(widthOf(c->getType())));
			case Instruction::Trunc: return mkc(evalConst(ce->getOperand(0)).c & maskw(widthOf(c->getType())));
			case Instruction::ICmp: {
				uint64_t a = evalConst(ce->getOperand(0)).c, b = evalConst(ce->getOperand(1)).c;
				if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkc(a == b);
				if (ce->getPredicate() == CmpInst::ICMP_NE) return mkc(a != b);
				break;
			}
			default: break;
			}
		}
		string t; raw_string_ostream os(t); c->print(os);
		throw EngineError{"unsupported constant " + t};
	}

	// ------------------------------------------------ decoding
	DFunc *decode(const Function *F)
	{
		auto &p = dfuncs[F];
		if (p) return p.get();
		p.reset(new DFunc);
		DFunc *d = p.get();
		d->F = F;
		d->name = demangle(F->getName().str());
		std::unordered_map<const Value *, int> reg;
		for (auto &A : F->args()) reg[&A] = d->nregs++;
		for (auto &B : *F) {
			d->bbIdx[&B] = d->blocks.size();
			d->blocks.emplace_back();
			d->blocks.back().bb = &B;
			for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = d->nregs++;
		}
		auto opnd = [&](const Value *v) -> int {
			if (auto *c = dyn_cast<Constant>(v)) {
				auto it = constIdx.find(c);
				if (it != constIdx.end()) return ~it->second;
				int i = consts.size();
				Val cv;
				if (isa<UndefValue>(c) && !isAgg(c->getType())) cv = freshBits(widthOf(c->getType()), "undef:" + d->name, true);
				else cv = evalConst(c);
				consts.push_back(cv);
				if (!isa<UndefValue>(c)) constIdx[c] = i;
				return ~i;
			}
			if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { consts.push_back(Val()); return ~int(consts.size() - 1); }
			auto it = reg.find(v);
			if (it == reg.end()) throw EngineError{"unknown operand"};
			return it->second;
		};
		uint32_t bi = 0;
		for (auto &B : *F) {
			DBlock &db = d->blocks[bi++];
			for (auto &I : B) {
				if (auto *ph = dyn_cast<PHINode>(&I)) {
					PhiD pd;
					pd.dst = reg[&I]; pd.ty = I.getType();
					for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
						pd.in.emplace_back(d->bbIdx[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i)));
					db.phis.push_back(pd);
					continue;
				}
				if (isa<DbgInfoIntrinsic>(&I)) continue;
				DInst x;
				x.I = &I; x.op = I.getOpcode(); x.ty = I.getType();
				if (!I.getType()->isVoidTy()) x.dst = reg[&I];
				if (x.dst >= 0 && !isAgg(I.getType()) && !I.getType()->isTokenTy() && !I.getType()->isMetadataTy()) x.w = widthOf(I.getType());
				if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
					x.ops.push_back(opnd(gep->getPointerOperand()));
					for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
						const Value *ix = it.getOperand();
						if (StructType *st = it.getStructTypeOrNull()) {
							x.gepConst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
						} else {
							int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
							if (auto *ci = dyn_cast<ConstantInt>(ix)) x.gepConst += sc * ci->getSExtValue();
							else {
								x.gepVar.emplace_back(opnd(ix), sc);
								x.gepW.push_back(widthOf(ix->getType()));
							}
						}
					}
				} else if (auto *cb = dyn_cast<CallBase>(&I)) {
					x.isInvoke = isa<InvokeInst>(&I);
					const Value *cv = cb->getCalledOperand()->stripPointerCasts();
					if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
					if (auto *cf = dyn_cast<Function>(cv)) x.callee = cf;
					if (x.callee && x.callee->isDeclaration()) {
						string nm = x.callee->getName().str();
						auto it = extMap.find(nm);
						x.ext = x.callee->isIntrinsic() ? X_NONE : it != extMap.end() ? it->second : X_UNSUPPORTED;
					} else if (x.callee) {
						auto it = extMap.find(x.callee->getName().str());
						if (it != extMap.end()) x.ext = it->second;
					}
					for (auto &a : cb->args()) x.ops.push_back(opnd(a.get()));
					x.ops.push_back(x.callee ? ~0 : opnd(cb->getCalledOperand()));
					if (x.isInvoke) {
						x.succ.push_back(d->bbIdx[cast<InvokeInst>(&I)->getNormalDest()]);
						x.succ.push_back(d->bbIdx[cast<InvokeInst>(&I)->getUnwindDest()]);
					}
				} else if (auto *br = dyn_cast<BranchInst>(&I)) {
					if (br->isConditional()) x.ops.push_back(opnd(br->getCondition()));
					for (unsigned i = 0; i < br->getNumSuccessors(); i++) x.succ.push_back(d->bbIdx[br->getSuccessor(i)]);
				} else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
					x.ops.push_back(opnd(sw->getCondition()));
					x.w2 = widthOf(sw->getCondition()->getType());
					x.succ.push_back(d->bbIdx[sw->getDefaultDest()]);
					for (auto &c : sw->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.succ.push_back(d->bbIdx[c.getCaseSuccessor()]); }
				} else {
					for (auto &o : I.operands()) x.ops.push_back(opnd(o.get()));
					if (auto *ic = dyn_cast<CmpInst>(&I)) { x.sub = ic->getPredicate(); if (!ic->getOperand(0)->getType()->isVectorTy()) x.w2 = widthOf(ic->getOperand(0)->getType()); }
					if (isa<CastInst>(&I) && !isAgg(I.getOperand(0)->getType())) x.w2 = widthOf(I.getOperand(0)->getType());
					if (auto *ev = dyn_cast<ExtractValueInst>(&I)) x.idx.assign(ev->idx_begin(), ev->idx_end());
					if (auto *iv = dyn_cast<InsertValueInst>(&I)) x.idx.assign(iv->idx_begin(), iv->idx_end());
				}
				db.insts.push_back(std::move(x));
			}
		}
		return d;
	}
	// immediate post-dominators, ignoring edges to blocks that can only throw or die
	void computeIpdom(DFunc *d)
	{
		if (d->ipdomDone) return;
		d->ipdomDone = true;
		size_t n = d->blocks.size();
		vector<vector<uint32_t>> succ(n);
		vector<bool> isRet(n, false);
		for (size_t i = 0; i < n; i++) {
			const Instruction *t = d->blocks[i].bb->getTerminator();
			if (isa<ReturnInst>(t)) isRet[i] = true;
			else if (auto *iv = dyn_cast<InvokeInst>(t)) succ[i].push_back(d->bbIdx[iv->getNormalDest()]);
			else for (unsigned k = 0; k < t->getNumSuccessors(); k++) succ[i].push_back(d->bbIdx[t->getSuccessor(k)]);
		}
		// blocks that can reach a return
		vector<bool> live(isRet);
		bool ch = true;
		while (ch) {
			ch = false;
			for (size_t i = 0; i < n; i++) if (!live[i]) for (uint32_t t : succ[i]) if (live[t]) { live[i] = true; ch = true; break; }
		}
		// pdom sets over live blocks; exit = virtual n
		vector<vector<bool>> pd(n, vector<bool>(n, true));
		for (size_t i = 0; i < n; i++) if (isRet[i]) { pd[i].assign(n, false); pd[i][i] = true; }
		ch = true;
		while (ch) {
			ch = false;
			for (size_t k = n; k-- > 0;) {
				if (!live[k] || isRet[k]) continue;
				vector<bool> nw(n, true);
				for (uint32_t t : succ[k]) if (live[t]) for (size_t j = 0; j < n; j++) nw[j] = nw[j] && pd[t][j];
				nw[k] = true;
				if (nw != pd[k]) { pd[k] = nw; ch = true; }
			}
		}
		for (size_t i = 0; i < n; i++) {
			d->blocks[i].ipdom = -1;
			if (!live[i]) continue;
			size_t cnt = 0;
			for (size_t j = 0; j < n; j++) cnt += pd[i][j];
			// immediate: the strict post-dominator with the largest pdom set
			int best = -1; size_t bc = 0;
			for (size_t j = 0; j < n; j++) if (j != i && pd[i][j]) {
				size_t c = 0;
				for (size_t k = 0; k < n; k++) c += pd[j][k];
				if (c > bc) { bc = c; best = j; }
			}
			d->blocks[i].ipdom = best;
		}
	}

	// ------------------------------------------------ execution helpers
	Val get(Frame &f, int o) { return o >= 0 ? f.regs[o] : consts[~o]; }

	string where(State &s)
	{
		string r;
		int k = 0;
		for (size_t i = s.fr.size(); i-- > 0 && k < 6; k++) {
			if (!r.empty()) r += " <- ";
			string n = s.fr[i]->f->name;
			size_t p = n.find('(');
			if (p != string::npos && p > 0 && n.compare(0, 10, "(anonymous") != 0) n = n.substr(0, p);
			r += n;
		}
		return r;
	}
	void report(State &s, const string &kind, const string &msg, const vector<uint8_t> &m)
	{
		string loc = where(s);
		string key = kind + "|" + msg + "|" + loc;
		if (!violKeys.insert(key).second) return;
		if (viols.size() >= 16) return;
		Violation v;
		v.kind = kind; v.msg = msg; v.loc = loc; v.as = m; v.choices = s.choices;
		viols.push_back(v);
		if (!firstViol) firstViol = Solver::now();
		if (verbose) fprintf(stderr, "VIOL %s: %s @ %s\n", kind.c_str(), msg.c_str(), loc.c_str());
	}
	void jump(State &s, Frame &f, uint32_t to)
	{
		uint32_t from = f.bb;
		DBlock &b = f.f->blocks[to];
		if (!b.phis.empty()) {
			SmallVector<Val, 16> tmp;
			for (auto &p : b.phis) {
				int o = 0; bool ok = false;
				for (auto &x : p.in) if (x.first == from) { o = x.second; ok = true; break; }
				if (!ok) throw EngineError{"phi without incoming"};
				tmp.push_back(get(f, o));
			}
			for (size_t i = 0; i < b.phis.size(); i++) f.regs[b.phis[i].dst] = tmp[i];
		}
		f.bb = to; f.ip = 0;
	}
	void pushFrame(State &s, const Function *F, const vector<Val> &args)
	{
		DFunc *d = decode(F);
		if (s.fr.size() > 20000) throw PathError{"stack-overflow", "call depth above 20000"};
		auto fr = std::make_shared<Frame>();
		fr->f = d;
		fr->serial = nextSerial++;
		fr->regs.resize(d->nregs);
		size_t na = F->arg_size();
		for (size_t i = 0; i < args.size(); i++) {
			if (i < na) fr->regs[i] = args[i];
			else fr->varargs.push_back(args[i]);
		}
		s.fr.push_back(fr);
		if (s.fr.size() > s.depthPeak) s.depthPeak = s.fr.size();
		funcsRun.insert(F->getName().str());
	}
	// pop the top frame (freeing its stack objects)
	void popFrame(State &s)
	{
		for (uint32_t id : s.fr.back()->allocas) s.mem.erase(id);
		s.fr.pop_back();
	}
	bool doReturn(State &s, const Val &v, bool hasVal)
	{
		popFrame(s);
		if (s.fr.empty()) return false;
		Frame &c = s.top();
		DInst &ci = c.f->blocks[c.bb].insts[c.ip];
		if (hasVal && ci.dst >= 0) c.regs[ci.dst] = v;
		finishCall(s, c, ci);
		return true;
	}
	void finishCall(State &s, Frame &c, DInst &ci)
	{
		if (ci.isInvoke) jump(s, c, ci.succ[0]);
		else c.ip++;
	}

	// ------------------------------------------------ exceptions / RTTI
	uint64_t rd64(State &s, uint64_t a)
	{
		Val v = loadInt(s, a, 64);
		return concretize(s, v, 64);
	}
	string globalName(State &s, uint64_t a)
	{
		Obj *o = find(s, a);
		return o ? o->name : "";
	}
	// offset of base `to` inside class `from`, or -1
	bool upcast(State &s, uint64_t from, uint64_t to, int64_t &off)
	{
		if (from == to) { off = 0; return true; }
		if (globalName(s, from) == globalName(s, to) && !globalName(s, from).empty()) { off = 0; return true; }
		Obj *o = find(s, from);
		if (!o || o->size < 16) return false;
		string vt = globalName(s, rd64(s, from));
		if (vt.find("__si_class_type_info") != string::npos) {
			return upcast(s, rd64(s, from + 16), to, off);
		}
		if (vt.find("__vmi_class_type_info") != string::npos) {
			uint64_t cnt = rd64(s, from + 16) >> 32;
			for (uint64_t i = 0; i < cnt; i++) {
				uint64_t b = rd64(s, from + 24 + 16 * i);
				int64_t fl = rd64(s, from + 32 + 16 * i);
				int64_t o2;
				if (upcast(s, b, to, o2)) { off = o2 + (fl >> 8); return true; }
			}
		}
		return false;
	}
	// downcast search: find subobject of dynamic type `from` at pointer p with type `to`
	bool findSub(State &s, uint64_t ti, uint64_t p, uint64_t to, uint64_t &out) { int64_t off; if (!upcast(s, ti, to, off)) return false; out = p + off; return true; }

	void startUnwind(State &s, uint64_t exc)
	{
		// the top frame is the one containing the throwing call (already popped callee)
		while (!s.fr.empty()) {
			Frame &f = s.top();
			DInst &ci = f.f->blocks[f.bb].insts[f.ip];
			if (ci.isInvoke) {
				DBlock &lb = f.f->blocks[ci.succ[1]];
				const LandingPadInst *lp = lb.bb->getLandingPadInst();
				uint64_t sel = 0; bool enter = lp->isCleanup();
				for (unsigned i = 0; i < lp->getNumClauses(); i++) {
					if (!lp->isCatch(i)) { continue; }
					const Constant *c = lp->getClause(i);
					if (isa<ConstantPointerNull>(c)) { sel = 1; enter = true; break; }
					uint64_t ti = evalConst(c).c;
					int64_t off;
					if (upcast(s, s.excs[exc].ti, ti, off)) { sel = selectorOf(ti); enter = true; break; }
				}
				if (enter) {
					jump(s, f, ci.succ[1]);
					vector<Val> v{mkc(exc), mkc(sel)};
					f.regs[f.f->blocks[f.bb].insts[f.ip].dst] = mkAgg(v);
					f.ip++;
					return;
				}
			}
			popFrame(s);
		}
		throw PathError{"uncaught-exception", "exception " + demangle(globalName(s, s.excs[exc].ti)) + " leaves the harness"};
	}
	std::map<uint64_t, uint64_t> selIds;
	uint64_t selectorOf(uint64_t ti)
	{
		auto it = selIds.find(ti);
		if (it != selIds.end()) return it->second;
		uint64_t id = selIds.size() + 2;
		selIds[ti] = id;
		return id;
	}

	// ------------------------------------------------ asserts
	void doAssert(State &s, Lit ok, const string &msg)
	{
		nAsserts++;
		if (ok == TRUE_) { nAssertsRewrite++; assertsProved[msg]++; return; }
		vector<Lit> q = s.pc;
		q.push_back(neg(ok));
		vector<uint8_t> m;
		Solver::R r = s.assumed ? sol.check(q, &m, false, 5) : sol.check(q, &m);
		if (r == Solver::UNKNOWN && s.assumed) { defer(s, neg(ok), msg); return; }
		if (r == Solver::UNKNOWN) { note("solver gave no verdict on assertion: " + msg); return; }
		if (r == Solver::SAT) {
			report(s, "assert", msg, m);
			throw PathError{"infeasible", ""};	// the rest of a failing path is not explored
		} else assertsProved[msg]++;
	}
	// assertions on paths that perhaps do not exist come last
	struct Deferred { vector<Lit> pc; vector<Lit> bad; string msg, loc; std::map<string, uint64_t> choices; };
	vector<Deferred> deferred;
	void defer(State &s, Lit bad, const string &msg)
	{
		string loc = where(s);
		if (!deferred.empty() && deferred.back().pc == s.pc && deferred.back().msg == msg && deferred.back().loc == loc) { deferred.back().bad.push_back(bad); return; }
		deferred.push_back(Deferred{s.pc, {bad}, msg, loc, s.choices});
	}
	void settleDeferred()
	{
		for (auto &d : deferred) {
			if (!viols.empty()) return;
			if (deadline && Solver::now() > deadline) throw EngineError{"time limit"};
			Solver::R r = sol.check(d.pc);
			if (r == Solver::UNSAT) continue;
			bool unk = false;
			for (Lit l : d.bad) {
				vector<Lit> q = d.pc; q.push_back(l);
				vector<uint8_t> m;
				r = sol.check(q, &m);
				if (r == Solver::UNKNOWN) { unk = true; continue; }
				if (r != Solver::SAT) continue;
				Violation v;
				v.kind = "assert"; v.msg = d.msg; v.loc = d.loc; v.as = m; v.choices = d.choices;
				viols.push_back(v);
				break;
			}
			if (unk && viols.empty()) note("solver gave no verdict on assertion: " + d.msg);
		}
	}
	void note(const string &m) { if (incomplete.empty()) incomplete = m; if (verbose) fprintf(stderr, "INCOMPLETE %s\n", m.c_str()); }

	// ------------------------------------------------ externals
	void initExt()
	{
		auto &e = extMap;
		e["gs_symbolic"] = X_SYMBOLIC; e["gs_choice_"] = X_CHOICE; e["gs_assume"] = X_ASSUME;
		e["gs_assert"] = X_ASSERT; e["gs_assert_eq"] = X_ASSERT_EQ; e["gs_reach"] = X_REACH; e["gs_emit"] = X_EMIT;
		e["gs_fail"] = X_ERR; e["gs_native"] = X_ISNATIVE; e["gs_objsize"] = X_OBJSIZE; e["gs_alive"] = X_ALIVE; e["gs_heap"] = X_HEAP;
		e["gs_uf"] = X_UF; e["gs_reuse"] = X_REUSE; e["gs_stack_reset"] = X_STKRESET; e["gs_stack_peak"] = X_STKPEAK; e["gs_stack_more"] = X_STKMORE;
		e["malloc"] = X_MALLOC; e["calloc"] = X_CALLOC; e["realloc"] = X_REALLOC; e["free"] = X_FREE;
		e["_Znwm"] = X_NEW; e["_Znam"] = X_NEW; e["_ZnwmRKSt9nothrow_t"] = X_NEW; e["_ZnamRKSt9nothrow_t"] = X_NEW;
		e["_ZnwmSt11align_val_t"] = X_NEW; e["_ZnamSt11align_val_t"] = X_NEW;
		for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) e[n] = X_DELETE;
		e["memcpy"] = X_MEMCPY; e["memmove"] = X_MEMCPY; e["memset"] = X_MEMSET; e["memcmp"] = X_MEMCMP; e["bcmp"] = X_MEMCMP;
		e["strlen"] = X_STRLEN;
		e["abort"] = X_ABORT; e["_ZSt9terminatev"] = X_TERMINATE; e["exit"] = X_EXIT; e["_exit"] = X_EXIT;
		e["__cxa_throw"] = X_THROW; e["__cxa_allocate_exception"] = X_ALLOCEXC; e["__cxa_free_exception"] = X_FREEEXC;
		e["__cxa_begin_catch"] = X_BEGINCATCH; e["__cxa_end_catch"] = X_ENDCATCH; e["__cxa_rethrow"] = X_RETHROW;
		e["__cxa_get_exception_ptr"] = X_GETEXC;
		e["__dynamic_cast"] = X_DYNCAST; e["__cxa_pure_virtual"] = X_PUREVIRT;
		e["__cxa_guard_acquire"] = X_GUARD_ACQ; e["__cxa_guard_release"] = X_GUARD_REL; e["__cxa_guard_abort"] = X_NOP;
		e["__cxa_atexit"] = X_NOP0; e["atexit"] = X_NOP0; e["_ZSt18uncaught_exceptionv"] = X_NOP0; e["_ZSt19uncaught_exceptionsv"] = X_NOP0;
		for (auto n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_trylock",
			"pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_rwlock_init", "pthread_rwlock_destroy", "sched_yield",
			"printf", "fprintf", "puts", "putchar", "fflush", "fputs", "fwrite", "pthread_self", "__pthread_key_create"}) e[n] = X_NOP0;
		for (auto n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt8ios_base4InitC2Ev", "_ZNSt8ios_base4InitD2Ev"}) e[n] = X_NOP;
	}

	// ------------------------------------------------ the interpreter
	enum Step { S_CONT, S_TERM, S_BRANCH, S_RETURNED };
	struct BranchInfo { vector<std::pair<Lit, uint32_t>> arms; std::set<uint32_t> unsure; bool choice = false; uint64_t n = 0; string name; };
	BranchInfo bi;

	// Executes one instruction. S_BRANCH: bi holds the feasible arms (cond, target block).
	Step step(State &s)
	{
		Frame &f = s.top();
		DInst &x = f.f->blocks[f.bb].insts[f.ip];
		nInstr++;
		switch (x.op) {
		case Instruction::Ret: {
			bool hv = !x.ops.empty();
			Val v = hv ? get(f, x.ops[0]) : Val();
			return doReturn(s, v, hv) ? S_RETURNED : S_TERM;
		}
		case Instruction::Br: {
			if (x.ops.empty()) { jump(s, f, x.succ[0]); return S_CONT; }
			Val c = get(f, x.ops[0]);
			if (!c.bv) { jump(s, f, x.succ[c.c & 1 ? 0 : 1]); return S_CONT; }
			Lit l = bvs.get(c.bv)[0];
			bool t, fl;
			bool u0 = false, u1 = false;
			pathFeasible(s, l, t, fl, u0, u1);
			if (t && !fl) { jump(s, f, x.succ[0]); return S_CONT; }
			if (fl && !t) { jump(s, f, x.succ[1]); return S_CONT; }
			bi.arms.clear(); bi.unsure.clear(); bi.choice = false;
			if (u0) bi.unsure.insert(x.succ[0]);
			if (u1) bi.unsure.insert(x.succ[1]);
			bi.arms.emplace_back(l, x.succ[0]);
			bi.arms.emplace_back(neg(l), x.succ[1]);
			return S_BRANCH;
		}
		case Instruction::Switch: {
			Val c = get(f, x.ops[0]);
			if (!c.bv) {
				for (size_t i = 0; i < x.cases.size(); i++) if (x.cases[i] == c.c) { jump(s, f, x.succ[i + 1]); return S_CONT; }
				jump(s, f, x.succ[0]);
				return S_CONT;
			}
			Bits b; toBits(c, x.w2, b);
			bi.arms.clear(); bi.unsure.clear(); bi.choice = false;
			std::map<uint32_t, Lit> byT;
			Lit any = FALSE_;
			for (size_t i = 0; i < x.cases.size(); i++) {
				Bits k(x.w2);
				for (uint32_t j = 0; j < x.w2; j++) k[j] = x.cases[i] >> j & 1;
				Lit e = eqBits(b, k);
				if (!byT.count(x.succ[i + 1])) byT[x.succ[i + 1]] = FALSE_;
				byT[x.succ[i + 1]] = g.mkOr(byT[x.succ[i + 1]], e);
				any = g.mkOr(any, e);
			}
			if (!byT.count(x.succ[0])) byT[x.succ[0]] = FALSE_;
			byT[x.succ[0]] = g.mkOr(byT[x.succ[0]], neg(any));
			for (auto &kv : byT) {
				vector<Lit> q = s.pc; q.push_back(kv.second);
				Solver::R r = sol.check(q, nullptr, false, s.assumed || nAssumedArms > 3 ? 1 : 5);
				if (r == Solver::UNKNOWN) { nAssumedArms++; bi.unsure.insert(kv.first); }
				if (r != Solver::UNSAT) bi.arms.emplace_back(kv.second, kv.first);
			}
			if (bi.arms.size() == 1) { jump(s, f, bi.arms[0].second); return S_CONT; }
			if (bi.arms.empty()) throw PathError{"infeasible", ""};
			return S_BRANCH;
		}
		case Instruction::Unreachable:
			throw PathError{"unreachable", "reached unreachable code (undefined behaviour)"};
		case Instruction::Resume: {
			Val v = get(f, x.ops[0]);
			uint64_t exc = concPtr(s, aggs[v.agg][0]);
			popFrame(s);
			startUnwind(s, exc);
			return S_CONT;
		}
		case Instruction::Alloca: {
			auto *ai = cast<AllocaInst>(x.I);
			uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
			uint64_t cnt = concretize(s, get(f, x.ops[0]), widthOf(ai->getArraySize()->getType()));
			uint64_t a = alloc(s, n * cnt, 2, ai->getName().str() + "@" + f.f->F->getName().str());
			f.allocas.push_back(a >> 32);
			f.regs[x.dst] = mkc(a);
			break;
		}
		case Instruction::Load:
			f.regs[x.dst] = load(s, get(f, x.ops[0]), x.ty);
			break;
		case Instruction::Store:
			store(s, get(f, x.ops[1]), get(f, x.ops[0]), cast<StoreInst>(x.I)->getValueOperand()->getType());
			break;
		case Instruction::Fence: break;
		case Instruction::AtomicRMW: {
			auto *rm = cast<AtomicRMWInst>(x.I);
			Val p = get(f, x.ops[0]), v = get(f, x.ops[1]);
			Val o = load(s, p, x.ty);
			Val n;
			switch (rm->getOperation()) {
			case AtomicRMWInst::Xchg: n = v; break;
			case AtomicRMWInst::Add: n = binop(Instruction::Add, o, v, x.w); break;
			case AtomicRMWInst::Sub: n = binop(Instruction::Sub, o, v, x.w); break;
			case AtomicRMWInst::And: n = binop(Instruction::And, o, v, x.w); break;
			case AtomicRMWInst::Or: n = binop(Instruction::Or, o, v, x.w); break;
			case AtomicRMWInst::Xor: n = binop(Instruction::Xor, o, v, x.w); break;
			default: throw EngineError{"atomicrmw op"};
			}
			store(s, p, n, x.ty);
			f.regs[x.dst] = o;
			break;
		}
		case Instruction::AtomicCmpXchg: {
			auto *cx = cast<AtomicCmpXchgInst>(x.I);
			Type *ty = cx->getCompareOperand()->getType();
			Val p = get(f, x.ops[0]), e = get(f, x.ops[1]), n = get(f, x.ops[2]);
			Val o = load(s, p, ty);
			Val eq = icmp(CmpInst::ICMP_EQ, o, e, widthOf(ty));
			if (!eq.bv) { if (eq.c) store(s, p, n, ty); }
			else store(s, p, iteVal(bvs.get(eq.bv)[0], n, o, ty), ty);
			f.regs[x.dst] = mkAgg({o, eq});
			break;
		}
		case Instruction::GetElementPtr: {
			Val p = get(f, x.ops[0]);
			p.c += x.gepConst;
			for (size_t i = 0; i < x.gepVar.size(); i++) {
				Val ix = get(f, x.gepVar[i].first);
				uint32_t w = x.gepW[i];
				if (!ix.bv) { p.c += uint64_t(sx(ix.c, w)) * x.gepVar[i].second; continue; }
				Bits b; toBits(ix, w, b);
				while (b.size() < 64) b.push_back(b[w - 1]);
				Val sc = binop(Instruction::Mul, fromBits(b.data(), 64), mkc(x.gepVar[i].second), 64);
				if (!p.bv) { p.bv = sc.bv; p.c += sc.bv ? 0 : sc.c; }
				else {
					Val a; a.bv = p.bv;
					Val sum = binop(Instruction::Add, a, sc, 64);
					p.bv = sum.bv;
					if (!sum.bv) p.c += sum.c;
				}
			}
			f.regs[x.dst] = p;
			break;
		}
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or:
		case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
			if (x.ty->isVectorTy()) { f.regs[x.dst] = vecOp(s, x.op, get(f, x.ops[0]), get(f, x.ops[1]), x.ty); break; }
			f.regs[x.dst] = binopS(s, x.op, get(f, x.ops[0]), get(f, x.ops[1]), x.w);
			break;
		case Instruction::ICmp:
			if (x.ty->isVectorTy()) throw EngineError{"vector icmp"};
			f.regs[x.dst] = icmp(CmpInst::Predicate(x.sub), get(f, x.ops[0]), get(f, x.ops[1]), x.w2);
			break;
		case Instruction::Select: {
			Val c = get(f, x.ops[0]);
			if (x.I->getOperand(0)->getType()->isVectorTy()) throw EngineError{"vector select"};
			if (!c.bv) f.regs[x.dst] = get(f, x.ops[c.c & 1 ? 1 : 2]);
			else f.regs[x.dst] = iteVal(bvs.get(c.bv)[0], get(f, x.ops[1]), get(f, x.ops[2]), x.ty);
			break;
		}
		case Instruction::Trunc: {
			Val v = get(f, x.ops[0]);
			if (!v.bv) { f.regs[x.dst] = mkc(v.c & maskw(x.w)); break; }
			Bits b; toBits(v, x.w2, b);
			f.regs[x.dst] = fromBits(b.data(), x.w);
			break;
		}
		case Instruction::ZExt: case Instruction::SExt: {
			Val v = get(f, x.ops[0]);
			bool sg = x.op == Instruction::SExt;
			if (!v.bv && x.w <= 64) { f.regs[x.dst] = mkc((sg ? uint64_t(sx(v.c, x.w2)) : v.c) & maskw(x.w)); break; }
			Bits b; toBits(v, x.w2, b);
			while (b.size() < x.w) b.push_back(sg ? b[x.w2 - 1] : FALSE_);
			f.regs[x.dst] = fromBits(b.data(), x.w);
			break;
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: {
			Val v = get(f, x.ops[0]);
			if (v.bv && v.c) { Bits b; toBits(v, 64, b); v = fromBits(b.data(), 64); }
			if (x.w != x.w2) {
				if (v.bv) { Bits b; toBits(v, x.w2, b); while (b.size() < x.w) b.push_back(FALSE_); v = fromBits(b.data(), x.w); }
				else v.c &= maskw(x.w);
			}
			f.regs[x.dst] = v;
			break;
		}
		case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
			if (isAgg(x.ty) != isAgg(x.I->getOperand(0)->getType())) throw EngineError{"vector bitcast"};
			f.regs[x.dst] = get(f, x.ops[0]);
			break;
		case Instruction::ExtractValue: {
			Val v = get(f, x.ops[0]);
			Type *t = x.I->getOperand(0)->getType();
			for (unsigned i : x.idx) { auto e = aggElems(v, t); v = e[i]; t = elemType(t, i); }
			f.regs[x.dst] = v;
			break;
		}
		case Instruction::InsertValue: {
			Val v = get(f, x.ops[0]), e = get(f, x.ops[1]);
			f.regs[x.dst] = insertVal(v, x.I->getOperand(0)->getType(), e, x.idx, 0);
			break;
		}
		case Instruction::ExtractElement: {
			uint64_t i = concretize(s, get(f, x.ops[1]), widthOf(x.I->getOperand(1)->getType()));
			auto e = aggElems(get(f, x.ops[0]), x.I->getOperand(0)->getType());
			f.regs[x.dst] = e.at(i);
			break;
		}
		case Instruction::InsertElement: {
			uint64_t i = concretize(s, get(f, x.ops[2]), widthOf(x.I->getOperand(2)->getType()));
			auto e = aggElems(get(f, x.ops[0]), x.ty);
			e.at(i) = get(f, x.ops[1]);
			f.regs[x.dst] = mkAgg(e);
			break;
		}
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
		case Instruction::FCmp: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI:
		case Instruction::FPExt: case Instruction::FPTrunc:
			fpOp(s, f, x);
			break;
		case Instruction::VAArg: throw EngineError{"va_arg"};
		case Instruction::Call: case Instruction::Invoke:
			return call(s, f, x);
		default:
			throw EngineError{string("unsupported instruction ") + x.I->getOpcodeName()};
		}
		f.ip++;
		return S_CONT;
	}

	Val insertVal(const Val &v, Type *t, const Val &e, const vector<unsigned> &idx, size_t k)
	{
		if (k == idx.size()) return e;
		auto el = aggElems(v, t);
		el[idx[k]] = insertVal(el[idx[k]], elemType(t, idx[k]), e, idx, k + 1);
		return mkAgg(el);
	}
	double asD(const Val &v, uint32_t w) { if (w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
	Val fromD(double d, uint32_t w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return mkc(u); } uint64_t u; memcpy(&u, &d, 8); return mkc(u); }
	void fpOp(State &s, Frame &f, DInst &x)
	{
		for (int o : x.ops) if (get(f, o).bv) throw EngineError{"symbolic floating point"};
		Type *t0 = x.I->getOperand(0)->getType();
		if (t0->isX86_FP80Ty() || x.ty->isX86_FP80Ty()) throw EngineError{"x87 floating point"};
		uint32_t w0 = widthOf(t0);
		Val a = get(f, x.ops[0]), b = x.ops.size() > 1 ? get(f, x.ops[1]) : Val();
		Val r;
		switch (x.op) {
		case Instruction::FAdd: r = fromD(asD(a, w0) + asD(b, w0), w0); break;
		case Instruction::FSub: r = fromD(asD(a, w0) - asD(b, w0), w0); break;
		case Instruction::FMul: r = fromD(asD(a, w0) * asD(b, w0), w0); break;
		case Instruction::FDiv: r = fromD(asD(a, w0) / asD(b, w0), w0); break;
		case Instruction::UIToFP: r = fromD(double(a.c), x.w); break;
		case Instruction::SIToFP: r = fromD(double(sx(a.c, w0)), x.w); break;
		case Instruction::FPToUI: r = mkc(uint64_t(asD(a, w0)) & maskw(x.w)); break;
		case Instruction::FPToSI: r = mkc(uint64_t(int64_t(asD(a, w0))) & maskw(x.w)); break;
		case Instruction::FPExt: case Instruction::FPTrunc: r = fromD(asD(a, w0), x.w); break;
		case Instruction::FCmp: {
			double p = asD(a, w0), q = asD(b, w0);
			bool un = p != p || q != q, res;
			switch (x.sub) {
			case CmpInst::FCMP_OEQ: res = p == q; break; case CmpInst::FCMP_ONE: res = !un && p != q; break;
			case CmpInst::FCMP_OGT: res = p > q; break; case CmpInst::FCMP_OGE: res = p >= q; break;
			case CmpInst::FCMP_OLT: res = p < q; break; case CmpInst::FCMP_OLE: res = p <= q; break;
			case CmpInst::FCMP_UNE: res = un || p != q; break; case CmpInst::FCMP_UEQ: res = un || p == q; break;
			case CmpInst::FCMP_UGT: res = un || p > q; break; case CmpInst::FCMP_UGE: res = un || p >= q; break;
			case CmpInst::FCMP_ULT: res = un || p < q; break; case CmpInst::FCMP_ULE: res = un || p <= q; break;
			case CmpInst::FCMP_ORD: res = !un; break; case CmpInst::FCMP_UNO: res = un; break;
			default: res = false;
			}
			r = mkc(res); break;
		}
		default: throw EngineError{"fp"};
		}
		f.regs[x.dst] = r;
	}
	Val vecOp(State &s, unsigned op, const Val &a, const Val &b, Type *ty)
	{
		auto x = aggElems(a, ty), y = aggElems(b, ty);
		uint32_t w = widthOf(elemType(ty, 0));
		for (size_t i = 0; i < x.size(); i++) x[i] = binopS(s, op, x[i], y[i], w);
		return mkAgg(x);
	}
	Val binopS(State &s, unsigned op, const Val &a, const Val &b, uint32_t w)
	{
		if (op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr) {
			// an oversized shift in the source is caught by the check that the compiler puts in front of
			// it (-fsanitize=shift-exponent); one that is only speculated is poison, and not used
			if (!b.bv && b.c >= w) return mkc(0);
		}
		if (op == Instruction::UDiv || op == Instruction::URem || op == Instruction::SDiv || op == Instruction::SRem) {
			if (!b.bv && b.c == 0) throw PathError{"div-by-zero", "division by zero"};
			if (b.bv) {
				Bits bb, z(w, FALSE_); toBits(b, w, bb);
				Lit bad = eqBits(bb, z);
				vector<Lit> q = s.pc; q.push_back(bad);
				vector<uint8_t> m;
				if (bad != FALSE_ && sol.check(q, &m) == Solver::SAT) { report(s, "div-by-zero", "division by zero", m); addPC(s, neg(bad)); }
			}
		}
		return binop(op, a, b, w);
	}
	Val binop(unsigned op, const Val &a, const Val &b, uint32_t w)
	{
		if (!a.bv && !b.bv && w <= 64) {
			uint64_t x = a.c, y = b.c, r = 0;
			switch (op) {
			case Instruction::Add: r = x + y; break;
			case Instruction::Sub: r = x - y; break;
			case Instruction::Mul: r = x * y; break;
			case Instruction::And: r = x & y; break;
			case Instruction::Or: r = x | y; break;
			case Instruction::Xor: r = x ^ y; break;
			case Instruction::Shl: r = y >= w ? 0 : x << y; break;
			case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
			case Instruction::AShr: r = y >= w ? 0 : uint64_t(sx(x, w) >> y); break;
			case Instruction::UDiv: r = x / y; break;
			case Instruction::URem: r = x % y; break;
			case Instruction::SDiv: r = sx(y, w) == -1 ? -x : uint64_t(sx(x, w) / sx(y, w)); break;
			case Instruction::SRem: r = sx(y, w) == -1 ? 0 : uint64_t(sx(x, w) % sx(y, w)); break;
			}
			return mkc(r & maskw(w));
		}
		Bits x, y, r(w);
		toBits(a, w, x); toBits(b, w, y);
		switch (op) {
		case Instruction::Add: addBits(x, y, FALSE_, r); break;
		case Instruction::Sub: subBits(x, y, r); break;
		case Instruction::And: for (uint32_t i = 0; i < w; i++) r[i] = g.mkAnd(x[i], y[i]); break;
		case Instruction::Or: for (uint32_t i = 0; i < w; i++) r[i] = g.mkOr(x[i], y[i]); break;
		case Instruction::Xor: for (uint32_t i = 0; i < w; i++) r[i] = g.mkXor(x[i], y[i]); break;
		case Instruction::Mul: {
			// put the operand with more constant bits second
			auto nc = [&](const Bits &v) { int c = 0; for (Lit l : v) c += l < 2; return c; };
			if (nc(x) > nc(y)) std::swap(x, y);
			for (uint32_t i = 0; i < w; i++) r[i] = FALSE_;
			for (uint32_t i = 0; i < w; i++) {
				if (y[i] == FALSE_) continue;
				Bits t(w, FALSE_);
				for (uint32_t j = i; j < w; j++) t[j] = g.mkAnd(y[i], x[j - i]);
				Bits o; addBits(r, t, FALSE_, o); r = o;
			}
			break;
		}
		case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
			Bits cur(x);
			Lit fill = op == Instruction::AShr ? x[w - 1] : FALSE_;
			for (uint32_t k = 0; k < w && (1u << k) < w; k++) {
				uint32_t d = 1u << k;
				if (y[k] == FALSE_) continue;
				Bits n(w);
				for (uint32_t i = 0; i < w; i++) {
					Lit sh;
					if (op == Instruction::Shl) sh = i >= d ? cur[i - d] : FALSE_;
					else sh = i + d < w ? cur[i + d] : fill;
					n[i] = g.mkIte(y[k], sh, cur[i]);
				}
				cur = n;
			}
			r = cur;
			break;
		}
		case Instruction::UDiv: case Instruction::URem: {
			Bits q, rem; udivrem(x, y, q, rem);
			r = op == Instruction::UDiv ? q : rem;
			break;
		}
		case Instruction::SDiv: case Instruction::SRem: {
			Lit sa = x[w - 1], sb = y[w - 1];
			Bits nx, ny; negBits(x, nx); negBits(y, ny);
			Bits ux(w), uy(w);
			for (uint32_t i = 0; i < w; i++) { ux[i] = g.mkIte(sa, nx[i], x[i]); uy[i] = g.mkIte(sb, ny[i], y[i]); }
			Bits q, rem; udivrem(ux, uy, q, rem);
			Bits nq, nr; negBits(q, nq); negBits(rem, nr);
			Lit sq = g.mkXor(sa, sb);
			for (uint32_t i = 0; i < w; i++) r[i] = op == Instruction::SDiv ? g.mkIte(sq, nq[i], q[i]) : g.mkIte(sa, nr[i], rem[i]);
			break;
		}
		default: throw EngineError{"binop"};
		}
		return fromBits(r.data(), w);
	}
	void udivrem(const Bits &x, const Bits &y, Bits &q, Bits &rem)
	{
		uint32_t w = x.size();
		q.assign(w, FALSE_);
		// power-of-two constant divisor
		int one = -1; bool pow2 = true;
		for (uint32_t i = 0; i < w; i++) { if (y[i] > 1) pow2 = false; else if (y[i] == TRUE_) { if (one >= 0) pow2 = false; one = i; } }
		if (pow2 && one >= 0) {
			rem.assign(w, FALSE_);
			for (uint32_t i = 0; i < w; i++) { if (i + one < w) q[i] = x[i + one]; if (int(i) < one) rem[i] = x[i]; }
			return;
		}
		Bits r(w + 1, FALSE_), yy(y);
		yy.push_back(FALSE_);
		for (uint32_t i = w; i-- > 0;) {
			for (uint32_t j = w; j > 0; j--) r[j] = r[j - 1];
			r[0] = x[i];
			Bits d;
			Lit ge = subBits(r, yy, d);
			q[i] = ge;
			for (uint32_t j = 0; j <= w; j++) r[j] = g.mkIte(ge, d[j], r[j]);
		}
		rem.assign(r.begin(), r.begin() + w);
	}
	Val icmp(CmpInst::Predicate p, const Val &a, const Val &b, uint32_t w)
	{
		if (!a.bv && !b.bv && w <= 64) {
			bool r = false;
			switch (p) {
			case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
			case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
			case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
			case CmpInst::ICMP_SLT: r = sx(a.c, w) < sx(b.c, w); break; case CmpInst::ICMP_SLE: r = sx(a.c, w) <= sx(b.c, w); break;
			case CmpInst::ICMP_SGT: r = sx(a.c, w) > sx(b.c, w); break; case CmpInst::ICMP_SGE: r = sx(a.c, w) >= sx(b.c, w); break;
			default: break;
			}
			return mkc(r);
		}
		Bits x, y;
		toBits(a, w, x); toBits(b, w, y);
		if (CmpInst::isSigned(p)) { x[w - 1] = neg(x[w - 1]); y[w - 1] = neg(y[w - 1]); }
		Lit r;
		switch (p) {
		case CmpInst::ICMP_EQ: r = eqBits(x, y); break;
		case CmpInst::ICMP_NE: r = neg(eqBits(x, y)); break;
		case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = ultBits(x, y); break;
		case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = ultBits(y, x); break;
		case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: r = neg(ultBits(x, y)); break;
		case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = neg(ultBits(y, x)); break;
		default: throw EngineError{"icmp"};
		}
		return fromBits(&r, 1);
	}
	Lit boolLit(const Val &v, uint32_t w)
	{
		if (!v.bv) return v.c ? TRUE_ : FALSE_;
		Bits b, z(w, FALSE_);
		toBits(v, w, b);
		return neg(eqBits(b, z));
	}
	uint32_t argW(DInst &x, unsigned i) { return widthOf(cast<CallBase>(x.I)->getArgOperand(i)->getType()); }

	Step call(State &s, Frame &f, DInst &x)
	{
		const Function *F = x.callee;
		auto *cb = cast<CallBase>(x.I);
		unsigned na = cb->arg_size();
		if (!F) {
			if (isa<InlineAsm>(cb->getCalledOperand())) { finishCall(s, f, x); return S_CONT; }
			uint64_t fp = concPtr(s, get(f, x.ops[na]));
			auto it = fnById.find(fp >> 32);
			if (it == fnById.end() || uint32_t(fp)) throw PathError{fp >> 32 ? "wild-call" : "null-call", "indirect call through an invalid pointer"};
			F = it->second;
			if (F->isDeclaration() || extMap.count(F->getName().str())) {
				auto e = extMap.find(F->getName().str());
				return external(s, f, x, e == extMap.end() ? X_UNSUPPORTED : e->second, F);
			}
		} else {
			if (F->isIntrinsic()) return intrinsic(s, f, x);
			if (x.ext) return external(s, f, x, Ext(x.ext), F);
		}
		vector<Val> args(na);
		for (unsigned i = 0; i < na; i++) args[i] = get(f, x.ops[i]);
		for (unsigned i = 0; i < na; i++) if (cb->isByValArgument(i)) {
			Type *t = cb->getParamByValType(i);
			uint64_t n = DL->getTypeAllocSize(t);
			uint64_t a = alloc(s, n, 2, "byval");
			s.top().allocas.push_back(a >> 32);
			copyMem(s, a, concPtr(s, args[i]), n);
			args[i] = mkc(a);
		}
		pushFrame(s, F, args);
		return S_CONT;
	}

	Step intrinsic(State &s, Frame &f, DInst &x)
	{
		auto id = x.callee->getIntrinsicID();
		auto A = [&](unsigned i) { return get(f, x.ops[i]); };
		uint32_t w = x.w;
		switch (id) {
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start:
		case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
		case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::vastart: case Intrinsic::vaend:
		case Intrinsic::stackrestore: case Intrinsic::var_annotation:
			break;
		case Intrinsic::stacksave: f.regs[x.dst] = mkc(0); break;
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
			uint64_t n = concretize(s, A(2), argW(x, 2));
			if (n) copyMem(s, concPtr(s, A(0)), concPtr(s, A(1)), n);
			break;
		}
		case Intrinsic::memset: {
			uint64_t n = concretize(s, A(2), argW(x, 2));
			if (n) memsetV(s, concPtr(s, A(0)), A(1), n);
			break;
		}
		case Intrinsic::ubsantrap:
			if (x.ops.size() && !A(0).bv && A(0).c == 20) throw PathError{"ub-shift", "shift by more than the width of the value"};
			throw PathError{"trap", "reached a trap"};
		case Intrinsic::trap: case Intrinsic::debugtrap:
			throw PathError{"trap", "reached a trap"};
		case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
		case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
			f.regs[x.dst] = A(0); break;
		case Intrinsic::is_constant: f.regs[x.dst] = mkc(0); break;
		case Intrinsic::objectsize: f.regs[x.dst] = mkc(maskw(w)); break;
		case Intrinsic::eh_typeid_for: f.regs[x.dst] = mkc(selectorOf(concPtr(s, A(0)))); break;
		case Intrinsic::threadlocal_address: f.regs[x.dst] = A(0); break;
		case Intrinsic::bswap: {
			Bits b, r(w); toBits(A(0), w, b);
			for (uint32_t i = 0; i < w; i++) r[i] = b[(w / 8 - 1 - i / 8) * 8 + i % 8];
			f.regs[x.dst] = fromBits(r.data(), w); break;
		}
		case Intrinsic::bitreverse: {
			Bits b, r(w); toBits(A(0), w, b);
			for (uint32_t i = 0; i < w; i++) r[i] = b[w - 1 - i];
			f.regs[x.dst] = fromBits(r.data(), w); break;
		}
		case Intrinsic::fshl: case Intrinsic::fshr: {
			Bits hi, lo, sh; toBits(A(0), w, hi); toBits(A(1), w, lo); toBits(A(2), w, sh);
			bool left = id == Intrinsic::fshl;
			if ((w & (w - 1)) != 0) throw EngineError{"fshl width"};
			Bits cat(2 * w);
			for (uint32_t i = 0; i < w; i++) { cat[i] = lo[i]; cat[w + i] = hi[i]; }
			for (uint32_t k = 0; (1u << k) < w; k++) {
				uint32_t d = 1u << k;
				if (sh[k] == FALSE_) continue;
				Bits n(2 * w);
				for (uint32_t i = 0; i < 2 * w; i++) {
					Lit v = left ? (i >= d ? cat[i - d] : FALSE_) : (i + d < 2 * w ? cat[i + d] : FALSE_);
					n[i] = g.mkIte(sh[k], v, cat[i]);
				}
				cat = n;
			}
			f.regs[x.dst] = fromBits(left ? cat.data() + w : cat.data(), w); break;
		}
		case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
			Val a = A(0), b = A(1);
			CmpInst::Predicate p = id == Intrinsic::umin || id == Intrinsic::umax ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT;
			Val lt = icmp(p, a, b, w);
			bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
			if (!lt.bv) f.regs[x.dst] = (lt.c != 0) == mn ? a : b;
			else f.regs[x.dst] = iteVal(bvs.get(lt.bv)[0], mn ? a : b, mn ? b : a, x.ty);
			break;
		}
		case Intrinsic::abs: {
			Val a = A(0), n = binop(Instruction::Sub, mkc(0), a, w), lt = icmp(CmpInst::ICMP_SLT, a, mkc(0), w);
			if (!lt.bv) f.regs[x.dst] = lt.c ? n : a; else f.regs[x.dst] = iteVal(bvs.get(lt.bv)[0], n, a, x.ty);
			break;
		}
		case Intrinsic::ctpop: {
			Bits b; toBits(A(0), w, b);
			Val r = mkc(0);
			for (uint32_t i = 0; i < w; i++) { Bits o(w, FALSE_); o[0] = b[i]; r = binop(Instruction::Add, r, fromBits(o.data(), w), w); }
			f.regs[x.dst] = r; break;
		}
		case Intrinsic::ctlz: case Intrinsic::cttz: {
			Bits b; toBits(A(0), w, b);
			Val r = mkc(w);
			for (uint32_t k = 0; k < w; k++) {
				uint32_t i = id == Intrinsic::ctlz ? k : w - 1 - k;
				Val n = mkc(id == Intrinsic::ctlz ? w - 1 - i : i);
				if (b[i] == TRUE_) r = n; else if (b[i] != FALSE_) r = iteVal(b[i], n, r, x.ty);
			}
			f.regs[x.dst] = r; break;
		}
		case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
		case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
			uint32_t n = argW(x, 0);
			bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
			bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
			unsigned op = mul ? Instruction::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : Instruction::Sub;
			uint32_t m = mul ? 2 * n : n + 1;
			Bits a, b; toBits(A(0), n, a); toBits(A(1), n, b);
			while (a.size() < m) a.push_back(sg ? a[n - 1] : FALSE_);
			while (b.size() < m) b.push_back(sg ? b[n - 1] : FALSE_);
			Val r = binop(op, fromBits(a.data(), m), fromBits(b.data(), m), m);
			Bits rb; toBits(r, m, rb);
			Bits ext(m);
			for (uint32_t i = 0; i < m; i++) ext[i] = i < n ? rb[i] : sg ? rb[n - 1] : FALSE_;
			Lit ov = neg(eqBits(rb, ext));
			f.regs[x.dst] = mkAgg({fromBits(rb.data(), n), fromBits(&ov, 1)});
			break;
		}
		case Intrinsic::usub_sat: {
			Val lt = icmp(CmpInst::ICMP_ULT, A(0), A(1), w), d = binop(Instruction::Sub, A(0), A(1), w);
			if (!lt.bv) f.regs[x.dst] = lt.c ? mkc(0) : d; else f.regs[x.dst] = iteVal(bvs.get(lt.bv)[0], mkc(0), d, x.ty);
			break;
		}
		default:
			throw EngineError{"unsupported intrinsic " + x.callee->getName().str()};
		}
		finishCall(s, f, x);
		return S_CONT;
	}
	void memsetV(State &s, uint64_t a, const Val &v, uint64_t n)
	{
		Obj *o = access(s, a, n, true);
		uint32_t c;
		if (!v.bv) c = v.c & 255;
		else { Bits b; toBits(v, bvs.width(v.bv), b); c = mkCell(b.data()); }
		for (uint64_t i = 0; i < n; i++) o->cells[uint32_t(a) + i] = c;
	}
	void freeObj(State &s, uint64_t p)
	{
		if (!p) return;
		Obj *o = find(s, p);
		if (!o) throw PathError{"double-free", "free of a dead object " + addrStr(p)};
		if (o->kind != 1 || uint32_t(p)) throw PathError{"bad-free", "free of a pointer that was not allocated"};
		if (s.reuse && o->size <= LARGE) s.freed[sizeClass(o->size)].push_back(uint32_t(p >> 32));
		s.mem.erase(uint32_t(p >> 32));
	}

	Step external(State &s, Frame &f, DInst &x, Ext e, const Function *F)
	{
		auto A = [&](unsigned i) { return get(f, x.ops[i]); };
		auto setr = [&](const Val &v) { if (x.dst >= 0) f.regs[x.dst] = v; };
		switch (e) {
		case X_SYMBOLIC: {
			uint64_t p = concPtr(s, A(0)), n = concretize(s, A(1), argW(x, 1));
			string nm = cstr(s, concPtr(s, A(2)));
			// the same name on another path denotes the same input (possibly a longer or shorter prefix of it)
			if (!s.symNames.insert(nm).second) throw EngineError{"input " + nm + " used twice on one path"};
			Input *in = nullptr;
			for (auto &i : inputs) if (i.name == nm) in = &i;
			if (!in) { inputs.push_back({nm, 0, {}, false}); in = &inputs.back(); }
			while (in->vars.size() < n * 8) { in->vars.push_back(g.nvars); g.newVar(); }
			in->nbytes = in->vars.size() / 8;
			Obj *o = access(s, p, n, true);
			for (uint64_t i = 0; i < n; i++) {
				Lit l[8];
				for (int k = 0; k < 8; k++) l[k] = g.varNode[in->vars[i * 8 + k]] * 2;
				o->cells[uint32_t(p) + i] = mkCell(l);
			}
			break;
		}
		// an arbitrary function of 64-bit words, the same on all paths: equal (canonical) arguments, equal results
		case X_UF: {
			string key = cstr(s, concPtr(s, A(0)));
			uint64_t in = concPtr(s, A(1)), nin = concretize(s, A(2), argW(x, 2)), out = concPtr(s, A(3)), nout = concretize(s, A(4), argW(x, 4));
			key += '/' + std::to_string(nout);
			Obj *o = nin ? access(s, in, nin * 8, false) : nullptr;
			for (uint64_t i = 0; i < nin * 8; i++) {
				Lit l[8];
				cellBits(s, o, uint32_t(in) + i, l);
				for (int k = 0; k < 8; k++) key.append(reinterpret_cast<const char *>(&l[k]), sizeof(Lit));
			}
			auto &vs = ufs[key];
			while (vs.size() < nout * 64) { vs.push_back(g.nvars); g.newVar(); }
			o = access(s, out, nout * 8, true);
			for (uint64_t i = 0; i < nout * 8; i++) {
				Lit l[8];
				for (int k = 0; k < 8; k++) l[k] = g.varNode[vs[i * 8 + k]] * 2;
				o->cells[uint32_t(out) + i] = mkCell(l);
			}
			break;
		}
		case X_REUSE: s.reuse = boolLit(A(0), argW(x, 0)) != FALSE_; break;
		case X_STKRESET: s.depthBase = s.depthPeak = s.fr.size(); break;
		case X_STKPEAK: setr(mkc(s.depthPeak - s.depthBase)); break;
		case X_STKMORE: setr(mkc(concretize(s, A(1), 64) > concretize(s, A(0), 64) + 8)); break;
		case X_CHOICE: {
			bi.choice = true; bi.n = concretize(s, A(0), 64); bi.name = cstr(s, concPtr(s, A(1)));
			auto it = s.choices.find(bi.name);
			if (it != s.choices.end()) { setr(mkc(it->second)); break; }
			bi.arms.clear();
			return S_BRANCH;
		}
		case X_ASSUME: {
			Lit l = boolLit(A(0), argW(x, 0));
			if (l == FALSE_) throw PathError{"infeasible", ""};
			addPC(s, l);
			break;
		}
		case X_ASSERT: doAssert(s, boolLit(A(0), argW(x, 0)), cstr(s, concPtr(s, A(1)))); break;
		case X_ASSERT_EQ: {
			Bits a, b; toBits(A(0), 64, a); toBits(A(1), 64, b);
			string msg = cstr(s, concPtr(s, A(2)));
			vector<Lit> d;
			for (int i = 0; i < 64; i++) { Lit l = g.mkXor(a[i], b[i]); if (l != FALSE_) d.push_back(l); }
			nAsserts++;
			if (d.empty()) { nAssertsRewrite++; assertsProved[msg]++; sol.qTotal++; sol.qRewrite++; break; }
			bool bad = false, unk = false;
			for (Lit l : d) {
				vector<Lit> q = s.pc; q.push_back(l);
				vector<uint8_t> m;
				Solver::R r = s.assumed ? sol.check(q, &m, false, 5) : sol.check(q, &m);
				if (r == Solver::SAT) { report(s, "assert", msg, m); bad = true; break; }
				if (r == Solver::UNKNOWN && s.assumed) defer(s, l, msg);
				else if (r == Solver::UNKNOWN) unk = true;
			}
			if (!bad && unk) note("solver gave no verdict on assertion: " + msg);
			if (bad) throw PathError{"infeasible", ""};
			else if (!unk) assertsProved[msg]++;
			break;
		}
		case X_REACH: {
			string l = cstr(s, concPtr(s, A(0)));
			if (!reached.count(l) || reached[l] == 0) {
				Solver::R r = sol.check(s.pc);
				if (r == Solver::SAT) reached[l]++;
			} else reached[l]++;
			break;
		}
		case X_EMIT: {
			Bits b; toBits(A(1), 64, b);
			s.emits.emplace_back(cstr(s, concPtr(s, A(0))), fromBits(b.data(), 64));
			break;
		}
		case X_ERR: throw PathError{"fail", cstr(s, concPtr(s, A(0)))};
		case X_ISNATIVE: setr(mkc(0)); break;
		case X_OBJSIZE: { uint64_t p = concPtr(s, A(0)); Obj *o = find(s, p); setr(mkc(o ? o->size : 0)); break; }
		case X_HEAP: { uint64_t c = 0; for (auto &kv : s.mem) if (kv.second->kind == 1) c++; setr(mkc(c)); break; }
		case X_ALIVE: { uint64_t p = concPtr(s, A(0)); setr(mkc(find(s, p) != nullptr)); break; }
		case X_MALLOC: setr(mkc(alloc(s, concretize(s, A(0), 64), 1, "malloc"))); break;
		case X_NEW: setr(mkc(alloc(s, concretize(s, A(0), 64), 1, "heap"))); break;
		case X_CALLOC: setr(mkc(alloc(s, concretize(s, A(0), 64) * concretize(s, A(1), 64), 1, "calloc", 0))); break;
		case X_REALLOC: {
			uint64_t p = concPtr(s, A(0)), n = concretize(s, A(1), 64);
			uint64_t q = alloc(s, n, 1, "realloc");
			if (p) { Obj *o = find(s, p); if (!o) throw PathError{"use-after-free", "realloc"}; copyMem(s, q, p, std::min<uint64_t>(n, o->size)); freeObj(s, p); }
			setr(mkc(q));
			break;
		}
		case X_FREE: case X_DELETE: freeObj(s, concPtr(s, A(0))); break;
		case X_MEMCPY: { uint64_t n = concretize(s, A(2), 64), d = concPtr(s, A(0)); copyMem(s, d, concPtr(s, A(1)), n); setr(mkc(d)); break; }
		case X_MEMSET: { uint64_t n = concretize(s, A(2), 64), d = concPtr(s, A(0)); if (n) memsetV(s, d, A(1), n); setr(mkc(d)); break; }
		case X_MEMCMP: {
			uint64_t n = concretize(s, A(2), 64), p = concPtr(s, A(0)), q = concPtr(s, A(1));
			Val r = mkc(0);
			for (uint64_t i = n; i-- > 0;) {
				Val a = loadInt(s, p + i, 8), b = loadInt(s, q + i, 8);
				Val lt = icmp(CmpInst::ICMP_ULT, a, b, 8), eq = icmp(CmpInst::ICMP_EQ, a, b, 8);
				Val ne = iteV(lt, mkc(0xffffffffu), mkc(1), 32);
				r = iteV(eq, r, ne, 32);
			}
			setr(r);
			break;
		}
		case X_STRLEN: {
			uint64_t p = concPtr(s, A(0)), n = 0;
			while (true) {
				Val c = loadInt(s, p + n, 8);
				if (!c.bv) { if (!c.c) break; n++; continue; }
				uint64_t v = concretizeNZ(s, c);
				if (!v) break;
				n++;
			}
			setr(mkc(n));
			break;
		}
		case X_ABORT: throw PathError{"abort", "abort() called"};
		case X_TERMINATE: throw PathError{"terminate", "std::terminate called"};
		case X_EXIT: return S_TERM;
		case X_NOP: break;
		case X_NOP0: setr(mkc(0)); break;
		case X_NOP1: setr(mkc(1)); break;
		case X_ALLOCEXC: setr(mkc(alloc(s, concretize(s, A(0), 64), 4, "exception"))); break;
		case X_FREEEXC: s.mem.erase(uint32_t(concPtr(s, A(0)) >> 32)); break;
		case X_THROW: {
			uint64_t p = concPtr(s, A(0));
			s.excs[p] = ExcInfo{concPtr(s, A(1)), concPtr(s, A(2)), 0};
			startUnwind(s, p);
			return S_CONT;
		}
		case X_RETHROW: {
			if (s.caught.empty()) throw PathError{"terminate", "rethrow without exception"};
			startUnwind(s, s.caught.back());
			return S_CONT;
		}
		case X_GETEXC: setr(A(0)); break;
		case X_BEGINCATCH: { uint64_t p = concPtr(s, A(0)); s.caught.push_back(p); setr(mkc(p)); break; }
		case X_ENDCATCH: if (!s.caught.empty()) s.caught.pop_back(); break;
		case X_DYNCAST: {
			uint64_t p = concPtr(s, A(0)), src = concPtr(s, A(1)), dst = concPtr(s, A(2));
			(void)src;
			uint64_t vp = rd64(s, p);
			uint64_t ti = rd64(s, vp - 8);
			int64_t ott = rd64(s, vp - 16);
			uint64_t out = 0;
			if (!findSub(s, ti, p + ott, dst, out)) out = 0;
			setr(mkc(out));
			break;
		}
		case X_PUREVIRT: throw PathError{"pure-virtual", "pure virtual call"};
		case X_GUARD_ACQ: {
			uint64_t p = concPtr(s, A(0));
			Val v = loadInt(s, p, 8);
			setr(mkc(v.c ? 0 : 1));
			break;
		}
		case X_GUARD_REL: storeInt(s, concPtr(s, A(0)), mkc(1), 8); break;
		case X_UNSUPPORTED: default:
			throw EngineError{"call to unmodelled external function " + demangle(F->getName().str())};
		}
		finishCall(s, f, x);
		return S_CONT;
	}
	Val iteV(const Val &c, const Val &a, const Val &b, uint32_t w)
	{
		if (!c.bv) return c.c ? a : b;
		return iteVal(bvs.get(c.bv)[0], a, b, IntegerType::get(ctx, w));
	}
	// 0 / nonzero decision on a symbolic byte, forking
	uint64_t concretizeNZ(State &s, const Val &c)
	{
		Val z = icmp(CmpInst::ICMP_NE, c, mkc(0), 8);
		if (!z.bv) return z.c;
		return concretize(s, z, 1);
	}

	// ------------------------------------------------ merging
	bool sameShape(State &a, State &b)
	{
		if (a.fr.size() != b.fr.size()) return false;
		if (a.reuse != b.reuse || a.choices != b.choices || a.emits.size() != b.emits.size() || a.caught != b.caught) return false;
		for (size_t i = 0; i < a.fr.size(); i++) {
			Frame &x = *a.fr[i], &y = *b.fr[i];
			if (x.serial != y.serial || x.bb != y.bb || x.ip != y.ip) return false;
		}
		return true;
	}
	Type *regType(DFunc *d, uint32_t r)
	{
		auto &v = regTypes[d];
		if (v.empty()) {
			for (auto &A : d->F->args()) v.push_back(A.getType());
			for (auto &B : *d->F) for (auto &I : B) if (!I.getType()->isVoidTy()) v.push_back(I.getType());
		}
		return v[r];
	}
	std::unordered_map<DFunc *, vector<Type *>> regTypes;
	bool looksPtr(State &s, uint64_t v) { uint32_t id = v >> 32; return id && s.mem.count(id); }

	// merges b into a; returns false (a unchanged) when not possible
	bool merge(State &a, State &b)
	{
		if (noMerge) return false;
		if (!sameShape(a, b)) { nMergeFail++; return false; }
		size_t np = 0;
		while (np < a.pc.size() && np < b.pc.size() && a.pc[np] == b.pc[np]) np++;
		// every object alive in only one state must be one allocated after the fork there
		// (ids are globally unique, so it is simply unknown to the other one); an object
		// freed in one state only makes the heaps incompatible
		uint32_t limit = std::min(a_forkObj, b_forkObj);
		(void)limit;
		for (auto &kv : a.mem) if (kv.first < mergeBase && !b.mem.count(kv.first)) { nMergeFail++; return false; }
		for (auto &kv : b.mem) if (kv.first < mergeBase && !a.mem.count(kv.first)) { nMergeFail++; return false; }
		// pointer-valued differences in the heap: keep the states apart
		for (auto &kv : a.mem) {
			auto it = b.mem.find(kv.first);
			if (it == b.mem.end() || it->second == kv.second) continue;
			Obj &x = *kv.second, &y = *it->second;
			if (x.size != y.size) { nMergeFail++; return false; }
			if (x.cells.size() < y.cells.size()) x.cells.resize(y.cells.size(), x.fill);
			if (y.cells.size() < x.cells.size()) y.cells.resize(x.cells.size(), y.fill);
			for (size_t i = 0; i + 8 <= x.cells.size(); i += 8) {
				bool diff = false, conc = true;
				uint64_t p = 0, q = 0;
				for (int k = 0; k < 8; k++) {
					if (x.cells[i + k] != y.cells[i + k]) diff = true;
					if (x.cells[i + k] >= 256 || y.cells[i + k] >= 256) conc = false;
					p |= uint64_t(x.cells[i + k] & 255) << (8 * k); q |= uint64_t(y.cells[i + k] & 255) << (8 * k);
				}
				if (diff && conc && (looksPtr(a, p) || looksPtr(b, q))) { nMergeFail++; return false; }
			}
		}
		vector<Lit> s1(a.pc.begin() + np, a.pc.end()), s2(b.pc.begin() + np, b.pc.end());
		Lit c1 = andTree(s1), c2 = andTree(s2);
		if (sol.mergeConds.size() < 4096) sol.mergeConds.push_back(c1);
		for (auto &kv : b.mem) {
			auto it = a.mem.find(kv.first);
			if (it == a.mem.end()) { a.mem[kv.first] = kv.second; continue; }
			if (it->second == kv.second) continue;
			ObjP n;
			Obj &x = *it->second, &y = *kv.second;
			for (size_t i = 0; i < x.cells.size(); i++) {
				if (x.cells[i] == y.cells[i]) continue;
				if (!n) n = std::make_shared<Obj>(x);
				if (x.cells[i] == CELL_UNINIT || y.cells[i] == CELL_UNINIT) {
					// value on one side only: the other side is indeterminate
					Lit l[8], m[8];
					Obj tx, ty2;
					tx.cells = {x.cells[i]}; ty2.cells = {y.cells[i]};
					tx.name = x.name; ty2.name = y.name;
					cellBits(a, &tx, 0, l); cellBits(b, &ty2, 0, m);
					for (int k = 0; k < 8; k++) l[k] = g.mkIte(c1, l[k], m[k]);
					n->cells[i] = mkCell(l);
					continue;
				}
				Lit l[8], m[8];
				cellBits(a, &x, i, l); cellBits(b, &y, i, m);
				for (int k = 0; k < 8; k++) l[k] = g.mkIte(c1, l[k], m[k]);
				n->cells[i] = mkCell(l);
			}
			if (n) it->second = n;
		}
		for (size_t i = 0; i < a.fr.size(); i++) {
			if (a.fr[i] == b.fr[i]) continue;
			Frame &x = a.frameAt(i), &y = *b.fr[i];
			for (size_t r = 0; r < x.regs.size(); r++)
				if (x.regs[r] != y.regs[r]) {
					Type *t = regType(x.f, r);
					if (t->isTokenTy() || t->isMetadataTy() || t->isVectorTy()) continue;
					bool aggOk = true;
					if (isAgg(t) && (!x.regs[r].agg || !y.regs[r].agg)) aggOk = false;
					if (aggOk) x.regs[r] = iteVal(c1, x.regs[r], y.regs[r], t);
				}
			std::set<uint32_t> al(x.allocas.begin(), x.allocas.end());
			for (uint32_t id : y.allocas) if (!al.count(id)) x.allocas.push_back(id);
		}
		for (size_t i = 0; i < a.emits.size(); i++) if (a.emits[i].second != b.emits[i].second) {
			a.emits[i].second = iteVal(c1, a.emits[i].second, b.emits[i].second, IntegerType::get(ctx, 64));
		}
		for (auto it = a.concr.begin(); it != a.concr.end();) {
			auto j = b.concr.find(it->first);
			if (j == b.concr.end() || j->second != it->second) it = a.concr.erase(it); else ++it;
		}
		for (auto &kv : b.excs) a.excs.insert(kv);
		if (a.freed != b.freed) {
			for (auto &kv : a.freed) {
				auto &o = b.freed[kv.first];
				vector<uint32_t> keep;
				for (uint32_t id : kv.second) if (!a.mem.count(id) && std::find(o.begin(), o.end(), id) != o.end()) keep.push_back(id);
				kv.second = keep;
			}
		}
		a.depthPeak = std::max(a.depthPeak, b.depthPeak);
		a.pc.resize(np);
		// disjoint by construction (opposite sides of a fork): or == xor
		Lit o = g.mkXor(c1, c2);
		if (o != TRUE_) a.pc.push_back(o);
		nMerges++;
		return true;
	}
	uint32_t a_forkObj = 0, b_forkObj = 0, mergeBase = 0;

	void mergeAll(vector<StateP> &v, uint32_t base)
	{
		vector<StateP> out;
		for (auto &s : v) {
			bool done = false;
			for (auto &o : out) {
				mergeBase = base;
				if (merge(*o, *s)) { o->assumed = std::min(o->assumed, s->assumed); done = true; break; }
			}
			if (!done) out.push_back(std::move(s));
		}
		v.swap(out);
	}

	// ------------------------------------------------ exploration
	struct Done { vector<StateP> arrived, escaped; };

	void finishPath(State &s)
	{
		nPaths++;
		longest = std::max(longest, s.steps);
		if (nPaths > maxPaths) throw EngineError{"path limit"};
		if (pathRecs.size() < maxPathRecs) { PathRec p; p.choices = s.choices; p.emits = s.emits; p.pc = s.pc; pathRecs.push_back(p); }
	}

	void explore(StateP s0, const MergePt &mp, Done &out)
	{
		vector<StateP> work;
		work.push_back(std::move(s0));
		while (!work.empty()) {
			size_t best = work.size() - 1;	// the latest of those with the fewest undecided branches
			for (size_t i = best; i-- > 0;) if (work[i]->assumed < work[best]->assumed) best = i;
			StateP s = std::move(work[best]);
			work.erase(work.begin() + best);
			runOne(std::move(s), mp, out, work);
			if (enough()) return;
		}
	}
	bool atMerge(State &s, const MergePt &mp)
	{
		if (!mp.serial || mp.bb < 0) return false;
		if (s.fr.size() != mp.depth) return false;
		Frame &f = *s.fr.back();
		return f.serial == mp.serial && f.bb == uint32_t(mp.bb) && f.ip == 0;
	}
	void runOne(StateP s, const MergePt &mp, Done &out, vector<StateP> &work)
	{
		while (true) {
			if ((nInstr & 0xfff) == 0 && deadline && Solver::now() > deadline) throw EngineError{"time limit"};
			if (enough()) return;
			if (mp.serial) {
				if (s->fr.size() < mp.depth || (s->fr.size() >= mp.depth && s->fr[mp.depth - 1]->serial != mp.serial)) {
					// left the frame without reaching the merge point
					out.escaped.push_back(std::move(s));
					return;
				}
				if (atMerge(*s, mp)) { out.arrived.push_back(std::move(s)); return; }
			}
			Step r;
			size_t depthBefore = s->fr.size();
			uint64_t serialBefore = s->fr.back()->serial;
			try {
				if (++s->steps > maxPathSteps) throw PathError{"no-end", "no end after " + std::to_string(maxPathSteps) + " instructions"};
				r = step(*s);
			} catch (PathError &e) {
				if (e.kind == "infeasible") return;
				vector<uint8_t> m;
				Solver::R q = sol.check(s->pc, &m);
				if (q == Solver::SAT) { if (s->fr.empty()) { State t; report(t, e.kind, e.msg, m); if (!viols.empty()) viols.back().choices = s->choices; } else report(*s, e.kind, e.msg, m); }
				else if (q == Solver::UNKNOWN) note("solver timeout on error path");
				nPaths++;
				return;
			} catch (ConcrReq &c) {
				nForks++;
				StateP t(new State(*s));
				vector<Lit> q = s->pc; q.push_back(neg(c.eq));
				Solver::R rr = sol.check(q);
				if (rr == Solver::UNKNOWN) throw EngineError{"solver timeout on concretisation"};
				s->pc.push_back(c.eq);
				s->concr[c.bv] = c.val;
				if (rr == Solver::SAT) { t->pc.push_back(neg(c.eq)); work.push_back(std::move(t)); }
				continue;
			}
			if (r == S_CONT) continue;
			if (r == S_TERM) { finishPath(*s); return; }
			if (r == S_RETURNED) {
				if (mp.serial && mp.bb < 0 && depthBefore == mp.depth && serialBefore == mp.serial) {
					out.arrived.push_back(std::move(s));
					return;
				}
				continue;
			}
			// S_BRANCH
			nForks++;
			if (bi.choice) {
				uint64_t n = bi.n;
				string nm = bi.name;
				for (uint64_t i = n; i-- > 0;) {
					StateP t(new State(*s));
					t->choices[nm] = i;
					work.push_back(std::move(t));
				}
				return;
			}
			vector<std::pair<Lit, uint32_t>> arms = bi.arms;
			const std::set<uint32_t> unsure = bi.unsure;
			Frame &f = s->top();
			computeIpdom(f.f);
			MergePt in;
			in.serial = f.serial; in.depth = s->fr.size();
			in.bb = f.f->blocks[f.bb].ipdom;
			uint32_t base = nextObj;
			Done d;
			for (size_t i = 0; i < arms.size(); i++) {
				StateP t;
				if (i + 1 == arms.size()) t = std::move(s); else t.reset(new State(*s));
				t->pc.push_back(arms[i].first);
				t->assumed += unsure.count(arms[i].second);
				jump(*t, t->top(), arms[i].second);
				explore(std::move(t), in, d);
				if (enough()) return;
			}
			mergeAll(d.arrived, base);
			for (auto &t : d.escaped) work.push_back(std::move(t));
			for (auto &t : d.arrived) work.push_back(std::move(t));
			return;
		}
	}

	void runCtors(State &s0)
	{
		auto *gc = M->getGlobalVariable("llvm.global_ctors");
		if (!gc || !gc->hasInitializer()) return;
		auto *ca = dyn_cast<ConstantArray>(gc->getInitializer());
		if (!ca) return;
		for (unsigned i = 0; i < ca->getNumOperands(); i++) {
			auto *cs = cast<ConstantStruct>(ca->getOperand(i));
			auto *F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
			if (!F || F->isDeclaration()) continue;
			pushFrame(s0, F, {});
			while (!s0.fr.empty()) {
				Step r = step(s0);
				if (r == S_BRANCH) throw EngineError{"symbolic branch in a global constructor"};
				if (r == S_TERM) break;
			}
		}
	}
	void run(const string &entry)
	{
		StateP s(new State);
		initGlobals(*s);
		runCtors(*s);
		const Function *F = M->getFunction(entry);
		if (!F || F->isDeclaration()) throw EngineError{"no entry " + entry};
		pushFrame(*s, F, {});
		Done d;
		explore(std::move(s), MergePt(), d);
		settleDeferred();
	}
};

// ---------------------------------------------------------------- output
static string jesc(const string &s)
{
	string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

int main(int argc, char **argv)
{
	string mod, entry, outf;
	Engine e;
	double limit = 600;
	int samples = 0;
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		if (a == "-o") outf = argv[++i];
		else if (a == "--time") limit = atof(argv[++i]);
		else if (a == "--path-steps") e.maxPathSteps = strtoull(argv[++i], 0, 10);
		else if (a == "--query-time") e.sol.timeLimit = atof(argv[++i]);
		else if (a == "--seed") e.g.seed = strtoull(argv[++i], 0, 10) + 1;
		else if (a == "--max-viol") e.maxViol = atoi(argv[++i]);
		else if (a == "--no-merge") e.noMerge = true;
		else if (a == "--samples") samples = atoi(argv[++i]);
		else if (a == "--plain") e.g.plain = true;
		else if (a == "--audit") { e.g.maxEvents = atoi(argv[++i]); e.sol.auditTime = e.g.maxEvents / 8.0; }
		else if (a == "--dump") { e.sol.dumpDir = argv[++i]; e.sol.dumpMax = 50; }
		else if (a == "-v") e.verbose = true;
		else if (mod.empty()) mod = a;
		else entry = a;
	}
	SMDiagnostic err;
	e.M = parseIRFile(mod, err, e.ctx);
	if (!e.M) { err.print("gsym", errs()); return 3; }
	e.DL = &e.M->getDataLayout();
	double t0 = Solver::now();
	e.deadline = t0 + limit;
	e.sol.deadline = e.deadline;
	string status = "ok", emsg;
	try {
		e.run(entry);
	} catch (EngineError &x) {
		emsg = x.msg;
	} catch (PathError &x) {
		emsg = "error outside exploration: " + x.kind + " " + x.msg;
	} catch (std::bad_alloc &) {
		emsg = "out of memory";
	}
	if (emsg.empty()) emsg = e.incomplete;
	if (!e.viols.empty()) status = "violation";
	else if (!emsg.empty()) status = "incomplete";
	e.sol.audit();
	if (e.sol.auditFailed && status == "ok") { status = "incomplete"; emsg = "a rewriting step is not an equivalence"; }
	double t1 = Solver::now();

	FILE *f = outf.empty() ? stdout : fopen(outf.c_str(), "w");
	fprintf(f, "{\n \"entry\": %s,\n \"status\": %s,\n \"message\": %s,\n", jesc(entry).c_str(), jesc(status).c_str(), jesc(emsg).c_str());
	fprintf(f, " \"paths\": %lu, \"forks\": %lu, \"merges\": %lu, \"unmerged\": %lu, \"instructions\": %lu, \"longest_path\": %lu,\n", e.nPaths, e.nForks, e.nMerges, e.nMergeFail, e.nInstr, e.longest);
	fprintf(f, " \"assertions\": %lu, \"assertions_by_rewriting\": %lu,\n", e.nAsserts, e.nAssertsRewrite);
	fprintf(f, " \"queries\": %lu, \"q_rewrite\": %lu, \"q_witness\": %lu, \"q_modelcache\": %lu, \"q_z3_sat\": %lu, \"q_z3_unsat\": %lu, \"q_unknown\": %lu,\n",
		e.sol.qTotal, e.sol.qRewrite, e.sol.qWitness, e.sol.qModelCache, e.sol.qZ3Sat, e.sol.qZ3Unsat, e.sol.qUnknown);
	fprintf(f, " \"z3_s\": %.3f, \"wall_s\": %.3f, \"max_cone\": %lu, \"nodes\": %zu, \"and\": %lu, \"xor\": %lu, \"vars\": %u, \"sweeps\": %lu, \"sweep_merges\": %lu,\n",
		e.sol.z3Time, t1 - t0, e.sol.maxCone, e.g.nodes.size(), e.g.nAnd + e.g.nLut, e.g.nXor, e.g.nvars, e.sol.sweepRuns, e.sol.sweepMerges);
	fprintf(f, " \"rewrites\": %lu, \"audited\": %lu, \"audit_open\": %lu, \"audit_failed\": %lu,\n", e.g.nEvents, e.sol.audited, e.sol.auditOpen, e.sol.auditFailed);
	fprintf(f, " \"reached\": {");
	bool first = true;
	for (auto &kv : e.reached) { fprintf(f, "%s%s: %lu", first ? "" : ", ", jesc(kv.first).c_str(), kv.second); first = false; }
	fprintf(f, "},\n \"proved\": {");
	first = true;
	for (auto &kv : e.assertsProved) { fprintf(f, "%s%s: %lu", first ? "" : ", ", jesc(kv.first).c_str(), kv.second); first = false; }
	fprintf(f, "},\n \"functions\": [");
	first = true;
	for (auto &n : e.funcsRun) if (n.find("5goost") != string::npos && n.find("NSt") == string::npos && n.find("_ZSt") != 0 && n.find("_ZNKSt") != 0) {
		fprintf(f, "%s%s", first ? "" : ", ", jesc(demangle(n)).c_str()); first = false;
	}
	fprintf(f, "],\n \"functions_total\": %zu,\n \"inputs\": [", e.funcsRun.size());
	first = true;
	for (auto &in : e.inputs) if (!in.uninit) { fprintf(f, "%s{\"name\": %s, \"bytes\": %u}", first ? "" : ", ", jesc(in.name).c_str(), in.nbytes); first = false; }
	fprintf(f, "],\n \"violations\": [");
	auto dumpInputs = [&](const vector<uint8_t> &as) {
		fprintf(f, "{");
		bool fi = true;
		for (auto &in : e.inputs) {
			if (in.uninit) continue;
			string h;
			for (uint32_t b = 0; b < in.nbytes; b++) {
				int v = 0;
				for (int k = 0; k < 8; k++) { if (b * 8 + k >= in.vars.size()) break; uint32_t ix = in.vars[b * 8 + k]; if (ix < as.size() && as[ix]) v |= 1 << k; }
				char t[4]; snprintf(t, sizeof t, "%02x", v); h += t;
			}
			fprintf(f, "%s%s: \"%s\"", fi ? "" : ", ", jesc(in.name).c_str(), h.c_str());
			fi = false;
		}
		fprintf(f, "}");
	};
	auto dumpChoices = [&](const std::map<string, uint64_t> &c) {
		fprintf(f, "{");
		bool fi = true;
		for (auto &kv : c) { fprintf(f, "%s%s: %lu", fi ? "" : ", ", jesc(kv.first).c_str(), kv.second); fi = false; }
		fprintf(f, "}");
	};
	first = true;
	for (auto &v : e.viols) {
		fprintf(f, "%s\n  {\"kind\": %s, \"msg\": %s, \"loc\": %s, \"choices\": ", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str());
		dumpChoices(v.choices);
		fprintf(f, ", \"inputs\": ");
		dumpInputs(v.as);
		fprintf(f, "}");
		first = false;
	}
	fprintf(f, "],\n \"samples\": [");
	first = true;
	// concrete witnesses of explored paths, with the values the encoding predicts for gs_emit
	for (auto &p : e.pathRecs) {
		if (samples-- <= 0) break;
		vector<uint8_t> m;
		if (e.sol.check(p.pc, &m) != Solver::SAT) continue;
		m.resize(e.g.nvars, 0);
		fprintf(f, "%s\n  {\"choices\": ", first ? "" : ",");
		dumpChoices(p.choices);
		fprintf(f, ", \"inputs\": ");
		dumpInputs(m);
		fprintf(f, ", \"emits\": [");
		bool fi = true;
		for (auto &em : p.emits) {
			uint64_t v = em.second.c;
			if (em.second.bv) {
				vector<Lit> ls(e.bvs.get(em.second.bv), e.bvs.get(em.second.bv) + 64);
				std::unordered_map<uint32_t, uint8_t> val;
				e.sol.evalCone(ls, m, val);
				v = 0;
				for (int i = 0; i < 64; i++) v |= uint64_t(ls[i] < 2 ? ls[i] : (val[ls[i] >> 1] ^ (ls[i] & 1))) << i;
			}
			fprintf(f, "%s[%s, \"%016lx\"]", fi ? "" : ", ", jesc(em.first).c_str(), v);
			fi = false;
		}
		fprintf(f, "]}");
		first = false;
	}
	fprintf(f, "]\n}\n");
	if (!outf.empty()) fclose(f);
	return 0;
}
