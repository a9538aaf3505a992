// Symbolic executor of LLVM IR for the nntl harnesses.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
#include <map>
#include <set>
#include <deque>
#include <iostream>
#include <fstream>
#include <sstream>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;

static std::string esc(const std::string& s) {
	std::string o; for (char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if ((unsigned char)ch < 32 || (unsigned char)ch > 126) o += '?'; else o += ch; } return o;
}
// ------------------------------------------------------------------ memory
struct SB { Expr* e; uint8_t i; };
static Expr* const UNINIT = (Expr*)1;
enum OK_ { HEAP, STACK, GLOBAL_, CONSTG };
struct Obj {
	uint64_t base, size; OK_ kind; std::string name;
	std::vector<uint8_t> c; std::vector<SB> s;
	// happens-before bookkeeping for race detection: per byte last writer/reader thread epochs
	std::vector<uint32_t> wr, rd; 
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame {
	Function* f; std::vector<Val> regs; BasicBlock* bb; BasicBlock* prev; BasicBlock::iterator it;
	std::vector<uint64_t> allocas; Instruction* call = nullptr; // call site in the caller
	std::vector<Val> va;
};
enum TS { RUN, BLK_EX, BLK_SH, BLK_CV, BLK_JOIN, BLK_SPIN, DONE };
struct Thread { std::vector<Frame> st; TS ts = RUN; uint64_t waitA = 0, waitB = 0; unsigned waitSh = 0; bool timed = false, timedOut = false; uint64_t waitSeq = 0; std::vector<uint32_t> vc; };
struct Lock { int ex = -1; int sh = 0; std::vector<uint32_t> vcW, vcR; };
struct InRec { std::string name; char kind; Expr* e; uint64_t c; unsigned w; };

struct State {
	std::map<uint64_t, ObjP> mem;
	std::vector<Expr*> pc;
	std::vector<Thread> th; int cur = 0;
	std::unordered_map<Expr*, uint64_t> known;
	std::map<uint64_t, Lock> locks;
	std::map<uint64_t, std::vector<uint32_t>> cvvc;
	uint64_t nextAddr = 0x100000;
	std::vector<InRec> ins;
	std::map<std::string, int> occ;
	std::vector<int> sched; int preempt = 0;
	uint64_t steps = 0, timeouts = 0, waitSeq = 0; bool mallocMayFail = false; int mallocFails = 0; bool raceCheck = false; bool schedFork = false; int maxPreempt = 2;
	uint64_t uninitN = 0; uint64_t liveHeap = 0;
	bool finished = false;
	unsigned long id = 0;
};
typedef std::unique_ptr<State> SP;

struct Stop { int k; }; // 0: path ended, 1: forked (state re-queued)

struct FInfo { DenseMap<const Value*, unsigned> slot; unsigned n = 0; };

struct Engine {
	LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL;
	Solver S;
	std::vector<SP> work;
	DenseMap<Function*, FInfo*> finfo;
	std::map<std::string, Expr*> symByKey;
	DenseMap<const GlobalValue*, uint64_t> gaddr; std::map<uint64_t, Function*> faddr;
	std::map<uint64_t, ObjP> globals; uint64_t gnext = 0x10000000000ull, fnext = 0x7000000;
	std::set<Function*> executed;
	// results
	uint64_t paths = 0, pathsDone = 0, instrs = 0, forks = 0, pathsInfeasible = 0; bool incomplete = false; std::string incompleteWhy;
	std::map<std::string, uint64_t> proved, undecided; std::map<std::string, uint64_t> reached; std::set<std::string> unsupported;
	struct Vio { std::string kind, label, where; std::vector<std::pair<InRec, std::string>> ins; std::vector<int> sched; };
	std::vector<Vio> vios; std::set<std::string> vioKeys;
	double maxTime = 300; uint64_t maxSteps = 3000000, maxPaths = 200000; unsigned toBranch = 5000, toAssert = 60000;
	std::chrono::steady_clock::time_point t0;
	std::string entry; bool trace = false;
	State* cs = nullptr; // current
	SP csOwner;

	double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
	static bool fpT(Type* t) { return t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty(); } // long double (std library internals only) is computed as double
	unsigned bw(Type* t) {
		if (t->isIntegerTy()) return t->getIntegerBitWidth();
		if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy() || t->isX86_FP80Ty()) return 64;
		unsup("type");
		return 0;
	}
	[[noreturn]] void unsup(const std::string& w) {
		std::string s = w + " at " + where(); unsupported.insert(s); throw Stop{ 0 };
	}
	std::string where() {
		std::string o; if (!cs) return o;
		auto& st = cs->th[cs->cur].st; int n = 0;
		for (int i = (int)st.size() - 1; i >= 0 && n < 8; --i, ++n) {
			Frame& f = st[i]; 
			Instruction* I = i == (int)st.size() - 1 ? (f.it != f.bb->end() ? &*f.it : nullptr) : st[i + 1].call;
			std::string nm = demangle(f.f->getName().str()); if (nm.size() > 110) nm = nm.substr(0, 110) + "..";
			o += nm;
			if (I && I->getDebugLoc()) { auto* L = I->getDebugLoc().get(); std::string fn = L->getFilename().str(); auto p = fn.rfind("/nntl/"); if (p != std::string::npos) fn = fn.substr(p + 1); else { p = fn.rfind('/'); if (p != std::string::npos) fn = fn.substr(p + 1); } o += "@" + fn + ":" + std::to_string(L->getLine()); }
			if (i) o += " < ";
		}
		return o;
	}
	// ---------------- solver helpers
	bool mustSimple(Expr* e, bool& v) {
		if (e->op == CONST) { v = e->c; return true; }
		auto it = cs->known.find(e); if (it != cs->known.end()) { v = it->second; return true; }
		if (e->op == XOR && e->w == 1 && e->k[1]->op == CONST) { it = cs->known.find(e->k[0]); if (it != cs->known.end()) { v = !it->second; return true; } }
		return false;
	}
	SR sat(Expr* e, unsigned to, Model* m = nullptr) {
		if (e->op == CONST && !e->c) return UNSAT_;
		std::vector<Expr*> q = m ? cs->pc : Solver::slice(cs->pc, e);
		q.push_back(e); return S.check(q, to, m);
	}
	void assume(Expr* e) {
		if (e->op == CONST) return;
		if (e->op == AND && e->w == 1) { assume(e->k[0]); assume(e->k[1]); return; }
		cs->pc.push_back(e); learn(e, 1);
	}
	void learn(Expr* e, uint64_t v) {
		if (e->w == 1) { if (e->op == XOR && e->k[1]->op == CONST) { learn(e->k[0], v ^ e->k[1]->c); return; } cs->known[e] = v;
			if (v && e->op == EQ && e->k[1]->op == CONST) cs->known[e->k[0]] = e->k[1]->c;
			if (v && e->op == AND) { learn(e->k[0], 1); learn(e->k[1], 1); }
			if (!v && e->op == OR) { learn(e->k[0], 0); learn(e->k[1], 0); } }
	}
	SP clone() { SP n(new State(*cs)); n->id = ++forks; return n; }
	// decide a boolean in the current state, forking when both are possible.
	// returns the decision for the current state; the other one is queued after fix(other)
	template<class Fx> bool decide(Expr* c, Fx fix) {
		bool v; if (mustSimple(c, v)) return v;
		SR t = sat(c, toBranch);
		if (t == UNSAT_) { learn(c, 0); return false; }
		SR f = sat(eNot(c), toBranch);
		if (f == UNSAT_) { learn(c, 1); return true; }
		SP o = clone();
		State* me = cs; cs = o.get(); assume(eNot(c)); fix(*o); cs = me;
		work.push_back(std::move(o));
		assume(c); return true;
	}
	// value must become concrete: fork over every feasible value (re-executing the instruction)
	uint64_t concretize(const Val& v, unsigned w, const char* what, unsigned limit = 256) {
		if (!v.e) return v.c;
		auto it = cs->known.find(v.e); if (it != cs->known.end()) return it->second;
		std::vector<uint64_t> vals; Expr* excl = mkConst(1, 1);
		for (;;) {
			Model m; std::vector<Expr*> q = Solver::slice(cs->pc, v.e); q.push_back(excl);
			// a fresh symbol stands for the value to be read off the model
			Expr* probe = mkSym("probe", w, false, false); q.push_back(eEq(probe, v.e));
			SR r = S.check(q, toBranch, &m);
			if (r == UNSAT_) break;
			if (r == UNK_) unsup(std::string("solver gave up concretizing ") + what);
			uint64_t x = m.bits[(uint32_t)probe->c]; vals.push_back(x);
			excl = eAnd(excl, eNot(eEq(v.e, mkConst(w, x))));
			if (vals.size() > limit) unsup(std::string("too many values for ") + what);
		}
		if (vals.empty()) { ++pathsInfeasible; throw Stop{ 0 }; }
		std::sort(vals.begin(), vals.end());
		for (size_t i = 1; i < vals.size(); ++i) {
			SP o = clone(); State* me = cs; cs = o.get(); assume(eEq(v.e, mkConst(w, vals[i]))); cs->known[v.e] = vals[i]; cs = me;
			work.push_back(std::move(o));
		}
		assume(eEq(v.e, mkConst(w, vals[0]))); cs->known[v.e] = vals[0];
		return vals[0];
	}
	// ---------------- violations
	static void margins(Expr* e, bool pos, std::vector<Expr*>& out) {
		if (e->op == XOR && e->w == 1 && e->k[1]->op == CONST) return margins(e->k[0], !pos, out);
		if (e->w == 1 && ((e->op == AND && pos) || (e->op == OR && !pos))) { margins(e->k[0], pos, out); margins(e->k[1], pos, out); return; }
		if (e->op == FLT || e->op == FLE) { Expr *a = e->k[pos ? 0 : 1], *b = e->k[pos ? 1 : 0]; out.push_back(eFCmp(FLE, eF2(FADD, a, mkFConst(a->w, d2bits(1. / 4096, a->w))), b)); }
	}
	void violation(const std::string& kind, const std::string& label, Expr* cond /*condition of failing, or null*/) {
		std::string wh = where(); std::string key = kind + "|" + label + "|" + (kind == "assert" ? "" : wh.substr(0, wh.find(" < ")));
		if (vioKeys.count(key)) return;
		Model m; std::vector<Expr*> q = cs->pc; if (cond) q.push_back(cond);
		// in real arithmetic ask for readable, clearly different numbers first
		SR r = UNK_;
		if (g_real) {
			std::vector<Expr*> q2 = q;
			for (auto& in : cs->ins) if (in.e && in.e->isfp) { Expr* lim = mkFConst(in.e->w, d2bits(8, in.e->w)); q2.push_back(eFCmp(FLE, in.e, lim)); q2.push_back(eFCmp(FLE, eF1(FNEG, lim), in.e)); }
			// and values that do not sit on the edge of a condition, where rounding would put them on the other side in the replay
			std::vector<Expr*> q3 = q2; for (auto e : q) margins(e, true, q3);
			if (q3.size() > q2.size()) { r = S.check(q3, toBranch, &m); if (r != SAT_) m = Model(); }
			if (r != SAT_) r = S.check(q2, toBranch * 2, &m);
			if (r != SAT_) m = Model();
		}
		if (r != SAT_) r = S.check(q, toAssert, &m);
		if (r != SAT_) { undecided[kind + ":" + label + (kind == "assert" ? "" : " " + wh)]++; return; }
		vioKeys.insert(key);
		Vio v; v.kind = kind; v.label = label; v.where = wh; v.sched = cs->sched;
		for (auto& in : cs->ins) {
			std::string t;
			if (!in.e) { std::ostringstream os; os << "0x" << std::hex << in.c; t = os.str(); }
			else {
				uint32_t id = (uint32_t)in.e->c;
				if (in.e->isfp && g_real) { auto it = m.vals.find(id); t = it == m.vals.end() ? "0.5" : it->second; }
				else { auto it = m.bits.find(id); std::ostringstream os; os << "0x" << std::hex << (it == m.bits.end() ? 0 : it->second); t = os.str(); }
			}
			v.ins.push_back({ in, t });
		}
		vios.push_back(std::move(v));
	}
	// an error that happens on this path for sure
	[[noreturn]] void fail(const std::string& kind, const std::string& label) { violation(kind, label, nullptr); throw Stop{ 0 }; }
	// cond must hold; otherwise report, and go on under cond
	void require(Expr* cond, const std::string& kind, const std::string& label) {
		bool v; 
		if (cond->op == CONST) { if (cond->c) { proved[label]++; return; } fail(kind, label); }
		if (mustSimple(cond, v) && v) { proved[label]++; return; }
		SR r = sat(eNot(cond), toAssert);
		if (r == UNSAT_) { proved[label]++; learn(cond, 1); return; }
		if (r == UNK_) { undecided[kind + ":" + label]++; assume(cond); return; }
		violation(kind, label, eNot(cond));
		SR r2 = sat(cond, toBranch);
		if (r2 == UNSAT_) throw Stop{ 0 };
		assume(cond);
	}
	// ---------------- memory
	ObjP newObj(uint64_t size, OK_ kind, const std::string& nm, unsigned align = 16, bool uninit = true) {
		auto o = std::make_shared<Obj>(); if (align < 16) align = 16;
		cs->nextAddr = (cs->nextAddr + align - 1) / align * align;
		o->base = cs->nextAddr; o->size = size; o->kind = kind; o->name = nm; o->c.assign(size, 0);
		if (uninit) o->s.assign(size, SB{ UNINIT, 0 });
		cs->nextAddr += size + 64;
		cs->mem[o->base] = o; return o;
	}
	Obj* find(uint64_t a) {
		auto it = cs->mem.upper_bound(a);
		if (it != cs->mem.begin()) { --it; Obj* o = it->second.get(); if (a - o->base < o->size || (o->size == 0 && a == o->base)) return o; }
		auto g = globals.upper_bound(a);
		if (g != globals.begin()) { --g; Obj* o = g->second.get(); if (a - o->base < o->size) return o; }
		return nullptr;
	}
	Obj* writable(Obj* o) {
		auto it = cs->mem.find(o->base);
		if (it == cs->mem.end()) { // global: first write copies it into the state
			auto g = globals.find(o->base); auto n = std::make_shared<Obj>(*g->second); cs->mem[n->base] = n; return n.get();
		}
		if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
		return it->second.get();
	}
	Obj* checkAcc(uint64_t a, uint64_t n, bool wr) {
		Obj* o = find(a);
		if (!o || a + n > o->base + o->size) {
			std::ostringstream os; os << (wr ? "write of " : "read of ") << n << " bytes"; if (a < 4096) os << " through null pointer"; else if (!o) os << " outside any live object"; else os << " past the end of " << (o->kind == HEAP ? "heap block" : o->name) << " of " << o->size << " bytes";
			fail("memory", os.str());
		}
		if (wr && o->kind == CONSTG) fail("memory", "write to constant " + o->name);
		return o;
	}
	void race(Obj* o, uint64_t off, uint64_t n, bool wr) {
		if (!cs->raceCheck || cs->th.size() < 2 || o->kind == STACK && false) return;
		Obj* w = writable(o); Thread& t = cs->th[cs->cur];
		if (w->wr.size() != w->size) { w->wr.assign(w->size, 0); w->rd.assign(w->size, 0); }
		auto ordered = [&](uint32_t ep) { if (!ep) return true; unsigned tid = ep >> 24; uint32_t k = ep & 0xffffff; return (int)tid == cs->cur || (tid < t.vc.size() && t.vc[tid] >= k); };
		uint32_t me = ((uint32_t)cs->cur << 24) | (t.vc.size() > (size_t)cs->cur ? t.vc[cs->cur] : 0);
		for (uint64_t i = off; i < off + n; ++i) {
			if (!ordered(w->wr[i]) || (wr && !ordered(w->rd[i]))) fail("race", std::string("data race on ") + (o->kind == HEAP ? "heap block" : o->name));
			if (wr) w->wr[i] = me; else w->rd[i] = me;
		}
	}
	Val loadC(uint64_t a, Type* t, bool atomic = false) {
		uint64_t n = DL->getTypeStoreSize(t);
		Obj* o = checkAcc(a, n, false); uint64_t off = a - o->base;
		if (!atomic) race(o, off, n, false), o = find(a);
		unsigned w = bw(t); bool fp = fpT(t);
		if (o->s.empty()) { uint64_t v = 0; if (n > 8) unsup("wide load"); memcpy(&v, &o->c[off], n); return Val(v & maskw(w)); }
		bool allc = true, allu = true; Expr* e0 = o->s[off].e; bool whole = true;
		for (uint64_t i = 0; i < n; ++i) { SB& b = o->s[off + i]; if (b.e) allc = false; if (b.e != UNINIT) allu = false; if (b.e != e0 || b.i != i) whole = false; }
		if (n > 8) unsup("wide load");
		if (allc) { uint64_t v = 0; memcpy(&v, &o->c[off], n); return Val(v & maskw(w)); }
		if (allu) {
			Expr* s = mkSymK("uninit" + std::to_string(cs->uninitN++), (unsigned)n * 8, fp, false);
			o = writable(o); for (uint64_t i = 0; i < n; ++i) o->s[off + i] = SB{ s, (uint8_t)i };
			return conv(s, w, fp);
		}
		if (whole && e0 != UNINIT && e0->w == n * 8) return conv(e0, w, fp);
		// bytewise
		Expr* acc = nullptr;
		for (uint64_t i = 0; i < n; ++i) {
			SB b = o->s[off + i]; Expr* x;
			if (!b.e) x = mkConst(8, o->c[off + i]);
			else if (b.e == UNINIT) { x = mkSymK("uninit" + std::to_string(cs->uninitN++), 8, false, false); o = writable(o); o->s[off + i] = SB{ x, 0 }; }
			else { Expr* src = b.e->isfp ? eFBits(b.e) : b.e; x = eExtract(src, b.i * 8u, 8); }
			acc = acc ? eConcat(x, acc) : x;
		}
		return conv(acc, w, fp);
	}
	Expr* mkSymK(const std::string& key, unsigned w, bool fp, bool input) {
		std::string k = key + "/" + std::to_string(w) + (fp ? "f" : "i");
		auto it = symByKey.find(k); if (it != symByKey.end()) return it->second;
		Expr* e = mkSym(key, w, fp, input); symByKey[k] = e; return e;
	}
	Val conv(Expr* e, unsigned w, bool fp) {
		if (fp && !e->isfp) e = eBitsF(e); else if (!fp && e->isfp) e = eFBits(e);
		if (!fp && e->w > w) e = eExtract(e, 0, w);
		return Val(e);
	}
	void storeC(uint64_t a, const Val& v, Type* t, bool atomic = false) {
		uint64_t n = DL->getTypeStoreSize(t); unsigned w = bw(t);
		if (n > 8) unsup("wide store");
		Obj* o = checkAcc(a, n, true); uint64_t off = a - o->base;
		if (!atomic) race(o, off, n, true);
		o = writable(o);
		if (!v.e) { uint64_t x = v.c & maskw(w); memcpy(&o->c[off], &x, n); if (!o->s.empty()) for (uint64_t i = 0; i < n; ++i) o->s[off + i] = SB{ nullptr, 0 }; return; }
		Expr* e = v.e; if (e->w < n * 8) e = eZext(e, (unsigned)n * 8);
		if (o->s.empty()) o->s.assign(o->size, SB{ nullptr, 0 });
		for (uint64_t i = 0; i < n; ++i) o->s[off + i] = SB{ e, (uint8_t)i };
	}
	Val undefV(Type* t) {
		if (t->isAggregateType() || t->isVectorTy()) {
			Val v; v.agg = std::make_shared<std::vector<Val>>();
			unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
			for (unsigned i = 0; i < n; ++i) v.agg->push_back(undefV(elemT(t, i))); return v;
		}
		return Val((uint64_t)0);
	}
	Type* elemT(Type* t, unsigned i) { return t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); }
	uint64_t elemOff(Type* t, unsigned i) { return t->isStructTy() ? DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(elemT(t, i)); }
	unsigned nElems(Type* t) { return t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); }
	Val load(const Val& a, Type* t, bool at = false) {
		if (t->isAggregateType() || t->isVectorTy()) {
			uint64_t b = concretize(a, 64, "aggregate address"); Val v; v.agg = std::make_shared<std::vector<Val>>();
			for (unsigned i = 0; i < nElems(t); ++i) v.agg->push_back(load(Val(b + elemOff(t, i)), elemT(t, i))); return v;
		}
		if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
			unsigned w = t->getIntegerBitWidth(); uint64_t b = concretize(a, 64, "address"); Expr* acc = nullptr; 
			for (unsigned o = 0; o < w; o += 64) { unsigned k = std::min(64u, w - o); Val x = loadC(b + o / 8, IntegerType::get(ctx, k)); Expr* e = toE(x, k); acc = acc ? mk(CONCAT, o + k, false, e, acc) : e; }
			Val r; r.e = acc; return r;
		}
		if (!a.e) return loadC(a.c, t, at);
		uint64_t n = DL->getTypeStoreSize(t); Obj* o; uint64_t step; resolve(a, n, o, step, false);
		unsigned w = bw(t); bool fp = fpT(t); Expr* acc = nullptr;
		uint64_t b = o->base, sz = o->size;
		for (uint64_t off = (sz >= n ? (sz - n) / step * step : 0) + step; off-- > 0;) {
			if (off % step) continue; if (off + n > sz) continue;
			Val x = loadC(b + off, t); Expr* xe = fp ? toF(x, w) : toE(x, w);
			acc = acc ? eIte(eEq(a.e, mkConst(64, b + off)), xe, acc) : xe;
		}
		return Val(acc);
	}
	void store(const Val& a, const Val& v, Type* t, bool at = false) {
		if (t->isAggregateType() || t->isVectorTy()) {
			uint64_t b = concretize(a, 64, "aggregate address");
			for (unsigned i = 0; i < nElems(t); ++i) store(Val(b + elemOff(t, i)), v.agg ? (*v.agg)[i] : Val((uint64_t)0), elemT(t, i)); return;
		}
		if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
			unsigned w = t->getIntegerBitWidth(); uint64_t b = concretize(a, 64, "address"); if (!v.e) { for (unsigned o = 0; o < w; o += 64) { unsigned k = std::min(64u, w - o); storeC(b + o / 8, Val(o ? (uint64_t)0 : v.c), IntegerType::get(ctx, k)); } return; }
			for (unsigned o = 0; o < w; o += 64) { unsigned k = std::min(64u, w - o); storeC(b + o / 8, Val(eExtract(v.e, o, k)), IntegerType::get(ctx, k)); } return;
		}
		if (!a.e) { storeC(a.c, v, t, at); return; }
		uint64_t n = DL->getTypeStoreSize(t); Obj* o; uint64_t step; resolve(a, n, o, step, true);
		unsigned w = bw(t); bool fp = fpT(t); uint64_t b = o->base, sz = o->size;
		for (uint64_t off = 0; off + n <= sz; off += step) {
			Val old = loadC(b + off, t);
			Expr* nv = eIte(eEq(a.e, mkConst(64, b + off)), fp ? toF(v, w) : toE(v, w), fp ? toF(old, w) : toE(old, w));
			storeC(b + off, Val(nv), t);
		}
	}
	// symbolic address: find the object it lies in (forking when several), prove it in bounds
	void resolve(const Val& a, uint64_t n, Obj*& o, uint64_t& step, bool wr) {
		for (int round = 0;; ++round) {
			Model m; std::vector<Expr*> q = Solver::slice(cs->pc, a.e); Expr* probe = mkSym("probe", 64, false, false); q.push_back(eEq(probe, a.e));
			SR r = S.check(q, toBranch, &m);
			if (r == UNSAT_) { ++pathsInfeasible; throw Stop{ 0 }; }
			if (r == UNK_) unsup("solver gave up on an address");
			uint64_t x = m.bits[(uint32_t)probe->c]; o = find(x);
			if (!o || x + n > o->base + o->size) {
				violation("memory", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds" + (o && o->kind != HEAP ? " of " + o->name : ""), eEq(a.e, mkConst(64, x)));
				// go on inside some object if possible
				Expr* inb = mkConst(1, 0);
				for (auto& kv : cs->mem) { Obj* p = kv.second.get(); if (p->size >= n) inb = eOr(inb, eBin(ULE, eBin(SUB, a.e, mkConst(64, p->base)), mkConst(64, p->size - n))); }
				for (auto& kv : globals) { Obj* p = kv.second.get(); if (p->size >= n && p->base != 0) inb = eOr(inb, eBin(ULE, eBin(SUB, a.e, mkConst(64, p->base)), mkConst(64, p->size - n))); }
				if (round > 2 || sat(inb, toBranch) != SAT_) throw Stop{ 0 };
				assume(inb); continue;
			}
			Expr* in = eBin(ULE, eBin(SUB, a.e, mkConst(64, o->base)), mkConst(64, o->size - n));
			bool v; if (!mustSimple(in, v) || !v) {
				SR out = sat(eNot(in), toBranch);
				if (out == SAT_ || out == UNK_) { SP c = clone(); State* me = cs; cs = c.get(); assume(eNot(in)); cs = me; work.push_back(std::move(c)); assume(in); }
				else learn(in, 1);
			}
			step = 1;
			if (n > 1 && o->base % n == 0 && o->size >= n) {
				Expr* al = eEq(eBin(UREM, eBin(SUB, a.e, mkConst(64, o->base)), mkConst(64, n)), mkConst(64, 0));
				if (al->op == CONST ? al->c != 0 : sat(eNot(al), toBranch) == UNSAT_) step = n;
			}
			if (o->size / step > 512) { uint64_t c = concretize(a, 64, "address"); o = find(c); if (!o) throw Stop{ 0 }; }
			return;
		}
	}
	void copyMem(uint64_t d, uint64_t s, uint64_t n) {
		if (!n) return;
		Obj* so = checkAcc(s, n, false); race(so, s - so->base, n, false); so = find(s);
		Obj* d0 = checkAcc(d, n, true); race(d0, d - d0->base, n, true);
		Obj* dd = writable(find(d)); so = find(s);
		uint64_t sof = s - so->base, dof = d - dd->base;
		std::vector<uint8_t> tc(so->c.begin() + sof, so->c.begin() + sof + n); std::vector<SB> ts;
		if (!so->s.empty()) ts.assign(so->s.begin() + sof, so->s.begin() + sof + n);
		std::copy(tc.begin(), tc.end(), dd->c.begin() + dof);
		if (!ts.empty()) { if (dd->s.empty()) dd->s.assign(dd->size, SB{ nullptr, 0 }); std::copy(ts.begin(), ts.end(), dd->s.begin() + dof); }
		else if (!dd->s.empty()) std::fill(dd->s.begin() + dof, dd->s.begin() + dof + n, SB{ nullptr, 0 });
	}
	void setMem(uint64_t d, const Val& v, uint64_t n) {
		if (!n) return; Obj* o0 = checkAcc(d, n, true); race(o0, d - o0->base, n, true); Obj* o = writable(find(d)); uint64_t off = d - o->base;
		if (!v.e) { memset(&o->c[off], (int)v.c, n); if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + n, SB{ nullptr, 0 }); }
		else { if (o->s.empty()) o->s.assign(o->size, SB{ nullptr, 0 }); for (uint64_t i = 0; i < n; ++i) o->s[off + i] = SB{ v.e, 0 }; }
	}
	std::string cstr(uint64_t a) { std::string s; for (;; ++a) { Obj* o = find(a); if (!o || a >= o->base + o->size) break; char ch = (char)o->c[a - o->base]; if (!ch) break; s += ch; } return s; }
	// ---------------- constants and globals
	uint64_t addrOf(const GlobalValue* g) {
		auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
		if (auto* al = dyn_cast<GlobalAlias>(g)) { uint64_t a = addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts())); gaddr[g] = a; return a; }
		if (auto* f = dyn_cast<Function>(g)) { fnext += 16; gaddr[g] = fnext; faddr[fnext] = const_cast<Function*>(f); return fnext; }
		auto* v = cast<GlobalVariable>(g);
		uint64_t sz = DL->getTypeAllocSize(v->getValueType()); if (v->isDeclaration() && sz < 512) sz = 512;
		uint64_t al = v->getAlign() ? v->getAlign()->value() : 16; if (al < 16) al = 16;
		gnext = (gnext + al - 1) / al * al;
		auto o = std::make_shared<Obj>(); o->base = gnext; o->size = sz; o->kind = v->isConstant() ? CONSTG : GLOBAL_; o->name = demangle(v->getName().str()); o->c.assign(sz, 0);
		gaddr[g] = o->base; gnext += sz + 64; globals[o->base] = o;
		if (v->hasInitializer()) initG(o.get(), 0, v->getInitializer());
		return o->base;
	}
	void initG(Obj* o, uint64_t off, const Constant* c) {
		Type* t = c->getType();
		if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
		if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(&o->c[off], r.data(), r.size()); return; }
		if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); ++i) initG(o, off + elemOff(t, i), cast<Constant>(c->getOperand(i))); return; }
		Val v = constV(c); uint64_t n = DL->getTypeStoreSize(t); memcpy(&o->c[off], &v.c, std::min<uint64_t>(n, 8));
	}
	Val constV(const Constant* c) {
		Type* t = c->getType();
		if (auto* ci = dyn_cast<ConstantInt>(c)) {
			if (ci->getBitWidth() > 64) { const APInt& a = ci->getValue(); if (a.getActiveBits() <= 64) { Val r; r.e = mk(ZEXT, ci->getBitWidth(), false, mkConst(64, a.getZExtValue())); return r; } unsup("wide constant"); }
			return Val(ci->getZExtValue());
		}
		if (auto* cf = dyn_cast<ConstantFP>(c)) { if (!fpT(t)) unsup("fp type"); if (t->isX86_FP80Ty()) { APFloat v = cf->getValueAPF(); bool lost; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost); return Val(v.bitcastToAPInt().getZExtValue()); } return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
		if (isa<ConstantPointerNull>(c)) return Val((uint64_t)0);
		if (isa<UndefValue>(c)) return undefV(t);
		if (auto* g = dyn_cast<GlobalValue>(c)) return Val(addrOf(g));
		if (isa<ConstantAggregateZero>(c)) return undefV(t);
		if (isa<ConstantAggregate>(c)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < c->getNumOperands(); ++i) v.agg->push_back(constV(cast<Constant>(c->getOperand(i)))); return v; }
		if (auto* d = dyn_cast<ConstantDataSequential>(c)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < d->getNumElements(); ++i) v.agg->push_back(constV(d->getElementAsConstant(i))); return v; }
		if (auto* ce = dyn_cast<ConstantExpr>(c)) {
			switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); Val b = constV(cast<Constant>(g->getPointerOperand())); if (!g->accumulateConstantOffset(*DL, off)) unsup("constant gep"); return Val(b.c + off.getSExtValue()); }
			case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = constV(ce->getOperand(0)); if (t->isIntegerTy()) v.c &= maskw(bw(t)); return v; }
			case Instruction::Sub: return Val((constV(ce->getOperand(0)).c - constV(ce->getOperand(1)).c) & maskw(bw(t)));
			case Instruction::Add: return Val((constV(ce->getOperand(0)).c + constV(ce->getOperand(1)).c) & maskw(bw(t)));
			case Instruction::Trunc: return Val(constV(ce->getOperand(0)).c & maskw(bw(t)));
			default: unsup("constant expression");
			}
		}
		unsup("constant");
	}
	FInfo* fi(Function* f) {
		auto*& p = finfo[f]; if (p) return p; p = new FInfo();
		for (auto& a : f->args()) p->slot[&a] = p->n++;
		for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
		return p;
	}
	Val get(Frame& f, const Value* v) {
		if (auto* c = dyn_cast<Constant>(v)) return constV(c);
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return Val();
		Val r = f.regs[fi(f.f)->slot.lookup(v)];
		if (r.e) { auto it = cs->known.find(r.e); if (it != cs->known.end() && !r.e->isfp) return Val(it->second); }
		return r;
	}
	void set(Frame& f, const Value* i, Val v) { f.regs[fi(f.f)->slot.lookup(i)] = std::move(v); }
	// ---------------- frames
	void pushFrame(Thread& t, Function* f, std::vector<Val>&& args, Instruction* call) {
		if (t.st.size() > 400) fail("stack", "call depth over 400");
		Frame fr; fr.f = f; fr.regs.resize(fi(f)->n); fr.bb = &f->getEntryBlock(); fr.prev = nullptr; fr.it = fr.bb->begin(); fr.call = call;
		unsigned i = 0; for (auto& a : f->args()) { Val v = i < args.size() ? args[i] : Val(); if (a.hasByValAttr()) {
				Type* ty = a.getParamByValType(); uint64_t n = DL->getTypeAllocSize(ty); auto o = newObj(n, STACK, "byval"); copyMem(o->base, concretize(v, 64, "byval"), n); v = Val(o->base); fr.allocas.push_back(o->base); }
			fr.regs[fi(f)->slot.lookup(&a)] = v; ++i; }
		for (; i < args.size(); ++i) fr.va.push_back(args[i]);
		executed.insert(f); t.st.push_back(std::move(fr));
	}
	void jump(Frame& f, BasicBlock* to) {
		// evaluate phis together
		BasicBlock* from = f.bb; std::vector<std::pair<PHINode*, Val>> ph;
		for (auto& p : to->phis()) ph.push_back({ &p, get(f, p.getIncomingValueForBlock(from)) });
		f.prev = from; f.bb = to; f.it = to->getFirstNonPHIIt();
		for (auto& x : ph) set(f, x.first, x.second);
	}
#include "exec.inc"
#include "externs.inc"
	// ---------------- driver
	void runState(SP s) {
		csOwner = std::move(s); cs = csOwner.get();
		try {
			while (!cs->finished) {
				if (++cs->steps > maxSteps) {
					// a loop that does not end within the bound
					fail("nontermination", "path longer than " + std::to_string(maxSteps) + " instructions");
				}
				++instrs;
				if ((instrs & 0xffff) == 0 && elapsed() > maxTime) { incomplete = true; incompleteWhy = "time limit"; throw Stop{ 0 }; }
				step();
			}
			++pathsDone;
		} catch (Stop& st) {}
		cs = nullptr; csOwner.reset(); ++paths;
	}
	int run(const std::string& bc, const std::string& ent, const std::string& out) {
		t0 = std::chrono::steady_clock::now(); entry = ent; S.deadline = std::chrono::duration<double>(t0.time_since_epoch()).count() + maxTime + 15;
		SMDiagnostic err; M = parseIRFile(bc, err, ctx);
		if (!M) { err.print("nsym", errs()); return 3; }
		DL = &M->getDataLayout();
		Function* f = M->getFunction(ent);
		if (!f) { std::cerr << "no entry " << ent << "\n"; return 3; }
		SP s(new State()); s->th.emplace_back(); cs = s.get(); s->th[0].vc = { 1 };
		// constructors of globals run first (they must be deterministic)
		std::vector<Function*> order;
		if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) {
			std::vector<std::pair<uint64_t, Function*>> v;
			for (auto& o : a->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* cf = dyn_cast<Function>(st->getOperand(1))) v.push_back({ cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cf }); }
			std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
			for (auto& x : v) order.push_back(x.second);
		}
		try {
			pushFrame(s->th[0], f, {}, nullptr);
			for (auto it = order.rbegin(); it != order.rend(); ++it) pushFrame(s->th[0], *it, {}, nullptr);
		} catch (Stop&) {}
		cs = nullptr; work.push_back(std::move(s));
		while (!work.empty()) {
			if (elapsed() > maxTime) { incomplete = true; incompleteWhy = "time limit"; break; }
			if (paths > maxPaths) { incomplete = true; incompleteWhy = "path limit"; break; }
			SP n = std::move(work.back()); work.pop_back(); runState(std::move(n));
		}
		report(out); return 0;
	}
	void report(const std::string& out) {
		std::ofstream o(out); auto q = [](const std::string& s) { return "\"" + esc(s) + "\""; };
		o << "{\n\"entry\":" << q(entry) << ",\n\"mode\":" << q(g_real ? "real" : "ieee") << ",\n\"paths\":" << paths << ",\"paths_completed\":" << pathsDone << ",\"paths_infeasible\":" << pathsInfeasible << ",\"forks\":" << forks << ",\"instructions\":" << instrs
			<< ",\n\"queries\":" << S.nq << ",\"queries_unsat\":" << S.nunsat << ",\"queries_sat\":" << S.nsat << ",\"queries_unknown\":" << S.nunk << ",\"queries_cached\":" << S.ncached << ",\"solver_s\":" << S.secs << ",\"wall_s\":" << elapsed()
			<< ",\n\"incomplete\":" << (incomplete ? "true" : "false") << ",\"incomplete_why\":" << q(incompleteWhy);
		auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) { o << ",\n\"" << n << "\":{"; bool f = true; for (auto& kv : m) { o << (f ? "" : ",") << q(kv.first) << ":" << kv.second; f = false; } o << "}"; };
		mp("asserts_proved", proved); mp("asserts_undecided", undecided); mp("reached", reached);
		o << ",\n\"unsupported\":["; bool ff = true; for (auto& u : unsupported) { o << (ff ? "" : ",") << q(u); ff = false; } o << "]";
		o << ",\n\"functions\":["; ff = true;
		for (auto* f : executed) { auto* sp = f->getSubprogram(); if (!sp) continue; std::string fn = sp->getFilename().str(); auto p = fn.rfind("/nntl/"); if (p == std::string::npos) continue; 
			std::string nm = sp->getName().str(); std::string dm = demangle(f->getName().str()); auto par = dm.find('('); (void)par;
			o << (ff ? "" : ",") << q(fn.substr(p + 1) + ":" + std::to_string(sp->getLine()) + " " + nm); ff = false; }
		o << "],\n\"violations\":["; ff = true;
		for (auto& v : vios) {
			o << (ff ? "" : ",") << "\n{\"kind\":" << q(v.kind) << ",\"label\":" << q(v.label) << ",\"where\":" << q(v.where) << ",\"sched\":["; ff = false;
			for (size_t i = 0; i < v.sched.size(); ++i) o << (i ? "," : "") << v.sched[i];
			o << "],\"inputs\":["; bool f2 = true;
			for (auto& in : v.ins) { o << (f2 ? "" : ",") << "[" << q(in.first.name) << "," << q(std::string(1, in.first.kind)) << "," << q(in.second) << "]"; f2 = false; }
			o << "]}";
		}
		o << "]\n}\n";
	}
};
int main(int argc, char** argv) {
	Engine* E = new Engine(); std::string bc, ent, instr, out = "/dev/stdout";
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto val = [&](const char* p) { return a.substr(strlen(p)); };
		if (a.rfind("--entry=", 0) == 0) ent = val("--entry="); else if (a == "--real") g_real = true; else if (a.rfind("--out=", 0) == 0) out = val("--out=");
		else if (a.rfind("--time=", 0) == 0) E->maxTime = atof(val("--time=").c_str()); else if (a.rfind("--steps=", 0) == 0) E->maxSteps = strtoull(val("--steps=").c_str(), 0, 10);
		else if (a.rfind("--paths=", 0) == 0) E->maxPaths = strtoull(val("--paths=").c_str(), 0, 10); else if (a.rfind("--to-assert=", 0) == 0) E->toAssert = atoi(val("--to-assert=").c_str());
		else if (a.rfind("--to-branch=", 0) == 0) E->toBranch = atoi(val("--to-branch=").c_str()); else if (a == "--trace") E->trace = true; else if (a.rfind("--instrument=", 0) == 0) instr = val("--instrument="); else if (a.rfind("--dump=", 0) == 0) E->S.dumpDir = val("--dump=");
		else bc = a;
	}
	if (!instr.empty()) { // scheduling points for the native replay: a call of vp_yield before every atomic access
		SMDiagnostic err; auto M = parseIRFile(bc, err, E->ctx); if (!M) return 3;
		auto vy = M->getOrInsertFunction("vp_yield", Type::getVoidTy(E->ctx));
		for (auto& f : *M) if (!f.isDeclaration()) f.addFnAttr(Attribute::SanitizeThread);
		for (auto& f : *M) for (auto& b : f) for (auto& i : b) if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || (isa<LoadInst>(i) && cast<LoadInst>(i).isAtomic()) || (isa<StoreInst>(i) && cast<StoreInst>(i).isAtomic())) { auto* c = CallInst::Create(vy, {}, "", &i); c->setDebugLoc(i.getDebugLoc()); }
		std::error_code ec; raw_fd_ostream os(instr, ec); WriteBitcodeToFile(*M, os); os.flush(); fflush(stdout); _exit(0);
	}
	int r = E->run(bc, ent, out); fflush(stdout); _exit(r);
}
