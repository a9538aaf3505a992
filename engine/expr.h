// Hash-consed symbolic expressions over bit-vectors and floating-point numbers.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <memory>
#include <cassert>

enum Op : uint8_t {
	// bit-vectors (width 1 doubles as boolean)
	CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE,
	// floating point
	FCONST, FSYM, FADD, FSUB, FMUL, FDIV, FREM, FNEG, FABS, FSQRT, FFMA, FCONV, FITE, FUN,
	FLT, FLE, FEQ, FUNO, FISINF,
	FTOSI, FTOUI, SITOF, UITOF, FBITS, BITSF,
	FFLOOR, FCEIL, FTRUNC, FROUND, FRINT, FREALEQ /*same value up to rounding: asserted equalities*/
};

struct Expr {
	Op op; uint16_t w;         // result width in bits (fp: 32/64)
	uint32_t id; uint64_t c;    // constant value / bits / extract low bit / symbol index / function id
	Expr* k[3]; uint8_t nk; bool isfp;
	std::vector<uint32_t> const* vars; // sorted symbol ids
	bool hasReal;               // contains fp arithmetic
};

extern bool g_real;  // real-arithmetic mode

struct SymInfo { std::string name; uint16_t w; bool fp; bool input; int64_t lo = INT64_MIN, hi = INT64_MAX; };
extern std::vector<SymInfo> g_syms;
extern std::vector<std::string> g_funs;
int funId(const std::string& n);

Expr* mk(Op op, unsigned w, bool fp, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, uint64_t cv = 0);
Expr* mkConst(unsigned w, uint64_t v);
Expr* mkFConst(unsigned w, uint64_t bits);
Expr* mkSym(const std::string& name, unsigned w, bool fp, bool input);

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static inline double bits2d(uint64_t b, unsigned w) {
	if (w == 32) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; }
	double d; memcpy(&d, &b, 8); return d;
}
static inline uint64_t d2bits(double d, unsigned w) {
	if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
	uint64_t b; memcpy(&b, &d, 8); return b;
}

// value: either a concrete scalar (e==nullptr) or an expression or an aggregate
struct Val {
	Expr* e = nullptr; uint64_t c = 0;
	std::shared_ptr<std::vector<Val>> agg;
	Val() {}
	Val(uint64_t v) : c(v) {}
	Val(Expr* x) : e(x) { if (x && (x->op == CONST || x->op == FCONST)) { c = x->c; e = nullptr; } }
	bool conc() const { return !e && !agg; }
};
static inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(w, v.c & maskw(w)); }
static inline Expr* toF(const Val& v, unsigned w) { return v.e ? v.e : mkFConst(w, v.c & maskw(w)); }

Expr* eBin(Op op, Expr* a, Expr* b);
Expr* eEq(Expr* a, Expr* b);
Expr* eNot(Expr* a);
Expr* eAnd(Expr* a, Expr* b);
Expr* eOr(Expr* a, Expr* b);
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eExtract(Expr* a, unsigned lo, unsigned w);
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eZext(Expr* a, unsigned w);
Expr* eSext(Expr* a, unsigned w);
Expr* eF2(Op op, Expr* a, Expr* b);
Expr* eF1(Op op, Expr* a);
Expr* eFCmp(Op op, Expr* a, Expr* b);
Expr* eFConv(Expr* a, unsigned w);
Expr* eFBits(Expr* a);
Expr* eBitsF(Expr* a);
Expr* eFun(const std::string& name, unsigned w, Expr* a, Expr* b = nullptr);
