#include "expr.h"
bool g_real = false;
std::vector<SymInfo> g_syms;
std::vector<std::string> g_funs;
int funId(const std::string& n) {
	for (size_t i = 0; i < g_funs.size(); ++i) if (g_funs[i] == n) return (int)i;
	g_funs.push_back(n); return (int)g_funs.size() - 1;
}
namespace {
struct Key { Op op; uint16_t w; bool fp; uint64_t c; Expr* k[3];
	bool operator==(const Key& o) const { return op == o.op && w == o.w && fp == o.fp && c == o.c && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2]; } };
struct KH { size_t operator()(const Key& k) const {
	size_t h = k.op * 1000003u + k.w * 31 + k.fp; h ^= k.c * 0x9E3779B97F4A7C15ull + (h << 6);
	for (int i = 0; i < 3; ++i) h = (h * 0x100000001b3ull) ^ ((size_t)k.k[i] >> 4); return h; } };
std::unordered_map<Key, Expr*, KH> tab;
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 7; for (auto x : v) h = h * 1000003 + x; return h; } };
std::unordered_set<std::vector<uint32_t>, VH> varsets;
const std::vector<uint32_t>* internVars(std::vector<uint32_t>&& v) { return &*varsets.insert(std::move(v)).first; }
}
Expr* mk(Op op, unsigned w, bool fp, Expr* a, Expr* b, Expr* c, uint64_t cv) {
	Key k{ op, (uint16_t)w, fp, cv, { a, b, c } };
	auto it = tab.find(k);
	if (it != tab.end()) return it->second;
	Expr* e = new Expr();
	e->op = op; e->w = w; e->isfp = fp; e->c = cv; e->id = (uint32_t)tab.size();
	e->k[0] = a; e->k[1] = b; e->k[2] = c; e->nk = c ? 3 : b ? 2 : a ? 1 : 0;
	if (op == SYM || op == FSYM) e->vars = internVars({ (uint32_t)cv });
	else if (e->nk == 0) e->vars = internVars({});
	else if (e->nk == 1) e->vars = a->vars;
	else {
		const std::vector<uint32_t>* v = a->vars;
		for (int i = 1; i < e->nk; ++i) if (e->k[i]->vars != v) {
			std::vector<uint32_t> u; std::set_union(v->begin(), v->end(), e->k[i]->vars->begin(), e->k[i]->vars->end(), std::back_inserter(u));
			v = internVars(std::move(u));
		}
		e->vars = v;
	}
	e->hasReal = fp;
	for (int i = 0; i < e->nk; ++i) if (e->k[i]->hasReal) e->hasReal = true;
	tab.emplace(k, e);
	return e;
}
Expr* mkConst(unsigned w, uint64_t v) { return mk(CONST, w, false, nullptr, nullptr, nullptr, v & maskw(w)); }
Expr* mkFConst(unsigned w, uint64_t b) { return mk(FCONST, w, true, nullptr, nullptr, nullptr, b & maskw(w)); }
Expr* mkSym(const std::string& name, unsigned w, bool fp, bool input) {
	g_syms.push_back({ name, (uint16_t)w, fp, input, INT64_MIN, INT64_MAX });
	return mk(fp ? FSYM : SYM, w, fp, nullptr, nullptr, nullptr, g_syms.size() - 1);
}
static bool isC(Expr* e) { return e->op == CONST; }
static bool isFC(Expr* e) { return e->op == FCONST; }
static bool T(Expr* e) { return e->op == CONST && e->w == 1 && e->c == 1; }
static bool F(Expr* e) { return e->op == CONST && e->w == 1 && e->c == 0; }
Expr* eNot(Expr* a) {
	if (isC(a)) return mkConst(1, !a->c);
	if (a->op == XOR && T(a->k[1])) return a->k[0];
	return mk(XOR, 1, false, a, mkConst(1, 1));
}
Expr* eAnd(Expr* a, Expr* b) { return eBin(AND, a, b); }
Expr* eOr(Expr* a, Expr* b) { return eBin(OR, a, b); }
Expr* eIte(Expr* c, Expr* a, Expr* b) {
	if (T(c)) return a; if (F(c)) return b; if (a == b) return a;
	if (c->op == XOR && T(c->k[1])) return eIte(c->k[0], b, a);
	if (a->w == 1 && !a->isfp) {
		if (T(a) && F(b)) return c;
		if (F(a) && T(b)) return eNot(c);
	}
	return mk(a->isfp ? FITE : ITE, a->w, a->isfp, c, a, b);
}
Expr* eEq(Expr* a, Expr* b) {
	if (a == b) return mkConst(1, 1);
	if (isC(a) && isC(b)) return mkConst(1, a->c == b->c);
	if (isC(a)) std::swap(a, b);
	if (a->w == 1) {
		if (T(b)) return a; if (F(b)) return eNot(a);
	}
	if (a->op == FBITS && b->op == FBITS && g_real) return eFCmp(FEQ, a->k[0], b->k[0]);
	if (a->op == FBITS && isC(b) && g_real) return eFCmp(FEQ, a->k[0], mkFConst(a->w, b->c));
	if (isC(b)) {
		if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) {
			bool p = a->k[1]->c == b->c, q = a->k[2]->c == b->c;
			if (p && q) return mkConst(1, 1); if (!p && !q) return mkConst(1, 0);
			return p ? a->k[0] : eNot(a->k[0]);
		}
		if (a->op == ZEXT) {
			if (b->c >> a->k[0]->w) return mkConst(1, 0);
			return eEq(a->k[0], mkConst(a->k[0]->w, b->c));
		}
		if (a->op == SEXT) {
			uint64_t lo = b->c & maskw(a->k[0]->w);
			if ((sx(lo, a->k[0]->w) & maskw(a->w)) != b->c) return mkConst(1, 0);
			return eEq(a->k[0], mkConst(a->k[0]->w, lo));
		}
		if (a->op == ADD && isC(a->k[1])) return eEq(a->k[0], mkConst(a->w, b->c - a->k[1]->c));
	}
	if (a->id > b->id && !isC(b)) std::swap(a, b);
	return mk(EQ, 1, false, a, b);
}
static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w, bool& ok) {
	ok = true; uint64_t m = maskw(w);
	switch (op) {
	case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
	case UDIV: if (!b) { ok = false; return 0; } return a / b;
	case UREM: if (!b) { ok = false; return 0; } return a % b;
	case SDIV: if (!b || (sx(b, w) == -1 && a == (1ull << (w - 1)))) { ok = false; return 0; } return (uint64_t)(sx(a, w) / sx(b, w)) & m;
	case SREM: if (!b || (sx(b, w) == -1 && a == (1ull << (w - 1)))) { ok = false; return 0; } return (uint64_t)(sx(a, w) % sx(b, w)) & m;
	case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
	case SHL: return b >= w ? 0 : (a << b) & m;
	case LSHR: return b >= w ? 0 : a >> b;
	case ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
	case ULT: return a < b; case ULE: return a <= b;
	case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
	default: ok = false; return 0;
	}
}
Expr* eBin(Op op, Expr* a, Expr* b) {
	unsigned w = a->w;
	bool cmp = op == ULT || op == ULE || op == SLT || op == SLE;
	if (op == EQ) return eEq(a, b);
	if (isC(a) && isC(b)) { bool ok; uint64_t r = foldBin(op, a->c, b->c, w, ok); if (ok) return mkConst(cmp ? 1 : w, r); }
	bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
	if (comm && isC(a)) std::swap(a, b);
	if (isC(b)) {
		uint64_t c = b->c, m = maskw(w);
		switch (op) {
		case ADD: if (!c) return a; if (a->op == ADD && isC(a->k[1])) return eBin(ADD, a->k[0], mkConst(w, a->k[1]->c + c)); break;
		case SUB: if (!c) return a; return eBin(ADD, a, mkConst(w, 0 - c));
		case MUL: if (!c) return b; if (c == 1) return a;
			if (a->op == ADD && isC(a->k[1])) return eBin(ADD, eBin(MUL, a->k[0], b), mkConst(w, a->k[1]->c * c));
			if (a->op == MUL && isC(a->k[1])) return eBin(MUL, a->k[0], mkConst(w, a->k[1]->c * c)); break;
		case UDIV: case SDIV: if (c == 1) return a; break;
		case AND: if (!c) return b; if (c == m) return a; break;
		case OR: if (!c) return a; if (c == m) return b; break;
		case XOR: if (!c) return a; if (w == 1) return eNot(a);
			if (a->op == XOR && isC(a->k[1])) return eBin(XOR, a->k[0], mkConst(w, a->k[1]->c ^ c)); break;
		case SHL: case LSHR: case ASHR: if (!c) return a; break;
		default: break;
		}
	}
	if (a == b) switch (op) {
		case SUB: case XOR: return mkConst(w, 0);
		case AND: case OR: return a;
		case ULT: case SLT: return mkConst(1, 0);
		case ULE: case SLE: return mkConst(1, 1);
		default: break;
	}
	if (op == ULT && isC(b) && b->c == 0) return mkConst(1, 0);
	if (op == ULT && isC(b) && b->c == 1) return eEq(a, mkConst(w, 0));
	if (op == ULE && isC(a) && a->c == 0) return mkConst(1, 1);
	if (op == SUB && a->op == ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; 
		if (b->op == ADD && a->k[0] == b->k[0]) return eBin(SUB, a->k[1], b->k[1]); }
	if (op == SUB && b->op == ADD && b->k[0] == a) return eBin(SUB, mkConst(w, 0), b->k[1]);
	if (op == ADD && !isC(b) && b->op == ADD && isC(b->k[1])) return eBin(ADD, eBin(ADD, a, b->k[0]), b->k[1]);
	if (op == ADD && !isC(b) && a->op == ADD && isC(a->k[1])) return eBin(ADD, eBin(ADD, a->k[0], b), a->k[1]);
	if (w == 1 && (op == AND || op == OR)) {
		if (eNot(a) == b) return mkConst(1, op == OR);
	}
	// push constant arithmetic through ite of constants
	if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) {
		bool o1, o2; uint64_t x = foldBin(op, a->k[1]->c, b->c, w, o1), y = foldBin(op, a->k[2]->c, b->c, w, o2);
		if (o1 && o2) return eIte(a->k[0], mkConst(cmp ? 1 : w, x), mkConst(cmp ? 1 : w, y));
	}
	return mk(op, cmp ? 1 : w, false, a, b);
}
Expr* eExtract(Expr* a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (isC(a)) return mkConst(w, a->c >> lo);
	if (a->op == CONCAT) {
		unsigned lw = a->k[1]->w;
		if (lo + w <= lw) return eExtract(a->k[1], lo, w);
		if (lo >= lw) return eExtract(a->k[0], lo - lw, w);
	}
	if (a->op == EXTRACT) return eExtract(a->k[0], lo + (unsigned)a->c, w);
	if (a->op == ZEXT || a->op == SEXT) {
		unsigned sw = a->k[0]->w;
		if (lo + w <= sw) return eExtract(a->k[0], lo, w);
		if (a->op == ZEXT && lo >= sw) return mkConst(w, 0);
		if (a->op == ZEXT && lo == 0) return eZext(a->k[0], w);
		if (a->op == SEXT && lo == 0) return eSext(a->k[0], w);
	}
	if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eExtract(a->k[1], lo, w), eExtract(a->k[2], lo, w));
	return mk(EXTRACT, w, false, a, nullptr, nullptr, lo);
}
Expr* eConcat(Expr* hi, Expr* lo) {
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo) && w <= 64) return mkConst(w, (hi->c << lo->w) | lo->c);
	if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return eExtract(hi->k[0], (unsigned)lo->c, w);
	if (isC(hi) && hi->c == 0) return eZext(lo, w);
	return mk(CONCAT, w, false, hi, lo);
}
Expr* eZext(Expr* a, unsigned w) {
	if (w == a->w) return a;
	if (isC(a)) return w <= 64 ? mkConst(w, a->c) : mk(ZEXT, w, false, a);
	if (a->op == ZEXT) return eZext(a->k[0], w);
	if (a->op == ITE && isC(a->k[1]) && isC(a->k[2]) && w <= 64) return eIte(a->k[0], eZext(a->k[1], w), eZext(a->k[2], w));
	return mk(ZEXT, w, false, a);
}
Expr* eSext(Expr* a, unsigned w) {
	if (w == a->w) return a;
	if (isC(a) && w <= 64) return mkConst(w, (uint64_t)sx(a->c, a->w));
	if (a->op == SEXT) return eSext(a->k[0], w);
	if (a->op == ZEXT) return eZext(a->k[0], w);
	if (a->op == ITE && isC(a->k[1]) && isC(a->k[2]) && w <= 64) return eIte(a->k[0], eSext(a->k[1], w), eSext(a->k[2], w));
	return mk(SEXT, w, false, a);
}
static bool natF2(Op op, double x, double y, unsigned w, uint64_t& out) {
	std::feclearexcept(FE_ALL_EXCEPT);
	if (w == 32) {
		volatile float a = (float)x, b = (float)y, r;
		switch (op) { case FADD: r = a + b; break; case FSUB: r = a - b; break; case FMUL: r = a * b; break; case FDIV: r = a / b; break; case FREM: r = fmodf(a, b); break; default: return false; }
		out = d2bits(r, 32);
	} else {
		volatile double a = x, b = y, r;
		switch (op) { case FADD: r = a + b; break; case FSUB: r = a - b; break; case FMUL: r = a * b; break; case FDIV: r = a / b; break; case FREM: r = fmod(a, b); break; default: return false; }
		out = d2bits(r, 64);
	}
	if (!g_real) return true;
	return !std::fetestexcept(FE_INEXACT | FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW);
}
static bool isZero(Expr* e) { return isFC(e) && bits2d(e->c, e->w) == 0; }
static bool isOne(Expr* e) { return isFC(e) && bits2d(e->c, e->w) == 1; }
Expr* eF2(Op op, Expr* a, Expr* b) {
	unsigned w = a->w;
	if (isFC(a) && isFC(b)) { uint64_t r; if (natF2(op, bits2d(a->c, w), bits2d(b->c, w), w, r)) return mkFConst(w, r); }
	if (g_real) {
		switch (op) {
		case FADD: if (isZero(a)) return b; if (isZero(b)) return a; break;
		case FSUB: if (isZero(b)) return a; if (a == b) return mkFConst(w, 0); if (isZero(a)) return eF1(FNEG, b); break;
		case FMUL: if (isZero(a)) return a; if (isZero(b)) return b; if (isOne(a)) return b; if (isOne(b)) return a; break;
		case FDIV: if (isOne(b)) return a; break;
		default: break;
		}
		if ((op == FADD || op == FMUL) && a->id > b->id) std::swap(a, b);
	}
	return mk(op, w, true, a, b);
}
// numeric value of a ground term as the machine would compute it
static bool ground(Expr* a, double& v, int depth = 0) {
	if (isFC(a)) { v = bits2d(a->c, a->w); return true; }
	if (depth > 12 || a->w != 64) return false;
	double x, y;
	switch (a->op) {
	case FADD: case FSUB: case FMUL: case FDIV: if (!ground(a->k[0], x, depth + 1) || !ground(a->k[1], y, depth + 1)) return false; v = a->op == FADD ? x + y : a->op == FSUB ? x - y : a->op == FMUL ? x * y : x / y; return true;
	case FNEG: case FABS: case FSQRT: if (!ground(a->k[0], x, depth + 1)) return false; v = a->op == FNEG ? -x : a->op == FABS ? fabs(x) : sqrt(x); return true;
	default: return false;
	}
}
Expr* eF1(Op op, Expr* a) {
	unsigned w = a->w;
	if (g_real && !isFC(a) && (op == FFLOOR || op == FCEIL || op == FTRUNC || op == FROUND || op == FRINT)) { double v; if (ground(a, v)) a = mkFConst(w, d2bits(v, w)); }
	if (isFC(a)) {
		double x = bits2d(a->c, w);
		switch (op) {
		case FNEG: return mkFConst(w, a->c ^ (1ull << (w - 1)));
		case FABS: return mkFConst(w, a->c & ~(1ull << (w - 1)));
		case FSQRT: { std::feclearexcept(FE_ALL_EXCEPT); volatile double r; if (w == 32) { volatile float f = (float)x; r = sqrtf(f); } else { volatile double d = x; r = sqrt(d); }
			if (!g_real || !std::fetestexcept(FE_INEXACT | FE_INVALID)) return mkFConst(w, d2bits(r, w)); break; }
		case FFLOOR: return mkFConst(w, d2bits(floor(x), w));
		case FCEIL: return mkFConst(w, d2bits(ceil(x), w));
		case FTRUNC: return mkFConst(w, d2bits(trunc(x), w));
		case FROUND: return mkFConst(w, d2bits(round(x), w));
		case FRINT: return mkFConst(w, d2bits(rint(x), w));
		default: break;
		}
	}
	if (op == FNEG && a->op == FNEG) return a->k[0];
	if (op == FABS && (a->op == FNEG || a->op == FABS)) return eF1(FABS, a->k[0]);
	return mk(op, w, true, a);
}
Expr* eFCmp(Op op, Expr* a, Expr* b) {
	if (isFC(a) && isFC(b)) {
		double x = bits2d(a->c, a->w), y = bits2d(b->c, b->w);
		switch (op) { case FLT: return mkConst(1, x < y); case FLE: return mkConst(1, x <= y); case FEQ: return mkConst(1, x == y);
		case FUNO: return mkConst(1, x != x || y != y); default: break; }
	}
	if (g_real) {
		if (op == FUNO) return mkConst(1, 0);
		if (a == b) return mkConst(1, op != FLT);
		// comparisons with infinity decide themselves: every real is finite
		if (isFC(b) && std::isinf(bits2d(b->c, b->w))) return mkConst(1, op == FEQ ? 0 : bits2d(b->c, b->w) > 0);
		if (isFC(a) && std::isinf(bits2d(a->c, a->w))) return mkConst(1, op == FEQ ? 0 : bits2d(a->c, a->w) < 0);
	}
	if (op == FEQ && a->id > b->id) std::swap(a, b);
	return mk(op, 1, false, a, b);
}
Expr* eFConv(Expr* a, unsigned w) {
	if (a->w == w) return a;
	if (isFC(a)) {
		double d = bits2d(a->c, a->w);
		if (w == 64) return mkFConst(64, d2bits(d, 64));
		if (!g_real || (double)(float)d == d || d != d) return mkFConst(32, d2bits(d, 32));
	}
	if (g_real && a->op == FCONV) return eFConv(a->k[0], w);
	return mk(FCONV, w, true, a);
}
Expr* eFBits(Expr* a) {
	if (isFC(a)) return mkConst(a->w, a->c);
	if (a->op == BITSF) return a->k[0];
	return mk(FBITS, a->w, false, a);
}
Expr* eBitsF(Expr* a) {
	if (isC(a)) return mkFConst(a->w, a->c);
	if (a->op == FBITS) return a->k[0];
	if (a->op == ITE) { // selects moved through integer registers
		Expr *x = a->k[1], *y = a->k[2];
		if ((x->op == FBITS || isC(x)) && (y->op == FBITS || isC(y))) return eIte(a->k[0], eBitsF(x), eBitsF(y));
	}
	if (g_real && a->op == AND && isC(a->k[1]) && a->k[1]->c == maskw(a->w - 1) && a->k[0]->op == FBITS) return eF1(FABS, a->k[0]->k[0]);
	return mk(BITSF, a->w, true, a);
}
Expr* eFun(const std::string& name, unsigned w, Expr* a, Expr* b) {
	// in real arithmetic the float and double variants are the same function
	return mk(FUN, w, true, a, b, nullptr, funId(name));
}
