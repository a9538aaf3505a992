#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "solver.h"
#include <set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
using z3::expr;

static std::string exactRational(uint64_t bits, unsigned w) {
	double d = bits2d(bits, w);
	if (d == 0) return "0";
	int ex; double m = frexp(d, &ex); // d = m*2^ex
	long long mi = (long long)ldexp(m, 53); ex -= 53;
	while (mi % 2 == 0) { mi /= 2; ++ex; }
	// big power of two as decimal string
	auto pow2 = [](int n) { std::string s = "1"; for (int i = 0; i < n; ++i) { int c = 0; for (int j = (int)s.size() - 1; j >= 0; --j) { int v = (s[j] - '0') * 2 + c; s[j] = '0' + v % 10; c = v / 10; } if (c) s.insert(s.begin(), '0' + c); } return s; };
	auto mul = [](std::string a, long long b) { bool neg = b < 0; unsigned long long u = neg ? 0ull - b : b; std::string r; unsigned __int128 c = 0; for (int j = (int)a.size() - 1; j >= 0; --j) { unsigned __int128 v = (unsigned __int128)(a[j] - '0') * u + c; r.insert(r.begin(), '0' + (int)(v % 10)); c = v / 10; } while (c) { r.insert(r.begin(), '0' + (int)(c % 10)); c /= 10; } return (neg ? "-" : "") + r; };
	if (ex >= 0) return mul(pow2(ex), mi);
	return std::to_string(mi) + "/" + pow2(-ex);
}
expr Solver::fconst(unsigned w, uint64_t bits) {
	if (g_real) return ctx.real_val(exactRational(bits, w).c_str());
	expr b = ctx.bv_val((uint64_t)bits, w);
	z3::sort s = w == 32 ? ctx.fpa_sort(8, 24) : ctx.fpa_sort(11, 53);
	return expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, b, s)).simplify();
}
expr Solver::tr(Expr* e) {
	auto it = cache.find(e);
	if (it != cache.end()) return it->second;
	// iterative post-order to avoid deep recursion
	std::vector<std::pair<Expr*, int>> st{ { e, 0 } };
	while (!st.empty()) {
		Expr* x = st.back().first; int i = st.back().second;
		if (cache.count(x)) { st.pop_back(); continue; }
		if (i < x->nk) { st.back().second++; if (!cache.count(x->k[i])) st.push_back({ x->k[i], 0 }); continue; }
		cache.emplace(x, trN(x)); st.pop_back();
	}
	return cache.at(e);
}
expr Solver::trN(Expr* e) {
	auto K = [&](int i) { return cache.at(e->k[i]); };
	auto toBV = [&](expr x, unsigned w) { return x.is_bool() ? z3::ite(x, ctx.bv_val(1, 1), ctx.bv_val(0, 1)) : x; };
	auto Kb = [&](int i) { return toBV(K(i), e->k[i]->w); };
	auto mkz = [&](Z3_ast a) { ctx.check_error(); return expr(ctx, a); };
	auto rm = [&]() { return mkz(Z3_mk_fpa_rne(ctx)); };
	auto fsort = [&](unsigned w) { return w == 32 ? ctx.fpa_sort(8, 24) : ctx.fpa_sort(11, 53); };
	switch (e->op) {
	case CONST: if (e->w == 1) return ctx.bool_val(e->c != 0); return ctx.bv_val((uint64_t)e->c, e->w);
	case SYM: { auto n = "s" + std::to_string(e->c); expr x = e->w == 1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), e->w); symz.emplace((uint32_t)e->c, x); return x; }
	case FSYM: { auto n = "f" + std::to_string(e->c); expr x = g_real ? ctx.real_const(n.c_str()) : ctx.constant(n.c_str(), fsort(e->w)); symz.emplace((uint32_t)e->c, x); return x; }
	case ADD: return e->w == 1 ? (K(0) != K(1)) : K(0) + K(1);
	case SUB: return e->w == 1 ? (K(0) != K(1)) : K(0) - K(1);
	case MUL: return e->w == 1 ? (K(0) && K(1)) : K(0) * K(1);
	case UDIV: return z3::udiv(Kb(0), Kb(1));
	case SDIV: return Kb(0) / Kb(1);
	case UREM: return z3::urem(Kb(0), Kb(1));
	case SREM: return z3::srem(Kb(0), Kb(1));
	case AND: return e->w == 1 ? (K(0) && K(1)) : (K(0) & K(1));
	case OR: return e->w == 1 ? (K(0) || K(1)) : (K(0) | K(1));
	case XOR: if (e->w == 1) { if (e->k[1]->op == CONST) return e->k[1]->c ? !K(0) : K(0); return K(0) != K(1); } return K(0) ^ K(1);
	case SHL: return z3::shl(Kb(0), Kb(1));
	case LSHR: return z3::lshr(Kb(0), Kb(1));
	case ASHR: return z3::ashr(Kb(0), Kb(1));
	case CONCAT: return z3::concat(Kb(0), Kb(1));
	case EXTRACT: { expr x = Kb(0).extract((unsigned)e->c + e->w - 1, (unsigned)e->c); return e->w == 1 ? x == ctx.bv_val(1, 1) : x; }
	case ZEXT: if (e->k[0]->w == 1) return z3::ite(K(0), ctx.bv_val(1, e->w), ctx.bv_val(0, e->w)); return z3::zext(K(0), e->w - e->k[0]->w);
	case SEXT: if (e->k[0]->w == 1) return z3::ite(K(0), ctx.bv_val(-1, e->w), ctx.bv_val(0, e->w)); return z3::sext(K(0), e->w - e->k[0]->w);
	case EQ: return K(0) == K(1);
	case ULT: return z3::ult(Kb(0), Kb(1));
	case ULE: return z3::ule(Kb(0), Kb(1));
	case SLT: return Kb(0) < Kb(1);
	case SLE: return Kb(0) <= Kb(1);
	case ITE: case FITE: return z3::ite(K(0), K(1), K(2));
	case FCONST: return fconst(e->w, e->c);
	case FADD: return g_real ? K(0) + K(1) : mkz(Z3_mk_fpa_add(ctx, rm(), K(0), K(1)));
	case FSUB: return g_real ? K(0) - K(1) : mkz(Z3_mk_fpa_sub(ctx, rm(), K(0), K(1)));
	case FMUL: return g_real ? K(0) * K(1) : mkz(Z3_mk_fpa_mul(ctx, rm(), K(0), K(1)));
	case FDIV: return g_real ? K(0) / K(1) : mkz(Z3_mk_fpa_div(ctx, rm(), K(0), K(1)));
	case FNEG: return g_real ? -K(0) : mkz(Z3_mk_fpa_neg(ctx, K(0)));
	case FABS: return g_real ? z3::ite(K(0) < ctx.real_val(0), -K(0), K(0)) : mkz(Z3_mk_fpa_abs(ctx, K(0)));
	case FSQRT: if (g_real) break; return mkz(Z3_mk_fpa_sqrt(ctx, rm(), K(0)));
	case FFMA: return g_real ? K(0) * K(1) + K(2) : mkz(Z3_mk_fpa_fma(ctx, rm(), K(0), K(1), K(2)));
	case FCONV: return g_real ? K(0) : mkz(Z3_mk_fpa_to_fp_float(ctx, rm(), K(0), fsort(e->w)));
	case FLT: return g_real ? K(0) < K(1) : mkz(Z3_mk_fpa_lt(ctx, K(0), K(1)));
	case FLE: return g_real ? K(0) <= K(1) : mkz(Z3_mk_fpa_leq(ctx, K(0), K(1)));
	case FEQ: case FREALEQ: return g_real ? K(0) == K(1) : mkz(Z3_mk_fpa_eq(ctx, K(0), K(1)));
	case FUNO: return g_real ? ctx.bool_val(false) : (mkz(Z3_mk_fpa_is_nan(ctx, K(0))) || mkz(Z3_mk_fpa_is_nan(ctx, K(1))));
	case FISINF: return g_real ? ctx.bool_val(false) : mkz(Z3_mk_fpa_is_infinite(ctx, K(0)));
	case FBITS: if (g_real) break; return mkz(Z3_mk_fpa_to_ieee_bv(ctx, K(0)));
	case BITSF: if (g_real) break; return mkz(Z3_mk_fpa_to_fp_bv(ctx, Kb(0), fsort(e->w)));
	case FTOSI: if (!g_real) return mkz(Z3_mk_fpa_to_sbv(ctx, mkz(Z3_mk_fpa_rtz(ctx)), K(0), e->w)); break;
	case FTOUI: if (!g_real) return mkz(Z3_mk_fpa_to_ubv(ctx, mkz(Z3_mk_fpa_rtz(ctx)), K(0), e->w)); break;
	case SITOF: if (g_real && e->k[0]->op == SYM) { auto& si = g_syms[e->k[0]->c]; if (si.lo != INT64_MIN) return ctx.real_const(("ri" + std::to_string(e->k[0]->c)).c_str()); }
		if (!g_real) return mkz(Z3_mk_fpa_to_fp_signed(ctx, rm(), Kb(0), fsort(e->w)));
		return mkz(Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, Kb(0), true)));
	case UITOF: if (!g_real) return mkz(Z3_mk_fpa_to_fp_unsigned(ctx, rm(), Kb(0), fsort(e->w)));
		return mkz(Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, Kb(0), false)));
	case FFLOOR: if (g_real) return mkz(Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, K(0)))); return mkz(Z3_mk_fpa_round_to_integral(ctx, mkz(Z3_mk_fpa_rtn(ctx)), K(0)));
	case FCEIL: if (g_real) return -mkz(Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, -K(0)))); return mkz(Z3_mk_fpa_round_to_integral(ctx, mkz(Z3_mk_fpa_rtp(ctx)), K(0)));
	case FTRUNC: if (g_real) { expr fl = mkz(Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, K(0)))), ce = -mkz(Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, -K(0)))); return z3::ite(K(0) >= 0, fl, ce); }
		return mkz(Z3_mk_fpa_round_to_integral(ctx, mkz(Z3_mk_fpa_rtz(ctx)), K(0)));
	case FROUND: if (!g_real) return mkz(Z3_mk_fpa_round_to_integral(ctx, mkz(Z3_mk_fpa_rna(ctx)), K(0)));
		{ expr h = ctx.real_val("1/2"); expr fl = mkz(Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, K(0) + h))), ce = -mkz(Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, -K(0) + h))); return z3::ite(K(0) >= 0, fl, ce); }
	case FRINT: if (!g_real) return mkz(Z3_mk_fpa_round_to_integral(ctx, rm(), K(0))); break;
	default: break;
	}
	// uninterpreted: sqrt/fun in real arithmetic, fbits etc.
	std::string nm = e->op == FUN ? g_funs[e->c] : e->op == FSQRT ? "sqrt" : "op" + std::to_string((int)e->op) + "_" + std::to_string(e->w);
	if (!g_real && e->op == FUN) nm += std::to_string(e->w);
	z3::sort_vector dom(ctx); z3::expr_vector args(ctx);
	for (int i = 0; i < e->nk; ++i) { dom.push_back(K(i).get_sort()); args.push_back(K(i)); }
	z3::sort rng = e->isfp ? (g_real ? ctx.real_sort() : fsort(e->w)) : (e->w == 1 ? ctx.bool_sort() : ctx.bv_sort(e->w));
	return ctx.function(("u_" + nm).c_str(), dom, rng)(args);
}
// instances of facts about the uninterpreted functions occurring in the query
void Solver::axioms(const std::vector<Expr*>& cs, z3::solver& s) {
	if (!g_real) return;
	std::vector<Expr*> apps; std::unordered_set<Expr*> seen; std::vector<Expr*> st(cs.begin(), cs.end());
	while (!st.empty()) {
		Expr* e = st.back(); st.pop_back();
		if (!e->hasReal || !seen.insert(e).second) continue;
		if (e->op == FUN || e->op == FSQRT) apps.push_back(e);
		for (int i = 0; i < e->nk; ++i) st.push_back(e->k[i]);
	}
	if (apps.empty()) return;
	expr zero = ctx.real_val(0), one = ctx.real_val(1);
	std::vector<std::pair<expr, expr>> exps; // (arg, value)
	std::vector<std::pair<expr, expr>> logs, sqrts, tanhs;
	for (auto e : apps) {
		expr v = tr(e), x = tr(e->k[0]);
		std::string n = e->op == FSQRT ? "sqrt" : g_funs[e->c];
		if (n == "sqrt") { s.add(z3::implies(x >= zero, v >= zero && v * v == x)); sqrts.push_back({ x, v }); }
		else if (n == "exp") { s.add(v > zero); exps.push_back({ x, v }); }
		else if (n == "expm1") { s.add(v > -one); exps.push_back({ x, v + one }); }
		else if (n == "log") logs.push_back({ x, v });
		else if (n == "log1p") logs.push_back({ x + one, v });
		else if (n == "tanh") { s.add(v > -one && v < one); s.add((x > zero) == (v > zero)); s.add((x == zero) == (v == zero)); tanhs.push_back({ x, v }); }
		else if (n == "pow") { expr y = tr(e->k[1]);
			s.add(z3::implies(y == zero, v == one)); s.add(z3::implies(y == one, v == x)); s.add(z3::implies(y == ctx.real_val(2), v == x * x));
			s.add(z3::implies(x > zero, v > zero)); s.add(z3::implies(x == one, v == one)); 
			s.add(z3::implies(x > zero && x < one && y > zero, v < one)); s.add(z3::implies(x == zero && y > zero, v == zero)); }
		else if (n == "cos" || n == "sin") { s.add(v >= -one && v <= one); }
	}
	for (size_t i = 0; i < exps.size(); ++i) {
		auto& a = exps[i];
		s.add((a.first == zero) == (a.second == one)); s.add((a.first > zero) == (a.second > one));
		s.add(a.second >= a.first + one);
		for (size_t j = i + 1; j < exps.size(); ++j) {
			auto& b = exps[j];
			s.add((a.first == b.first) == (a.second == b.second)); s.add((a.first < b.first) == (a.second < b.second));
			expr sum = (a.first + b.first).simplify();
			if (sum.is_numeral() && Z3_get_numeral_string(ctx, sum) == std::string("0")) s.add(a.second * b.second == one);
			// exp(x)*exp(y)=exp(x+y) when the third argument occurs
			for (size_t k = 0; k < exps.size(); ++k) if (k != i && k != j) {
				expr d = (a.first + b.first - exps[k].first).simplify();
				if (d.is_numeral() && Z3_get_numeral_string(ctx, d) == std::string("0")) s.add(a.second * b.second == exps[k].second);
			}
		}
		for (auto& l : logs) s.add(z3::implies(l.first == a.second, l.second == a.first));
		// exp of a sum or difference of up to two logarithms
		if (logs.size() <= 6) for (size_t i1 = 0; i1 < logs.size(); ++i1) {
			auto& l = logs[i1]; expr lp = l.first > zero;
			s.add(z3::implies(lp && a.first == l.second, a.second == l.first)); s.add(z3::implies(lp && a.first == -l.second, a.second * l.first == one));
			for (size_t i2 = 0; i2 < logs.size(); ++i2) if (i2 != i1) {
				auto& m = logs[i2]; expr mp = lp && m.first > zero;
				if (i1 < i2) { s.add(z3::implies(mp && a.first == l.second + m.second, a.second == l.first * m.first)); s.add(z3::implies(mp && a.first == -l.second - m.second, a.second * l.first * m.first == one)); }
				s.add(z3::implies(mp && a.first == l.second - m.second, a.second * m.first == l.first));
			}
		}
	}
	for (size_t i = 0; i < logs.size(); ++i) {
		auto& a = logs[i];
		s.add(z3::implies(a.first > zero, ((a.first == one) == (a.second == zero)) && ((a.first > one) == (a.second > zero)) && a.second <= a.first - one));
		for (size_t j = i + 1; j < logs.size(); ++j) {
			auto& b = logs[j];
			s.add(z3::implies(a.first > zero && b.first > zero, ((a.first == b.first) == (a.second == b.second)) && ((a.first < b.first) == (a.second < b.second))));
			s.add(z3::implies(a.first == b.first, a.second == b.second));
		}
	}
	for (size_t i = 0; i < sqrts.size(); ++i) for (size_t j = i + 1; j < sqrts.size(); ++j)
		s.add(z3::implies(sqrts[i].first == sqrts[j].first, sqrts[i].second == sqrts[j].second));
	for (size_t i = 0; i < tanhs.size(); ++i) for (size_t j = i + 1; j < tanhs.size(); ++j)
		s.add((tanhs[i].first < tanhs[j].first) == (tanhs[i].second < tanhs[j].second));
}
std::vector<Expr*> Solver::slice(const std::vector<Expr*>& pc, Expr* seed) {
	std::vector<Expr*> out; std::vector<char> used(pc.size(), 0);
	std::set<uint32_t> vs(seed->vars->begin(), seed->vars->end());
	bool ch = true;
	while (ch) {
		ch = false;
		for (size_t i = 0; i < pc.size(); ++i) if (!used[i]) {
			bool hit = pc[i]->vars->empty();
			for (auto v : *pc[i]->vars) if (vs.count(v)) { hit = true; break; }
			if (hit) { used[i] = 1; ch = true; vs.insert(pc[i]->vars->begin(), pc[i]->vars->end()); }
		}
	}
	for (size_t i = 0; i < pc.size(); ++i) if (used[i]) out.push_back(pc[i]);
	return out;
}
z3::check_result Solver::isolated(z3::solver& s, unsigned timeout_ms, std::vector<std::string>* vals) {
	int fd[2]; if (pipe(fd)) return z3::unknown;
	pid_t pid = fork();
	if (pid < 0) { close(fd[0]); close(fd[1]); return z3::unknown; }
	if (!pid) {
		close(fd[0]); struct rlimit rl = { 6ull << 30, 6ull << 30 }; setrlimit(RLIMIT_AS, &rl); std::string out;
		try {
			auto zr = s.check(); out = zr == z3::sat ? "s" : zr == z3::unsat ? "u" : "?";
			if (zr == z3::sat && vals) { z3::model md = s.get_model();
				for (auto& kv : symz) { expr v = md.eval(kv.second, true); const SymInfo& si = g_syms[kv.first]; std::string t;
					if (si.fp) { t = Z3_get_numeral_decimal_string(ctx, v, v.is_algebraic() ? 20 : 30); while (!t.empty() && t.back() == '?') t.pop_back(); }
					else if (si.w == 1) t = v.is_true() ? "1" : "0"; else { uint64_t u = 0; Z3_get_numeral_uint64(ctx, v, &u); t = std::to_string(u); }
					out += t + "\n"; } }
		} catch (...) { out = "?"; }
		for (size_t o = 0; o < out.size();) { ssize_t w = write(fd[1], out.data() + o, out.size() - o); if (w <= 0) break; o += (size_t)w; }
		_exit(0);
	}
	close(fd[1]); std::string in; auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout_ms); bool late = false;
	for (;;) {
		auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count(); if (left < 0) left = 0;
		struct pollfd pf = { fd[0], POLLIN, 0 }; int pr = poll(&pf, 1, (int)left); if (pr < 0 && errno == EINTR) continue; if (pr <= 0) { late = true; break; }
		char buf[4096]; ssize_t n = read(fd[0], buf, sizeof buf); if (n <= 0) break; in.append(buf, (size_t)n);
	}
	close(fd[0]); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0);
	if (late || in.empty() || in[0] == '?') return z3::unknown;
	if (in[0] == 'u') return z3::unsat;
	if (vals) { size_t o = 1; for (size_t i = 0; i < symz.size(); ++i) { size_t e = in.find('\n', o); if (e == std::string::npos) return z3::unknown; vals->push_back(in.substr(o, e - o)); o = e + 1; } }
	return z3::sat;
}
SR Solver::check(const std::vector<Expr*>& cs0, unsigned timeout_ms, Model* m) {
	std::vector<Expr*> cs(cs0);
	std::sort(cs.begin(), cs.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
	cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	bool anyReal = false;
	std::string key;
	for (auto c : cs) { if (c->op == CONST) { if (!c->c) return UNSAT_; continue; } anyReal |= c->hasReal; key.append((const char*)&c->id, 4); }
	if (!m) { auto it = qcache.find(key); if (it != qcache.end()) { ++ncached; return it->second; } }
	auto t0 = std::chrono::steady_clock::now();
	double left = deadline > 0 ? deadline - std::chrono::duration<double>(t0.time_since_epoch()).count() : 1e9;
	if (left <= 0) { ++nq; ++nunk; return UNK_; }
	if (left * 1000 < timeout_ms) timeout_ms = (unsigned)(left * 1000) + 1;
	SR r = UNK_;
	bool exactInts = false, sawInts = false;
	bool heavy = false;
	if (anyReal && g_real) { size_t n = 0, ites = 0; std::unordered_set<Expr*> seen; std::vector<Expr*> st(cs.begin(), cs.end());
		while (!st.empty() && !heavy) { Expr* e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; ++n; ites += e->op == ITE; heavy = n > 1000 || ites > 8; for (int i = 0; i < e->nk; ++i) st.push_back(e->k[i]); } }
	auto run = [&](z3::solver& s) {
		bool iso = heavy; // nonlinear arithmetic runs in a child process: Z3 does not always honour its own time limit there
		if (!iso) { z3::params p(ctx); p.set("timeout", timeout_ms); s.set(p); }
		for (auto c : cs) s.add(tr(c));
		axioms(cs, s); bool ints = false;
		if (g_real) { std::unordered_set<Expr*> seen; std::vector<Expr*> st(cs.begin(), cs.end());
			while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue;
				if (e->op == SITOF && e->k[0]->op == SYM && g_syms[e->k[0]->c].lo != INT64_MIN) { auto& si = g_syms[e->k[0]->c]; expr v = tr(e); s.add(v >= ctx.real_val(si.lo) && v <= ctx.real_val(si.hi)); ints = true; if (exactInts) s.add(v == expr(ctx, Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, tr(e->k[0]), true)))); }
				for (int i = 0; i < e->nk; ++i) st.push_back(e->k[i]); } }
		if (!dumpDir.empty() && dumped < 40 && (dumped++, true)) { std::ofstream o(dumpDir + "/q" + std::to_string(dumped) + ".smt2"); o << s.to_smt2(); }
		std::vector<std::string> isoVals; z3::check_result zr;
		if (iso) zr = isolated(s, timeout_ms, m ? &isoVals : nullptr); else zr = s.check();
		if (ints && !exactInts && m && zr == z3::sat) zr = z3::unknown; // a model over the reals may not be one over the integers
		sawInts |= ints;
		if (zr == z3::sat) {
			r = SAT_;
			if (m && iso) {
				size_t i = 0;
				for (auto& kv : symz) { const SymInfo& si = g_syms[kv.first]; const std::string& t = isoVals.at(i++); if (si.fp) m->vals[kv.first] = t; else m->bits[kv.first] = strtoull(t.c_str(), 0, 10); }
			} else if (m) {
				z3::model md = s.get_model();
				for (auto& kv : symz) {
					expr v = md.eval(kv.second, true);
					const SymInfo& si = g_syms[kv.first];
					if (si.fp && g_real) {
						std::string t;
						if (v.is_algebraic()) { t = Z3_get_numeral_decimal_string(ctx, v, 20); if (!t.empty() && t.back() == '?') t.pop_back(); }
						else t = Z3_get_numeral_decimal_string(ctx, v, 30);
						if (!t.empty() && t.back() == '?') t.pop_back();
						m->vals[kv.first] = t;
					} else if (si.fp) {
						expr b = expr(ctx, Z3_mk_fpa_to_ieee_bv(ctx, v)).simplify(); uint64_t u = 0;
						if (!Z3_get_numeral_uint64(ctx, b, &u)) u = si.w == 32 ? 0x7fc00000ull : 0x7ff8000000000000ull;
						m->bits[kv.first] = u;
					} else if (si.w == 1) m->bits[kv.first] = v.is_true();
					else { uint64_t u = 0; Z3_get_numeral_uint64(ctx, v, &u); m->bits[kv.first] = u; }
				}
			}
		} else r = zr == z3::unsat ? UNSAT_ : UNK_;
	};
	try {
		if (anyReal && g_real) {
			// nonlinear real arithmetic: normalise to sums of monomials first, then the default strategy
			z3::solver s(ctx); run(s);
			if (r == UNK_) {
				z3::params sp(ctx); sp.set("som", true);
				z3::tactic t = z3::with(z3::tactic(ctx, "simplify"), sp) & z3::tactic(ctx, "propagate-values") & z3::tactic(ctx, "solve-eqs") & z3::tactic(ctx, "purify-arith") & z3::tactic(ctx, "elim-term-ite") & z3::tactic(ctx, "solve-eqs") & z3::tactic(ctx, "smt");
				z3::solver s2 = t.mk_solver(); run(s2);
				if (r == UNK_ && sawInts) { exactInts = true; z3::solver s3(ctx); run(s3); }
			}
		} else if (anyReal) { z3::solver s = z3::tactic(ctx, "qffpbv").mk_solver(); 
			bool uf = false; std::vector<Expr*> st(cs.begin(), cs.end()); std::unordered_set<Expr*> seen;
			while (!st.empty()) { Expr* e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->op == FUN) uf = true; for (int i = 0; i < e->nk; ++i) st.push_back(e->k[i]); }
			if (uf) { z3::solver s3(ctx); run(s3); } else run(s); }
		else { z3::solver s = z3::tactic(ctx, "qfbv").mk_solver(); run(s); }
	} catch (z3::exception& ex) { std::cerr << "z3: " << ex.msg() << "\n"; r = UNK_; }
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	secs += dt; ++nq; (r == SAT_ ? nsat : r == UNSAT_ ? nunsat : nunk)++;
	if (!m && r != UNK_) qcache[key] = r;
	return r;
}
