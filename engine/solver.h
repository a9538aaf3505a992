#pragma once
#include "expr.h"
#include <z3++.h>
#include <map>
#include <chrono>
#include <string>

enum SR { UNSAT_, SAT_, UNK_ };
struct Model { std::unordered_map<uint32_t, std::string> vals; std::unordered_map<uint32_t, uint64_t> bits; };

struct Solver {
	z3::context ctx;
	std::unordered_map<Expr*, z3::expr> cache;
	std::map<int, z3::func_decl> fdecls;
	std::map<uint32_t, z3::expr> symz;
	std::unordered_map<std::string, SR> qcache;
	uint64_t nq = 0, nsat = 0, nunsat = 0, nunk = 0, ncached = 0;
	double secs = 0;
	unsigned to_ms = 20000; double deadline = 0; // steady clock, seconds
	std::string dumpDir; unsigned dumped = 0;

	z3::expr tr(Expr* e);
	// satisfiability of the conjunction; model receives a value of every symbol named in syms
	SR check(const std::vector<Expr*>& cs, unsigned timeout_ms, Model* m = nullptr);
	// keep only the constraints connected with seed
	static std::vector<Expr*> slice(const std::vector<Expr*>& pc, Expr* seed);
private:
	z3::check_result isolated(z3::solver& s, unsigned timeout_ms, std::vector<std::string>* vals);
	z3::expr trN(Expr* e);
	z3::expr fconst(unsigned w, uint64_t bits);
	void axioms(const std::vector<Expr*>& cs, z3::solver& s);
	z3::expr B(Expr* e) { return tr(e); }
};
