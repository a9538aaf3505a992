// part of struct Engine: calls, environment, threads
void ret(Frame& f, CallBase& I, Val v = Val()) {
	if (!I.getType()->isVoidTy()) set(f, &I, std::move(v));
	if (auto* iv = dyn_cast<InvokeInst>(&I)) jump(f, iv->getNormalDest()); else ++f.it;
}
Expr* fmaxE(Expr* a, Expr* b, bool mx) {
	Expr* pick = mx ? eIte(eFCmp(FLT, a, b), b, a) : eIte(eFCmp(FLT, b, a), b, a);
	return eIte(eFCmp(FUNO, a, a), b, eIte(eFCmp(FUNO, b, b), a, pick));
}
Expr* powE(Expr* a, Expr* b) {
	unsigned w = a->w;
	if (a->op == FCONST && b->op == FCONST && !g_real) { double r = w == 32 ? powf((float)bits2d(a->c, w), (float)bits2d(b->c, w)) : pow(bits2d(a->c, w), bits2d(b->c, w)); return mkFConst(w, d2bits(r, w)); }
	if (b->op == FCONST) {
		double d = bits2d(b->c, w); int n = (int)d;
		if (d == n && n >= 0 && n <= 8 && g_real) { Expr* r = mkFConst(w, d2bits(1, w)); for (int i = 0; i < n; ++i) r = eF2(FMUL, r, a); return r; }
		if (d == 0.5 && g_real) return eF1(FSQRT, a);
	}
	return eFun("pow", w, a, b);
}
// floating point function by base name; nullptr if unknown
Expr* fpFun(const std::string& n, std::vector<Expr*> a) {
	if (a.empty()) return nullptr; unsigned w = a[0]->w;
	auto cst = [&](double (*fd)(double), float (*ff)(float)) -> Expr* { if (a[0]->op == FCONST && !g_real) return mkFConst(w, w == 32 ? d2bits(ff((float)bits2d(a[0]->c, w)), 32) : d2bits(fd(bits2d(a[0]->c, w)), 64)); return nullptr; };
	auto isz = [&]() { return g_real && a[0]->op == FCONST && bits2d(a[0]->c, w) == 0; };
	auto iso = [&]() { return g_real && a[0]->op == FCONST && bits2d(a[0]->c, w) == 1; };
	Expr* one = mkFConst(w, d2bits(1, w)); Expr* zero = mkFConst(w, 0);
	if (n == "sqrt") return eF1(FSQRT, a[0]);
	if (n == "fabs") return eF1(FABS, a[0]);
	if (n == "floor") return eF1(FFLOOR, a[0]); if (n == "ceil") return eF1(FCEIL, a[0]); if (n == "trunc") return eF1(FTRUNC, a[0]); if (n == "round") return eF1(FROUND, a[0]);
	if (n == "rint" || n == "nearbyint") return eF1(FRINT, a[0]);
	if (n == "exp") { if (auto* c = cst(::exp, ::expf)) return c; if (isz()) return one; return eFun("exp", w, a[0]); }
	if (n == "expm1") { if (auto* c = cst(::expm1, ::expm1f)) return c; if (isz()) return zero; return g_real ? eF2(FSUB, eFun("exp", w, a[0]), one) : eFun("expm1", w, a[0]); }
	if (n == "log") { if (auto* c = cst(::log, ::logf)) return c; if (iso()) return zero; return eFun("log", w, a[0]); }
	if (n == "log1p") { if (auto* c = cst(::log1p, ::log1pf)) return c; if (isz()) return zero; return g_real ? eFun("log", w, eF2(FADD, a[0], one)) : eFun("log1p", w, a[0]); }
	if (n == "tanh" || n == "sin" || n == "cos" || n == "tan" || n == "atan" || n == "log2" || n == "log10" || n == "exp2" || n == "cbrt" || n == "erf") return eFun(n, w, a[0]);
	if (n == "pow" && a.size() > 1) return powE(a[0], a[1]);
	if (n == "fmod" && a.size() > 1) return eFun("fmod", w, a[0], a[1]);
	if ((n == "fmax" || n == "maxnum") && a.size() > 1) return fmaxE(a[0], a[1], true);
	if ((n == "fmin" || n == "minnum") && a.size() > 1) return fmaxE(a[0], a[1], false);
	if (n == "copysign" && a.size() > 1) { if (g_real) return eIte(eFCmp(FLT, a[1], zero), eF1(FNEG, eF1(FABS, a[0])), eF1(FABS, a[0]));
		Expr* sb = mkConst(w, 1ull << (w - 1)); return eBitsF(eBin(OR, eBin(AND, eFBits(a[0]), mkConst(w, maskw(w - 1))), eBin(AND, eFBits(a[1]), sb))); }
	if ((n == "fma" || n == "fmuladd") && a.size() > 2) return g_real ? eF2(FADD, eF2(FMUL, a[0], a[1]), a[2]) : mk(FFMA, w, true, a[0], a[1], a[2]);
	return nullptr;
}
Val isfpclass(Expr* x, unsigned mask) {
	unsigned w = x->w; Expr* z = mkFConst(w, 0);
	if (g_real) {
		Expr* r = mkConst(1, 0); Expr *neg = eFCmp(FLT, x, z), *zer = eFCmp(FEQ, x, z), *pos = eFCmp(FLT, z, x);
		bool n = mask & 8, zz = mask & 0x60, p = mask & 256; if (n && zz && p) return Val((uint64_t)1);
		if (n) r = eOr(r, neg); if (zz) r = eOr(r, zer); if (p) r = eOr(r, pos); return Val(r);
	}
	unsigned mb = w == 32 ? 23 : 52; Expr* b = eFBits(x); Expr* sgn = eExtract(b, w - 1, 1); Expr* mag = eBin(AND, b, mkConst(w, maskw(w - 1)));
	uint64_t inf = (maskw(w - 1) >> mb) << mb; uint64_t minn = 1ull << mb;
	Expr *isinf = eEq(mag, mkConst(w, inf)), *isnan = eBin(ULT, mkConst(w, inf), mag), *isz = eEq(mag, mkConst(w, 0)), *issub = eAnd(eNot(isz), eBin(ULT, mag, mkConst(w, minn))), *isn = eAnd(eBin(ULE, mkConst(w, minn), mag), eBin(ULT, mag, mkConst(w, inf)));
	Expr* r = mkConst(1, 0); auto add = [&](unsigned m, Expr* e) { if (mask & m) r = eOr(r, e); };
	if ((mask & 3) == 3) r = eOr(r, isnan); else if (mask & 3) { Expr* q = eExtract(b, mb - 1, 1); r = eOr(r, eAnd(isnan, (mask & 2) ? q : eNot(q))); }
	add(4, eAnd(sgn, isinf)); add(8, eAnd(sgn, isn)); add(16, eAnd(sgn, issub)); add(32, eAnd(sgn, isz)); add(64, eAnd(eNot(sgn), isz)); add(128, eAnd(eNot(sgn), issub)); add(256, eAnd(eNot(sgn), isn)); add(512, eAnd(eNot(sgn), isinf));
	return Val(r);
}
Val input(const std::string& nm, char kind, unsigned w, bool fp) {
	int k = cs->occ[nm]++; Expr* s = mkSymK(nm + "#" + std::to_string(k), w, fp, true);
	cs->ins.push_back({ nm, kind, s, 0, w }); return Val(s);
}
void finite(Expr* s) { // finite numbers only
	if (g_real) return; Val r = isfpclass(s, 8 | 16 | 32 | 64 | 128 | 256); assume(toE(r, 1));
}
uint64_t doMalloc(uint64_t n, unsigned al, bool zero = false) {
	auto o = newObj(n, HEAP, "heap block", al, !zero); cs->liveHeap++; return o->base;
}
void doFree(uint64_t a) {
	if (!a) return; auto it = cs->mem.find(a);
	if (it == cs->mem.end() || it->second->kind != HEAP) fail("memory", "free of something that is not a live heap block");
	cs->mem.erase(it); cs->liveHeap--;
}
// ---- threads
std::vector<uint32_t>& joinVC(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); return a; }
void acq(uint64_t a) { joinVC(cs->th[cs->cur].vc, cs->cvvc[a]); }
void rel(uint64_t a) { Thread& t = cs->th[cs->cur]; joinVC(cs->cvvc[a], t.vc); tick(t); }
void tick(Thread& t) { if ((int)t.vc.size() <= cs->cur) t.vc.resize(cs->cur + 1, 0); t.vc[cs->cur]++; }
bool spinFree(uint64_t a, uint64_t v) { // may a thread that spins on a flag go on?
	try { Val x = load(Val(a), Type::getInt8Ty(ctx), true); return !(!x.e && x.c == v); } catch (Stop&) { return true; }
}
bool canRun(int i) {
	Thread& t = cs->th[i];
	switch (t.ts) {
	case RUN: return true; case BLK_EX: { Lock& l = cs->locks[t.waitA]; return l.ex < 0 && l.sh == 0; } case BLK_SH: return cs->locks[t.waitA].ex < 0;
	case BLK_CV: return t.timed; case BLK_SPIN: return spinFree(t.waitA, t.waitB); case BLK_JOIN: return cs->th[t.waitA].ts == DONE; default: return false;
	}
}
void resume(State& s, int i) { // make thread i current; the blocked operation is retried
	s.cur = i; Thread& t = s.th[i];
	if (t.ts == BLK_CV) { t.timedOut = true; s.timeouts++; }
	t.ts = RUN;
}
void schedule() {
	std::vector<int> r; int n = (int)cs->th.size();
	for (int k = 1; k <= n; ++k) { int i = (cs->cur + k) % n; if (cs->th[i].ts != BLK_CV && canRun(i)) r.push_back(i); }
	if (r.empty()) { int b = -1; for (int i = 0; i < n; ++i) if (canRun(i) && (b < 0 || cs->th[i].waitSeq < cs->th[b].waitSeq)) b = i; if (b >= 0) r.push_back(b); } // the longest waiter times out first
	if (r.empty()) fail("deadlock", "no thread can make progress");
	if (cs->schedFork) for (size_t k = 1; k < r.size(); ++k) { SP o = clone(); o->sched.push_back(r[k]); State* me = cs; cs = o.get(); resume(*o, r[k]); cs = me; work.push_back(std::move(o)); }
	cs->sched.push_back(r[0]); resume(*cs, r[0]);
}
bool yieldPoint() {
	Thread& t = cs->th[cs->cur];
	if (!cs->schedFork || cs->th.size() < 2) return false;
	if (t.waitSh & 0x100) { t.waitSh &= ~0x100u; return false; } // already scheduled at this point
	if (cs->preempt < cs->maxPreempt) for (int i = 0; i < (int)cs->th.size(); ++i) if (i != cs->cur && canRun(i)) {
		SP o = clone(); o->preempt++; o->th[o->cur].waitSh |= 0x100; o->sched.push_back(i); State* me = cs; cs = o.get(); resume(*o, i); cs = me; work.push_back(std::move(o));
	}
	cs->sched.push_back(cs->cur); return false;
}
void threadEnd() {
	if (cs->cur == 0) { cs->finished = true; return; }
	Thread& t = cs->th[cs->cur]; tick(t); t.ts = DONE; schedule();
}
bool lockEx(uint64_t a) { Lock& l = cs->locks[a]; Thread& t = cs->th[cs->cur]; if (l.ex == cs->cur) fail("deadlock", "thread locks again a lock it holds"); if (l.ex >= 0 || l.sh) { t.ts = BLK_EX; t.waitA = a; schedule(); return false; } l.ex = cs->cur; joinVC(t.vc, l.vcW); joinVC(t.vc, l.vcR); return true; }
bool lockSh(uint64_t a) { Lock& l = cs->locks[a]; Thread& t = cs->th[cs->cur]; if (l.ex == cs->cur) fail("deadlock", "thread locks again a lock it holds"); if (l.ex >= 0) { t.ts = BLK_SH; t.waitA = a; schedule(); return false; } l.sh++; joinVC(t.vc, l.vcW); return true; }
void unlockEx(uint64_t a) { Lock& l = cs->locks[a]; if (l.ex != cs->cur) fail("lock", "unlock of a lock not held"); l.ex = -1; Thread& t = cs->th[cs->cur]; l.vcW = t.vc; l.vcR.clear(); tick(t); }
void unlockSh(uint64_t a) { Lock& l = cs->locks[a]; if (l.sh <= 0) fail("lock", "unlock of a lock not held"); l.sh--; Thread& t = cs->th[cs->cur]; joinVC(l.vcR, t.vc); tick(t); }
void wake(uint64_t cv, bool all) {
	std::vector<int> w; for (int i = 0; i < (int)cs->th.size(); ++i) if (cs->th[i].ts == BLK_CV && cs->th[i].waitA == cv) w.push_back(i);
	auto up = [&](State& s, int i) { Thread& t = s.th[i]; t.ts = (t.waitSh & 1) ? BLK_SH : BLK_EX; t.waitA = t.waitB; };
	if (w.empty()) return;
	if (all) { for (int i : w) up(*cs, i); return; }
	up(*cs, w[0]);
}
// returns true when the wait is over
bool cvWait(Thread& t, uint64_t cv, uint64_t lk, bool sh, bool timed) {
	// phase flag lives in waitSh bit 2
	if (!(t.waitSh & 4)) {
		if (yieldPoint()) return false;
		if (sh) unlockSh(lk); else unlockEx(lk);
		t.waitSh = 4 | (sh ? 1 : 0) | (t.waitSh & 0x100); t.ts = BLK_CV; t.waitA = cv; t.waitB = lk; t.timed = timed; t.timedOut = false; t.waitSeq = ++cs->waitSeq;
		schedule(); return false;
	}
	if (sh ? !lockSh(lk) : !lockEx(lk)) return false;
	t.waitSh &= ~7u; return true;
}
void execCall(Thread& T, Frame& f, CallBase& I) {
	Function* F = I.getCalledFunction();
	if (!F) {
		if (I.isInlineAsm()) { ret(f, I, undefV(I.getType())); return; }
		Value* cv = I.getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
		F = dyn_cast<Function>(cv);
		if (!F) { uint64_t a = concretize(get(f, I.getCalledOperand()), 64, "function pointer"); auto it = faddr.find(a); if (it == faddr.end()) fail("memory", "call through an invalid function pointer"); F = it->second; }
	}
	auto A = [&](unsigned i) { return get(f, I.getArgOperand(i)); };
	auto U = [&](unsigned i) { return concretize(get(f, I.getArgOperand(i)), bw(I.getArgOperand(i)->getType()), "call argument"); };
	auto FA = [&](unsigned i) { return toF(A(i), bw(I.getArgOperand(i)->getType())); };
	unsigned na = I.arg_size();
	if (F->isIntrinsic()) { intrinsic(T, f, I, F); return; }
	StringRef nm = F->getName();
	if (nm.starts_with("vs_") || nm.starts_with("vp_")) { if (harness(T, f, I, nm.str())) return; }
	if (!F->isDeclaration()) {
		std::vector<Val> args; for (unsigned i = 0; i < na; ++i) args.push_back(A(i));
		pushFrame(T, F, std::move(args), &I); return;
	}
	std::string n = nm.str();
	// memory
	auto mayFail = [&](std::function<void(State&)> onNull) { if (cs->mallocMayFail && cs->mallocFails < 1) { SP o = clone(); State* me = cs; cs = o.get(); o->mallocFails++; o->ins.push_back({ "malloc_fails", 'm', nullptr, 1, 1 }); onNull(*o); cs = me; work.push_back(std::move(o)); cs->ins.push_back({ "malloc_fails", 'm', nullptr, 0, 1 }); } };
	auto retNull = [&](State& o) { ret(o.th[o.cur].st.back(), I, Val((uint64_t)0)); };
	if (n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { uint64_t s = U(0); mayFail(retNull); ret(f, I, Val(doMalloc(s, 16))); return; }
	if (n == "_Znwm" || n == "_Znam") { ret(f, I, Val(doMalloc(U(0), 16))); return; }
	if (n == "calloc") { uint64_t s = U(0) * U(1); ret(f, I, Val(doMalloc(s, 16, true))); return; }
	if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmSt11align_val_tRKSt9nothrow_t") { ret(f, I, Val(doMalloc(U(0), (unsigned)U(1)))); return; }
	if (n == "aligned_alloc" || n == "memalign") { ret(f, I, Val(doMalloc(U(1), (unsigned)U(0)))); return; }
	if (n == "posix_memalign") { uint64_t p = U(0), al = U(1), s = U(2); mayFail([&](State& o) { ret(o.th[o.cur].st.back(), I, Val((uint64_t)12)); }); uint64_t b = doMalloc(s, (unsigned)al); storeC(p, Val(b), PointerType::get(ctx, 0)); ret(f, I, Val((uint64_t)0)); return; }
	if (n == "free" || n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0) { doFree(U(0)); ret(f, I); return; }
	if (n == "memcpy" || n == "memmove") { copyMem(U(0), U(1), U(2)); ret(f, I, A(0)); return; }
	if (n == "memset") { Val v = A(1); if (v.e) v = Val(eExtract(v.e, 0, 8)); setMem(U(0), v, U(2)); ret(f, I, A(0)); return; }
	if (n == "memcmp" || n == "bcmp") { uint64_t a = U(0), b = U(1), k = U(2); ret(f, I, memcmpV(a, b, k)); return; }
	if (n == "strlen") { ret(f, I, Val((uint64_t)cstr(U(0)).size())); return; }
	if (n == "strcmp") { int r = cstr(U(0)).compare(cstr(U(1))); ret(f, I, Val((uint64_t)(uint32_t)r)); return; }
	// ends
	if (n == "abort" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "__cxa_pure_virtual" || n == "exit" || n == "_exit") fail("abort", "call of " + demangle(n));
	if (n.rfind("__cxa_throw", 0) == 0 || n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != std::string::npos || n == "__cxa_rethrow") fail("exception", "exception thrown: " + demangle(n));
	if (n == "__cxa_allocate_exception") { ret(f, I, Val(doMalloc(U(0), 16))); return; }
	if (n == "__cxa_atexit" || n == "atexit") { ret(f, I, Val((uint64_t)0)); return; }
	if (n == "__cxa_guard_acquire") { uint64_t g = U(0); Val v = loadC(g, Type::getInt8Ty(ctx), true); ret(f, I, Val((uint64_t)(v.c ? 0 : 1))); return; }
	if (n == "__cxa_guard_release") { storeC(U(0), Val((uint64_t)1), Type::getInt8Ty(ctx), true); ret(f, I); return; }
	// time, io
	if (n == "time") { ret(f, I, Val((uint64_t)1700000000)); return; }
	if (n.find("steady_clock3nowEv") != std::string::npos || n.find("system_clock3nowEv") != std::string::npos || n == "clock") { ret(f, I, Val((uint64_t)(1000000 + cs->timeouts * 1000000000ull))); return; }
	if (n == "printf" || n == "puts" || n == "putchar" || n == "fflush" || n == "fprintf" || n == "vprintf") { ret(f, I, Val((uint64_t)0)); return; }
	if (n == "snprintf" || n == "sprintf") { uint64_t b = U(0); if (b && (n == "sprintf" || U(1))) storeC(b, Val((uint64_t)0), Type::getInt8Ty(ctx)); ret(f, I, Val((uint64_t)0)); return; }
	if (n.rfind("_ZNSt8ios_base4Init", 0) == 0 || n.rfind("_ZNSo", 0) == 0 || n.rfind("_ZStls", 0) == 0 || n.rfind("_ZSt4endl", 0) == 0) { ret(f, I, na ? A(0) : Val()); return; }
	if (n == "rand") { Val v = input("rand", 'i', 32, false); assume(eBin(SLE, mkConst(32, 0), v.e)); ret(f, I, v); return; }
	if (n == "srand") { ret(f, I); return; }
	// fp environment
	if (n == "fesetround" || n == "fegetround") { ret(f, I, Val((uint64_t)0)); return; }
	// threads
	if (n == "_ZNSt6thread20hardware_concurrencyEv") { ret(f, I, Val((uint64_t)hwc)); return; }
	if (n.rfind("_ZNSt6thread15_M_start_thread", 0) == 0) {
		uint64_t th = U(0), up = U(1); Type* P = PointerType::get(ctx, 0);
		uint64_t st = loadC(up, P).c; storeC(up, Val((uint64_t)0), P); uint64_t vt = loadC(st, P, true).c; uint64_t d0 = loadC(vt + 8, P, true).c, rn = loadC(vt + 16, P, true).c;
		if (!faddr.count(rn) || !faddr.count(d0)) unsup("thread entry");
		int id = (int)cs->th.size(); storeC(th, Val((uint64_t)id + 1), Type::getInt64Ty(ctx));
		ret(f, I); Thread nt; nt.vc = cs->th[cs->cur].vc; if ((int)nt.vc.size() <= id) nt.vc.resize(id + 1, 0); nt.vc[id] = 1; tick(cs->th[cs->cur]);
		pushFrame(nt, faddr[d0], { Val(st) }, nullptr); pushFrame(nt, faddr[rn], { Val(st) }, nullptr);
		cs->th.push_back(std::move(nt)); return;
	}
	if (n == "_ZNSt6thread4joinEv") {
		uint64_t th = U(0); uint64_t id = loadC(th, Type::getInt64Ty(ctx), true).c; if (!id || id > cs->th.size()) fail("abort", "join of a thread that is not joinable");
		if (cs->th[id - 1].ts != DONE) { T.ts = BLK_JOIN; T.waitA = id - 1; schedule(); return; }
		joinVC(cs->th[cs->cur].vc, cs->th[id - 1].vc); storeC(th, Val((uint64_t)0), Type::getInt64Ty(ctx), true); ret(f, I); return;
	}
	if (n == "pthread_self") { ret(f, I, Val((uint64_t)cs->cur + 1)); return; }
	if (n == "_ZNSt6thread6_StateD2Ev" || n == "_ZNSt6thread6_StateD1Ev") { ret(f, I); return; }
	if (n == "sched_yield" || n == "nanosleep" || n == "usleep") { ret(f, I, Val((uint64_t)0)); return; }
	if (n == "pthread_mutex_lock") { yieldPoint(); if (!lockEx(U(0))) return; ret(f, I, Val((uint64_t)0)); return; }
	if (n == "pthread_mutex_unlock") { yieldPoint(); unlockEx(U(0)); ret(f, I, Val((uint64_t)0)); return; }
	// math
	if (I.getType()->isX86_FP80Ty() && na == 1 && !A(0).e) { double x = bits2d(A(0).c, 64); if (n == "logl") { ret(f, I, Val(d2bits((double)::logl(x), 64))); return; } }
	{
		std::string b = n; if (b.size() > 1 && (b.back() == 'f' || b.back() == 'l') && b != "erf" && b != "ceil") b.pop_back();
		if (F->getReturnType()->isFloatTy() || F->getReturnType()->isDoubleTy()) {
			bool allfp = na > 0; for (unsigned i = 0; i < na; ++i) if (!fpT(I.getArgOperand(i)->getType())) allfp = false;
			if (allfp) { std::vector<Expr*> a; for (unsigned i = 0; i < na; ++i) a.push_back(FA(i)); for (auto& nm2 : { n, b }) if (Expr* r = fpFun(nm2, a)) { ret(f, I, Val(r)); return; } }
			if (b == "ldexp" && na == 2) { Val x = A(0); int e = (int)sx(U(1), 32); unsigned w = bw(I.getType()); ret(f, I, Val(eF2(FMUL, toF(x, w), mkFConst(w, d2bits(ldexp(1.0, e), w))))); return; }
			if (b == "nextafter" && na == 2 && !A(0).e && !A(1).e) { unsigned w = bw(I.getType()); double x = bits2d(A(0).c, w), y = bits2d(A(1).c, w); ret(f, I, Val(w == 32 ? d2bits(nextafterf((float)x, (float)y), 32) : d2bits(nextafter(x, y), 64))); return; }
		}
	}
	unsup("external " + demangle(n));
}
int hwc = 3;
Val memcmpV(uint64_t a, uint64_t b, uint64_t n) {
	if (!n) return Val((uint64_t)0);
	Obj* o = checkAcc(a, n, false); race(o, a - o->base, n, false); Obj* p = checkAcc(b, n, false); race(p, b - p->base, n, false); o = find(a); p = find(b);
	uint64_t ao = a - o->base, bo = b - p->base; auto sym = [](Obj* q, uint64_t of) { return !q->s.empty() && q->s[of].e; };
	bool any = false; for (uint64_t i = 0; i < n && !any; ++i) any = sym(o, ao + i) || sym(p, bo + i);
	if (!any) { int r = memcmp(&o->c[ao], &p->c[bo], n); return Val((uint64_t)(uint32_t)(r < 0 ? -1 : r > 0)); }
	Expr* eq = mkConst(1, 1);
	for (uint64_t i = 0; i < n;) {
		uint64_t k = 1; for (Obj* q : { o, p }) { uint64_t of = q == o ? ao + i : bo + i; if (!q->s.empty() && q->s[of].e && q->s[of].e != UNINIT && q->s[of].i == 0 && q->s[of].e->w >= 32) k = std::max<uint64_t>(k, q->s[of].e->w / 8); }
		if (i + k > n || k > 8) k = 1;
		Type* t = IntegerType::get(ctx, (unsigned)k * 8); Val x = loadC(a + i, t, true), y = loadC(b + i, t, true); o = find(a); p = find(b);
		eq = eAnd(eq, eEq(toE(x, (unsigned)k * 8), toE(y, (unsigned)k * 8))); i += k;
	}
	return Val(eIte(eq, mkConst(32, 0), mkConst(32, 1)));
}
bool harness(Thread& T, Frame& f, CallBase& I, const std::string& n) {
	auto A = [&](unsigned i) { return get(f, I.getArgOperand(i)); };
	auto U = [&](unsigned i) { return concretize(get(f, I.getArgOperand(i)), bw(I.getArgOperand(i)->getType()), "harness argument"); };
	auto nmA = [&](unsigned i) { return cstr(U(i)); };
	if (n == "vs_i64") { Val lo = A(1), hi = A(2); Val v = input(nmA(0), 'i', 64, false); if (lo.conc() && hi.conc()) { auto& si = g_syms[v.e->c]; si.lo = (int64_t)lo.c; si.hi = (int64_t)hi.c; } assume(eBin(SLE, toE(lo, 64), v.e)); assume(eBin(SLE, v.e, toE(hi, 64))); ret(f, I, v); return true; }
	if (n == "vs_f64" || n == "vs_f32") { Val v = input(nmA(0), 'f', n == "vs_f64" ? 64 : 32, true); finite(v.e); ret(f, I, v); return true; }
	if (n == "vs_f64_any" || n == "vs_f32_any") { Val v = input(nmA(0), 'f', n == "vs_f64_any" ? 64 : 32, true); ret(f, I, v); return true; }
	if (n == "vs_choose") {
		uint64_t k = U(1); std::string nm = nmA(0);
		for (uint64_t i = k; i-- > 1;) { SP o = clone(); State* me = cs; cs = o.get(); o->ins.push_back({ nm, 'i', nullptr, i, 64 }); ret(o->th[o->cur].st.back(), I, Val(i)); cs = me; work.push_back(std::move(o)); }
		cs->ins.push_back({ nm, 'i', nullptr, 0, 64 }); ret(f, I, Val((uint64_t)0)); return true;
	}
	if (n == "vs_assume") { Expr* c = toE(A(0), bw(I.getArgOperand(0)->getType())); if (c->w > 1) c = eNot(eEq(c, mkConst(c->w, 0)));
		if (c->op == CONST) { if (!c->c) { ++pathsInfeasible; throw Stop{ 0 }; } ret(f, I); return true; }
		if (sat(c, toBranch) == UNSAT_) { ++pathsInfeasible; throw Stop{ 0 }; } assume(c); ret(f, I); return true; }
	if (n == "vs_assert") { Expr* c = toE(A(0), bw(I.getArgOperand(0)->getType())); if (c->w > 1) c = eNot(eEq(c, mkConst(c->w, 0))); require(c, "assert", nmA(1)); ret(f, I); return true; }
	if (n == "vs_assert_eq") { // equal as real numbers (native replay: up to rounding)
		Expr *a = toF(A(0), 64), *b = toF(A(1), 64); Expr* c = eFCmp(FEQ, a, b); if (!g_real) c = eOr(c, eAnd(eFCmp(FUNO, a, a), eFCmp(FUNO, b, b)));
		require(c, "assert", nmA(2)); ret(f, I); return true; }
	if (n == "vs_assert_near") { Expr *a = toF(A(0), 64), *b = toF(A(1), 64), *t = toF(A(2), 64); Expr* d = eF2(FSUB, a, b); require(eAnd(eFCmp(FLE, d, t), eFCmp(FLE, eF1(FNEG, t), d)), "assert", nmA(3)); ret(f, I); return true; }
	if (n == "vs_reach") { reached[nmA(0)]++; ret(f, I); return true; }
	if (n == "vs_concretize") { ret(f, I, Val(U(0))); return true; }
	if (n == "vs_heap_live") { ret(f, I, Val(cs->liveHeap)); return true; }
	if (n == "vs_real_mode") { ret(f, I, Val((uint64_t)g_real)); return true; }
	if (n == "vs_symbolic_run") { ret(f, I, Val((uint64_t)1)); return true; }
	if (n == "vs_malloc_may_fail") { cs->mallocMayFail = U(0); ret(f, I); return true; }
	if (n == "vs_set_threads") { hwc = (int)U(0); ret(f, I); return true; }
	if (n == "vs_explore_schedules") { cs->schedFork = U(0) != 0; cs->maxPreempt = (int)U(0) - 1; ret(f, I); return true; }
	if (n == "vs_race_check") { cs->raceCheck = U(0); ret(f, I); return true; }
	if (n == "vp_rng_bits") { ret(f, I, input("rng_bits", 'i', 32, false)); return true; }
	if (n == "vp_rng_real") { Val v = input("rng_real", 'f', 64, true); finite(v.e); assume(eFCmp(FLE, mkFConst(64, 0), v.e)); assume(eFCmp(FLT, v.e, mkFConst(64, d2bits(1, 64)))); ret(f, I, v); return true; }
	if (n == "vp_yield") { yieldPoint(); ret(f, I); return true; }
	if (n == "vp_srw_init" || n == "vp_cv_init") { ret(f, I); return true; }
	if (n == "vp_srw_lock_ex") { yieldPoint(); if (!lockEx(U(0))) return true; ret(f, I); return true; }
	if (n == "vp_srw_lock_sh") { yieldPoint(); if (!lockSh(U(0))) return true; ret(f, I); return true; }
	if (n == "vp_srw_unlock_ex") { yieldPoint(); unlockEx(U(0)); ret(f, I); return true; }
	if (n == "vp_srw_unlock_sh") { yieldPoint(); unlockSh(U(0)); ret(f, I); return true; }
	if (n == "vp_cv_wake_one") { yieldPoint(); wake(U(0), false); ret(f, I); return true; }
	if (n == "vp_cv_wake_all") { yieldPoint(); wake(U(0), true); ret(f, I); return true; }
	if (n == "vp_cv_wait") { bool timed = U(2) != 0xffffffffull; if (!cvWait(T, U(0), U(1), U(3) != 0, timed)) return true; Thread& t = cs->th[cs->cur]; ret(t.st.back(), I, Val((uint64_t)!t.timedOut)); return true; }
	return false;
}
void intrinsic(Thread& T, Frame& f, CallBase& I, Function* F) {
	auto A = [&](unsigned i) { return get(f, I.getArgOperand(i)); };
	auto W = [&](unsigned i) { return bw(I.getArgOperand(i)->getType()); };
	auto U = [&](unsigned i) { return concretize(A(i), W(i), "intrinsic argument"); };
	auto FA = [&](unsigned i) { return toF(A(i), W(i)); };
	auto EA = [&](unsigned i) { return toE(A(i), W(i)); };
	switch (F->getIntrinsicID()) {
	case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::x86_sse_ldmxcsr: case Intrinsic::invariant_start:
		ret(f, I, undefV(I.getType())); return;
	case Intrinsic::x86_sse_stmxcsr: storeC(U(0), Val((uint64_t)0x1f80), Type::getInt32Ty(ctx)); ret(f, I); return;
	case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret(f, I, A(0)); return;
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = U(2); if (n) copyMem(U(0), U(1), n); ret(f, I); return; }
	case Intrinsic::memset: { Val v = A(1); uint64_t n = U(2); if (n) setMem(U(0), v, n); ret(f, I); return; }
	case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail("trap", "internal assertion of nntl failed (trap)");
	case Intrinsic::stacksave: ret(f, I, Val((uint64_t)0)); return; case Intrinsic::stackrestore: ret(f, I); return;
	case Intrinsic::objectsize: ret(f, I, Val(maskw(bw(I.getType())))); return;
	case Intrinsic::is_constant: ret(f, I, Val((uint64_t)0)); return;
	case Intrinsic::eh_typeid_for: ret(f, I, Val((uint64_t)1)); return;
	case Intrinsic::is_fpclass: ret(f, I, isfpclass(FA(0), (unsigned)U(1))); return;
	case Intrinsic::smax: ret(f, I, Val(eIte(eBin(SLT, EA(0), EA(1)), EA(1), EA(0)))); return;
	case Intrinsic::smin: ret(f, I, Val(eIte(eBin(SLT, EA(1), EA(0)), EA(1), EA(0)))); return;
	case Intrinsic::umax: ret(f, I, Val(eIte(eBin(ULT, EA(0), EA(1)), EA(1), EA(0)))); return;
	case Intrinsic::umin: ret(f, I, Val(eIte(eBin(ULT, EA(1), EA(0)), EA(1), EA(0)))); return;
	case Intrinsic::abs: { Expr* x = EA(0); ret(f, I, Val(eIte(eBin(SLT, x, mkConst(x->w, 0)), eBin(SUB, mkConst(x->w, 0), x), x))); return; }
	case Intrinsic::usub_sat: ret(f, I, Val(eIte(eBin(ULT, EA(0), EA(1)), mkConst(W(0), 0), eBin(SUB, EA(0), EA(1))))); return;
	case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = W(0); uint64_t s = U(2) % w; Expr *h = EA(0), *l = EA(1); bool L = F->getIntrinsicID() == Intrinsic::fshl; if (!s) { ret(f, I, Val(L ? h : l)); return; } if (!L) s = w - s;
		ret(f, I, Val(eBin(OR, eBin(SHL, h, mkConst(w, s)), eBin(LSHR, l, mkConst(w, w - s))))); return; }
	case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
		unsigned w = W(0); auto id = F->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
		Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? SUB : MUL;
		Expr *a = EA(0), *b = EA(1); Expr* r = eBin(op, a, b); Expr* ov;
		if (op == MUL || sg) { unsigned W2 = op == MUL ? 2 * w : w + 1; if (a->op == CONST && b->op == CONST && w <= 64) { __int128 x = sg ? (__int128)sx(a->c, w) : (__int128)a->c, y = sg ? (__int128)sx(b->c, w) : (__int128)b->c; __int128 z = op == MUL ? x * y : op == ADD ? x + y : x - y; bool o2 = sg ? z != (__int128)sx((uint64_t)z & maskw(w), w) : (unsigned __int128)z != ((unsigned __int128)((uint64_t)z & maskw(w))); ov = mkConst(1, o2); }
			else { auto ex = [&](Expr* e) { return mk(sg ? SEXT : ZEXT, W2, false, e); }; Expr* big = mk(op, W2, false, ex(a), ex(b)); ov = eNot(mk(EQ, 1, false, big, ex(r))); } }
		else if (op == ADD) ov = eBin(ULT, r, a); else ov = eBin(ULT, a, b);
		Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val(r)); v.agg->push_back(Val(ov)); ret(f, I, v); return;
	}
	case Intrinsic::bswap: { unsigned w = W(0); Expr *x = EA(0), *r = nullptr; for (unsigned i = 0; i < w / 8; ++i) { Expr* b = eExtract(x, w - 8 - i * 8, 8); r = r ? eConcat(b, r) : b; } ret(f, I, Val(r)); return; }
	case Intrinsic::ctpop: { unsigned w = W(0); Expr *x = EA(0), *r = mkConst(w, 0); for (unsigned i = 0; i < w; ++i) r = eBin(ADD, r, eZext(eExtract(x, i, 1), w)); ret(f, I, Val(r)); return; }
	case Intrinsic::ctlz: { unsigned w = W(0); Expr *x = EA(0), *r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = eIte(eExtract(x, i, 1), mkConst(w, w - 1 - i), r); ret(f, I, Val(r)); return; }
	case Intrinsic::cttz: { unsigned w = W(0); Expr *x = EA(0), *r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = eIte(eExtract(x, i, 1), mkConst(w, i), r); ret(f, I, Val(r)); return; }
	default: break;
	}
	std::string n = F->getName().str(); if (n.rfind("llvm.", 0) == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); }
	if (n == "powi") { Expr* b = FA(0); int e = (int)sx(U(1), W(1)); Expr* one = mkFConst(b->w, d2bits(1, b->w)); Expr* r = one; for (int i = 0; i < std::abs(e); ++i) r = eF2(FMUL, r, b); if (e < 0) r = eF2(FDIV, one, r); ret(f, I, Val(r)); return; }
	bool allfp = I.arg_size() > 0; for (auto& a : I.args()) if (!fpT(a->getType())) allfp = false;
	if (allfp && fpT(I.getType())) { std::vector<Expr*> a; for (unsigned i = 0; i < I.arg_size(); ++i) a.push_back(FA(i)); if (Expr* r = fpFun(n, a)) { ret(f, I, Val(r)); return; } }
	unsup("intrinsic " + F->getName().str());
}
