// part of struct Engine: one instruction
void step() {
	Thread& T = cs->th[cs->cur];
	if (T.ts != RUN) { schedule(); return; }
	Frame& f = T.st.back(); Instruction& I = *f.it;
	auto next = [&]() { ++f.it; };
	switch (I.getOpcode()) {
	case Instruction::Ret: {
		Val rv; bool hasv = false; if (auto* v = cast<ReturnInst>(I).getReturnValue()) { rv = get(f, v); hasv = true; }
		for (auto a : f.allocas) cs->mem.erase(a);
		Instruction* call = f.call; T.st.pop_back();
		if (T.st.empty()) { threadEnd(); return; }
		Frame& c = T.st.back();
		if (!call) return; // constructor of a global, or first frame under an already positioned caller
		if (hasv && !call->getType()->isVoidTy()) set(c, call, rv);
		if (auto* iv = dyn_cast<InvokeInst>(call)) jump(c, iv->getNormalDest()); else ++c.it;
		return;
	}
	case Instruction::Br: {
		auto& b = cast<BranchInst>(I);
		if (b.isUnconditional()) { jump(f, b.getSuccessor(0)); return; }
		Val c = get(f, b.getCondition());
		if (!c.e) { jump(f, b.getSuccessor(c.c & 1 ? 0 : 1)); return; }
		bool v = decide(c.e, [&](State& o) { jump(o.th[o.cur].st.back(), b.getSuccessor(1)); });
		jump(f, b.getSuccessor(v ? 0 : 1)); return;
	}
	case Instruction::Switch: {
		auto& sw = cast<SwitchInst>(I); Val c = get(f, sw.getCondition()); unsigned w = bw(sw.getCondition()->getType());
		if (!c.e) { auto cs2 = sw.findCaseValue(ConstantInt::get(cast<IntegerType>(sw.getCondition()->getType()), c.c)); jump(f, cs2->getCaseSuccessor()); return; }
		Expr* none = mkConst(1, 1);
		for (auto& cse : sw.cases()) {
			Expr* eq = eEq(c.e, mkConst(w, cse.getCaseValue()->getZExtValue()));
			none = eAnd(none, eNot(eq));
			if (sat(eq, toBranch) == UNSAT_) continue;
			SP o = clone(); State* me = cs; cs = o.get(); assume(eq); jump(o->th[o->cur].st.back(), cse.getCaseSuccessor()); cs = me; work.push_back(std::move(o));
		}
		if (sat(none, toBranch) == UNSAT_) throw Stop{ 1 };
		assume(none); jump(f, sw.getDefaultDest()); return;
	}
	case Instruction::Unreachable: fail("unreachable", "undefined behaviour: unreachable reached");
	case Instruction::Call: case Instruction::Invoke: execCall(T, f, cast<CallBase>(I)); return;
	case Instruction::Alloca: {
		auto& a = cast<AllocaInst>(I); uint64_t n = DL->getTypeAllocSize(a.getAllocatedType());
		if (a.isArrayAllocation()) n *= concretize(get(f, a.getArraySize()), bw(a.getArraySize()->getType()), "alloca size");
		auto o = newObj(n, STACK, a.hasName() ? "local " + a.getName().str() : "local", (unsigned)a.getAlign().value());
		f.allocas.push_back(o->base); set(f, &I, Val(o->base)); next(); return;
	}
	case Instruction::Load: { auto& l = cast<LoadInst>(I); if (l.isAtomic() && yieldPoint()) return; Val v = load(get(f, l.getPointerOperand()), I.getType(), l.isAtomic()); if (l.isAtomic()) acq(get(f, l.getPointerOperand()).c); set(f, &I, v); next(); return; }
	case Instruction::Store: { auto& s = cast<StoreInst>(I); if (s.isAtomic() && yieldPoint()) return; Val a = get(f, s.getPointerOperand()); store(a, get(f, s.getValueOperand()), s.getValueOperand()->getType(), s.isAtomic()); if (s.isAtomic()) rel(a.c); next(); return; }
	case Instruction::AtomicRMW: {
		auto& r = cast<AtomicRMWInst>(I); if (yieldPoint()) return; Type* t = I.getType(); unsigned w = bw(t);
		Val a = Val(concretize(get(f, r.getPointerOperand()), 64, "atomic address")); acq(a.c); Val old = load(a, t, true), v = get(f, r.getValOperand()), nv;
		if (r.getOperation() == AtomicRMWInst::Xchg && w == 8 && !old.e && !v.e && old.c == v.c && cs->th.size() > 1) { // a spinning test-and-set: nothing changes until another thread clears the flag
			Thread& t = cs->th[cs->cur]; t.ts = BLK_SPIN; t.waitA = a.c; t.waitB = old.c; if (cs->schedFork) t.waitSh |= 0x100; schedule(); return; }
		Expr *x = toE(old, w), *y = toE(v, w);
		switch (r.getOperation()) {
		case AtomicRMWInst::Add: nv = Val(eBin(ADD, x, y)); break; case AtomicRMWInst::Sub: nv = Val(eBin(SUB, x, y)); break;
		case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = Val(eBin(AND, x, y)); break; case AtomicRMWInst::Or: nv = Val(eBin(OR, x, y)); break; case AtomicRMWInst::Xor: nv = Val(eBin(XOR, x, y)); break;
		default: unsup("atomicrmw");
		}
		store(a, nv, t, true); rel(a.c); set(f, &I, old); next(); return;
	}
	case Instruction::AtomicCmpXchg: {
		auto& r = cast<AtomicCmpXchgInst>(I); if (yieldPoint()) return; Type* t = r.getCompareOperand()->getType(); unsigned w = bw(t);
		Val a = Val(concretize(get(f, r.getPointerOperand()), 64, "atomic address")); acq(a.c); Val old = load(a, t, true);
		Expr* eq = eEq(toE(old, w), toE(get(f, r.getCompareOperand()), w));
		store(a, Val(eIte(eq, toE(get(f, r.getNewValOperand()), w), toE(old, w))), t, true); rel(a.c);
		Val res; res.agg = std::make_shared<std::vector<Val>>(); res.agg->push_back(old); res.agg->push_back(Val(eq)); set(f, &I, res); next(); return;
	}
	case Instruction::Fence: next(); return;
	case Instruction::GetElementPtr: set(f, &I, gep(f, cast<GetElementPtrInst>(I))); next(); return;
	case Instruction::PHI: unsup("phi");
	case Instruction::Select: {
		auto& s = cast<SelectInst>(I); Val c = get(f, s.getCondition()); Val a = get(f, s.getTrueValue()), b = get(f, s.getFalseValue());
		set(f, &I, sel(c, a, b, I.getType())); next(); return;
	}
	case Instruction::ExtractValue: { Val v = get(f, I.getOperand(0)); for (unsigned ix : cast<ExtractValueInst>(I).indices()) { if (!v.agg) unsup("extractvalue"); Val n = (*v.agg)[ix]; v = n; } set(f, &I, v); next(); return; }
	case Instruction::InsertValue: { auto& iv = cast<InsertValueInst>(I); Val v = get(f, I.getOperand(0)); Val x = get(f, I.getOperand(1)); set(f, &I, insV(v, x, iv.getIndices(), 0)); next(); return; }
	case Instruction::ExtractElement: { Val v = get(f, I.getOperand(0)); uint64_t i = concretize(get(f, I.getOperand(1)), bw(I.getOperand(1)->getType()), "lane"); if (!v.agg || i >= v.agg->size()) unsup("extractelement"); set(f, &I, (*v.agg)[i]); next(); return; }
	case Instruction::InsertElement: { Val v = get(f, I.getOperand(0)); uint64_t i = concretize(get(f, I.getOperand(2)), bw(I.getOperand(2)->getType()), "lane"); Val n; n.agg = std::make_shared<std::vector<Val>>(*v.agg); (*n.agg)[i] = get(f, I.getOperand(1)); set(f, &I, n); next(); return; }
	case Instruction::ShuffleVector: { auto& sv = cast<ShuffleVectorInst>(I); Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1)); Val n; n.agg = std::make_shared<std::vector<Val>>(); unsigned k = (unsigned)a.agg->size();
		for (int m : sv.getShuffleMask()) n.agg->push_back(m < 0 ? Val((uint64_t)0) : (unsigned)m < k ? (*a.agg)[m] : (*b.agg)[m - k]); set(f, &I, n); next(); return; }
	case Instruction::Freeze: set(f, &I, get(f, I.getOperand(0))); next(); return;
	case Instruction::ICmp: { Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1)); Type* t = I.getOperand(0)->getType();
		set(f, &I, lanes2(a, b, t, [&](const Val& x, const Val& y, Type* et) { return icmp(cast<ICmpInst>(I).getPredicate(), x, y, bw(et)); })); next(); return; }
	case Instruction::FCmp: { Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1)); Type* t = I.getOperand(0)->getType();
		set(f, &I, lanes2(a, b, t, [&](const Val& x, const Val& y, Type* et) { return fcmp(cast<FCmpInst>(I).getPredicate(), toF(x, bw(et)), toF(y, bw(et))); })); next(); return; }
	case Instruction::FNeg: { Val a = get(f, I.getOperand(0)); set(f, &I, lanes2(a, a, I.getType(), [&](const Val& x, const Val&, Type* et) { return Val(eF1(FNEG, toF(x, bw(et)))); })); next(); return; }
	default: break;
	}
	if (auto* b = dyn_cast<BinaryOperator>(&I)) {
		Val x = get(f, b->getOperand(0)), y = get(f, b->getOperand(1));
		set(f, &I, lanes2(x, y, I.getType(), [&](const Val& p, const Val& q, Type* et) { return binop(b, p, q, et); })); next(); return;
	}
	if (auto* c = dyn_cast<CastInst>(&I)) { set(f, &I, castV(c, get(f, c->getOperand(0)))); next(); return; }
	unsup(std::string("instruction ") + I.getOpcodeName());
}
template<class Fn> Val lanes2(const Val& a, const Val& b, Type* t, Fn fn) {
	if (!t->isVectorTy()) return fn(a, b, t);
	Val r; r.agg = std::make_shared<std::vector<Val>>(); Type* et = cast<VectorType>(t)->getElementType();
	for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(fn((*a.agg)[i], (*b.agg)[i], et)); return r;
}
Val sel(const Val& c, const Val& a, const Val& b, Type* t) {
	if (t->isVectorTy() && c.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(sel((*c.agg)[i], (*a.agg)[i], (*b.agg)[i], elemT(t, (unsigned)i))); return r; }
	if (!c.e) return c.c & 1 ? a : b;
	if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(sel(c, (*a.agg)[i], (*b.agg)[i], elemT(t, (unsigned)i))); return r; }
	unsigned w = bw(t); bool fp = fpT(t);
	return Val(eIte(c.e, fp ? toF(a, w) : toE(a, w), fp ? toF(b, w) : toE(b, w)));
}
Val insV(const Val& v, const Val& x, ArrayRef<unsigned> ix, unsigned d) {
	if (d == ix.size()) return x; Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[ix[d]] = insV((*v.agg)[ix[d]], x, ix, d + 1); return r;
}
Val gep(Frame& f, GetElementPtrInst& g) {
	Val p = get(f, g.getPointerOperand()); uint64_t off = 0; Expr* sym = nullptr;
	for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
		Value* ix = it.getOperand();
		if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
		uint64_t sz = DL->getTypeAllocSize(it.getIndexedType()); Val v = get(f, ix); unsigned w = bw(ix->getType());
		if (!v.e) off += (uint64_t)(sx(v.c, w) * (int64_t)sz);
		else { Expr* t = eBin(MUL, eSext(v.e, 64), mkConst(64, sz)); sym = sym ? eBin(ADD, sym, t) : t; }
	}
	if (!p.e && !sym) return Val(p.c + off);
	Expr* b = toE(p, 64); if (sym) b = eBin(ADD, b, sym); return Val(eBin(ADD, b, mkConst(64, off)));
}
Val icmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
	if (!a.e && !b.e) {
		uint64_t x = a.c & maskw(w), y = b.c & maskw(w); int64_t s = sx(x, w), t = sx(y, w); bool r;
		switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
		case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; default: r = s <= t; }
		return Val((uint64_t)r);
	}
	Expr *x = toE(a, w), *y = toE(b, w);
	switch (p) {
	case CmpInst::ICMP_EQ: return Val(eEq(x, y)); case CmpInst::ICMP_NE: return Val(eNot(eEq(x, y)));
	case CmpInst::ICMP_UGT: return Val(eBin(ULT, y, x)); case CmpInst::ICMP_UGE: return Val(eBin(ULE, y, x)); case CmpInst::ICMP_ULT: return Val(eBin(ULT, x, y)); case CmpInst::ICMP_ULE: return Val(eBin(ULE, x, y));
	case CmpInst::ICMP_SGT: return Val(eBin(SLT, y, x)); case CmpInst::ICMP_SGE: return Val(eBin(SLE, y, x)); case CmpInst::ICMP_SLT: return Val(eBin(SLT, x, y)); default: return Val(eBin(SLE, x, y));
	}
}
Val fcmp(CmpInst::Predicate p, Expr* a, Expr* b) {
	auto O = [&](Expr* e) { return e; }; Expr* uno = eFCmp(FUNO, a, b);
	auto ord = [&](Expr* e) { return Val(O(e)); }; auto un = [&](Expr* e) { return Val(eOr(uno, e)); };
	switch (p) {
	case CmpInst::FCMP_FALSE: return Val((uint64_t)0); case CmpInst::FCMP_TRUE: return Val((uint64_t)1);
	case CmpInst::FCMP_OEQ: return ord(eFCmp(FEQ, a, b)); case CmpInst::FCMP_OLT: return ord(eFCmp(FLT, a, b)); case CmpInst::FCMP_OLE: return ord(eFCmp(FLE, a, b));
	case CmpInst::FCMP_OGT: return ord(eFCmp(FLT, b, a)); case CmpInst::FCMP_OGE: return ord(eFCmp(FLE, b, a));
	case CmpInst::FCMP_ONE: return Val(eAnd(eNot(uno), eNot(eFCmp(FEQ, a, b))));
	case CmpInst::FCMP_ORD: return Val(eNot(uno)); case CmpInst::FCMP_UNO: return Val(uno);
	case CmpInst::FCMP_UEQ: return un(eFCmp(FEQ, a, b));
	case CmpInst::FCMP_UNE: return Val(eNot(eFCmp(FEQ, a, b)));
	case CmpInst::FCMP_ULT: return g_real ? Val(eFCmp(FLT, a, b)) : Val(eNot(eFCmp(FLE, b, a))); case CmpInst::FCMP_ULE: return g_real ? Val(eFCmp(FLE, a, b)) : Val(eNot(eFCmp(FLT, b, a)));
	case CmpInst::FCMP_UGT: return g_real ? Val(eFCmp(FLT, b, a)) : Val(eNot(eFCmp(FLE, a, b))); case CmpInst::FCMP_UGE: return g_real ? Val(eFCmp(FLE, b, a)) : Val(eNot(eFCmp(FLT, a, b)));
	default: unsup("fcmp");
	}
}
Val binop(BinaryOperator* b, const Val& x, const Val& y, Type* et) {
	unsigned w = bw(et);
	switch (b->getOpcode()) {
	case Instruction::FAdd: return Val(eF2(FADD, toF(x, w), toF(y, w))); case Instruction::FSub: return Val(eF2(FSUB, toF(x, w), toF(y, w)));
	case Instruction::FMul: return Val(eF2(FMUL, toF(x, w), toF(y, w))); case Instruction::FDiv: if (et->isX86_FP80Ty() && !x.e && !y.e) return Val(d2bits(bits2d(x.c, 64) / bits2d(y.c, 64), 64)); return Val(eF2(FDIV, toF(x, w), toF(y, w)));
	case Instruction::FRem: unsup("frem");
	default: break;
	}
	Op op;
	switch (b->getOpcode()) {
	case Instruction::Add: op = ADD; break; case Instruction::Sub: op = SUB; break; case Instruction::Mul: op = MUL; break;
	case Instruction::UDiv: op = UDIV; break; case Instruction::SDiv: op = SDIV; break; case Instruction::URem: op = UREM; break; case Instruction::SRem: op = SREM; break;
	case Instruction::And: op = AND; break; case Instruction::Or: op = OR; break; case Instruction::Xor: op = XOR; break;
	case Instruction::Shl: op = SHL; break; case Instruction::LShr: op = LSHR; break; case Instruction::AShr: op = ASHR; break; default: unsup("binop");
	}
	if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
		Expr* z = eNot(eEq(toE(y, w), mkConst(w, 0)));
		if (!(z->op == CONST && z->c)) require(z, "divzero", "integer division by zero");
	}
	if (!x.e && !y.e && w <= 64) {
		uint64_t m = maskw(w), a = x.c & m, c = y.c & m;
		switch (op) { case ADD: return Val((a + c) & m); case SUB: return Val((a - c) & m); case MUL: return Val((a * c) & m); case AND: return Val(a & c); case OR: return Val(a | c); case XOR: return Val(a ^ c); default: break; }
	}
	if (g_real && (op == AND || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR) && ((x.e && x.e->op == FBITS) || (y.e && y.e->op == FBITS))) {
		// sign-bit tricks on numbers
		Expr* fe = x.e && x.e->op == FBITS ? x.e->k[0] : nullptr;
		if (fe && !y.e) {
			if (op == XOR && y.c == (1ull << (w - 1))) return Val(eFBits(eF1(FNEG, fe)));
			if (op == AND && y.c == maskw(w - 1)) return Val(eFBits(eF1(FABS, fe)));
			if (op == LSHR && y.c == w - 1) return Val(eZext(eFCmp(FLT, fe, mkFConst(w, 0)), w));
			if (op == AND && y.c == (1ull << (w - 1))) return Val(eIte(eFCmp(FLT, fe, mkFConst(w, 0)), mkConst(w, y.c), mkConst(w, 0)));
		}
	}
	return Val(eBin(op, toE(x, w), toE(y, w)));
}
Val castV(CastInst* c, const Val& v) {
	Type *st = c->getSrcTy(), *dt = c->getDestTy();
	if (c->getOpcode() == Instruction::BitCast) {
		if (st == dt) return v;
		if (v.agg || dt->isVectorTy()) return bitcastV(v, st, dt);
		unsigned w = bw(st);
		if (fpT(st) && !fpT(dt)) return v.e ? Val(eFBits(v.e)) : v;
		if (!fpT(st) && fpT(dt)) return v.e ? Val(eBitsF(v.e)) : v;
		(void)w; return v;
	}
	if (st->isVectorTy()) { Val r; r.agg = std::make_shared<std::vector<Val>>(); Type *se = cast<VectorType>(st)->getElementType(), *de = cast<VectorType>(dt)->getElementType(); for (auto& x : *v.agg) r.agg->push_back(cast1(c->getOpcode(), x, se, de)); return r; }
	return cast1(c->getOpcode(), v, st, dt);
}
Val cast1(Instruction::CastOps op, const Val& v, Type* st, Type* dt) {
	unsigned sw = bw(st), dw = bw(dt);
	switch (op) {
	case Instruction::Trunc: if (v.e) return Val(eExtract(v.e, 0, dw)); return Val(v.c & maskw(dw));
	case Instruction::ZExt: if (v.e || dw > 64) return Val(eZext(toE(v, sw), dw)); return Val(v.c & maskw(sw));
	case Instruction::SExt: if (v.e || dw > 64) return Val(eSext(toE(v, sw), dw)); return Val((uint64_t)sx(v.c & maskw(sw), sw) & maskw(dw));
	case Instruction::PtrToInt: case Instruction::IntToPtr: if (v.e) return Val(dw < sw ? eExtract(v.e, 0, dw) : eZext(v.e, dw)); return Val(v.c & maskw(dw));
	case Instruction::FPExt: case Instruction::FPTrunc: return Val(eFConv(toF(v, sw), dw));
	case Instruction::SIToFP: case Instruction::UIToFP: {
		bool sg = op == Instruction::SIToFP; uint64_t x;
		if (v.e) {
			if (v.e->op == ZEXT && v.e->k[0]->w == 1) return Val(eIte(v.e->k[0], mkFConst(dw, d2bits(1, dw)), mkFConst(dw, 0)));
			if (v.e->op == ITE && v.e->k[1]->op == CONST && v.e->k[2]->op == CONST) { auto cv = [&](uint64_t b) { return mkFConst(dw, d2bits(sg ? (double)sx(b, sw) : (double)b, dw)); }; return Val(eIte(v.e->k[0], cv(v.e->k[1]->c), cv(v.e->k[2]->c))); }
			if (sw == 1) return Val(eIte(v.e, mkFConst(dw, d2bits(sg ? -1 : 1, dw)), mkFConst(dw, 0)));
			if (!g_real) return Val(mk(sg ? SITOF : UITOF, dw, true, v.e));
			{ Expr* o; int64_t lo, hi; if (smallInt(v.e, dw, o, lo, hi, 0) && (sg || lo >= 0)) return Val(o); }
			x = concretize(v, sw, "integer converted to a number", 64);
		} else x = v.c & maskw(sw);
		double d; if (dw == 32) d = sg ? (float)sx(x, sw) : (float)x; else d = sg ? (double)sx(x, sw) : (double)x;
		return Val(d2bits(d, dw));
	}
	case Instruction::FPToSI: case Instruction::FPToUI: {
		bool sg = op == Instruction::FPToSI;
		if (!v.e) { double d = bits2d(v.c, sw); return Val((sg ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(dw)); }
		// numbers that are choices between constants convert choice by choice
		if (v.e->op == FITE && v.e->k[1]->op == FCONST && v.e->k[2]->op == FCONST) { auto cv = [&](Expr* k) { double d = bits2d(k->c, sw); return mkConst(dw, (sg ? (uint64_t)(int64_t)d : (uint64_t)d)); }; return Val(eIte(v.e->k[0], cv(v.e->k[1]), cv(v.e->k[2]))); }
		return Val(mk(sg ? FTOSI : FTOUI, dw, false, v.e));
	}
	default: unsup("cast");
	}
}
// a small integer built from conditions by additions and choices, as a number (no wrap-around within the bounds lo..hi)
bool smallInt(Expr* e, unsigned dw, Expr*& o, int64_t& lo, int64_t& hi, int depth) {
	if (depth > 24) return false;
	auto num = [&](int64_t v) { return mkFConst(dw, d2bits((double)v, dw)); };
	const int64_t L = 1ll << 50; auto fits = [&](int64_t l, int64_t h, unsigned w) { int64_t m = w >= 52 ? L : (1ll << (w - 1)) - 1; return l >= -m && h <= m; }; Expr *a, *b; int64_t al, ah, bl, bh;
	switch (e->op) {
	case CONST: lo = hi = sx(e->c, e->w); if (lo < -L || lo > L) return false; o = num(lo); return true;
	case ZEXT: case SEXT: if (e->k[0]->w == 1) { int64_t t = e->op == ZEXT ? 1 : -1; o = eIte(e->k[0], num(t), num(0)); lo = t < 0 ? -1 : 0; hi = t < 0 ? 0 : 1; return true; }
		if (!smallInt(e->k[0], dw, o, lo, hi, depth + 1)) return false; return e->op == SEXT || lo >= 0;
	case ITE: if (!smallInt(e->k[1], dw, a, al, ah, depth + 1) || !smallInt(e->k[2], dw, b, bl, bh, depth + 1)) return false; o = eIte(e->k[0], a, b); lo = std::min(al, bl); hi = std::max(ah, bh); return true;
	case ADD: case SUB: if (!smallInt(e->k[0], dw, a, al, ah, depth + 1) || !smallInt(e->k[1], dw, b, bl, bh, depth + 1)) return false; o = eF2(e->op == ADD ? FADD : FSUB, a, b); lo = e->op == ADD ? al + bl : al - bh; hi = e->op == ADD ? ah + bh : ah - bl; return fits(lo, hi, e->w);
	case MUL: { if (!smallInt(e->k[0], dw, a, al, ah, depth + 1) || !smallInt(e->k[1], dw, b, bl, bh, depth + 1)) return false; o = eF2(FMUL, a, b); __int128 q[4] = { (__int128)al * bl, (__int128)al * bh, (__int128)ah * bl, (__int128)ah * bh }; __int128 l = q[0], h = q[0]; for (auto x : q) { l = std::min(l, x); h = std::max(h, x); } if (l < -L || h > L) return false; lo = (int64_t)l; hi = (int64_t)h; return fits(lo, hi, e->w); }
	case SHL: { if (e->k[1]->op != CONST || e->k[1]->c > 20 || !smallInt(e->k[0], dw, a, al, ah, depth + 1)) return false; int64_t f = 1ll << e->k[1]->c; o = eF2(FMUL, a, num(f)); if (al < -(L / f) || ah > L / f) return false; lo = al * f; hi = ah * f; return fits(lo, hi, e->w); }
	case EXTRACT: if (e->c || !smallInt(e->k[0], dw, o, lo, hi, depth + 1)) return false; return fits(lo, hi, e->w);
	case SYM: { auto& si = g_syms[e->c]; if (!si.input || si.lo < -L || si.hi > L || e->w < 8) return false; lo = si.lo; hi = si.hi; o = mk(SITOF, dw, true, e); return true; }
	default: return false;
	}
}
Val bitcastV(const Val& v, Type* st, Type* dt) {
	// through bytes of a scalar
	auto flat = [&](const Val& x, Type* t, std::vector<std::pair<Expr*, unsigned>>& o) { if (t->isVectorTy()) { Type* et = cast<VectorType>(t)->getElementType(); for (auto& y : *x.agg) { unsigned w = bw(et); o.push_back({ fpT(et) ? eFBits(toF(y, w)) : toE(y, w), w }); } } else { unsigned w = bw(t); o.push_back({ fpT(t) ? eFBits(toF(x, w)) : toE(x, w), w }); } };
	std::vector<std::pair<Expr*, unsigned>> p; flat(v, st, p);
	Expr* all = nullptr; for (auto& x : p) all = all ? eConcat(x.first, all) : x.first;
	if (!dt->isVectorTy()) return fpT(dt) ? Val(eBitsF(all)) : Val(all);
	Val r; r.agg = std::make_shared<std::vector<Val>>(); Type* et = cast<VectorType>(dt)->getElementType(); unsigned w = bw(et), n = cast<FixedVectorType>(dt)->getNumElements();
	for (unsigned i = 0; i < n; ++i) { Expr* e = eExtract(all, i * w, w); r.agg->push_back(fpT(et) ? Val(eBitsF(e)) : Val(e)); } return r;
}
