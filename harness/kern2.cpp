// Data movement (extraction, masks, transposition), binarization and counting, element-wise arithmetic.
//@small
#include "kern.h"
#include "blas.h"
static void symAny(M& m, const char* n) { for (vl j = 0; j < m.cols_no_bias(); ++j) for (vl i = 0; i < m.rows_no_bias(); ++i) E(m, i, j) = vs_f64_any(n); }
static void same(const M& m, const Cp& c, const char* l) { vs_assert(m.rows() == c.r && m.cols() == c.c, "shape unchanged"); for (size_t i = 0; i < c.n; ++i) vs_assert(sameBits(m.begin()[i], c.v[i]), l); }
// ------------------------------------------------------------------------------------------------ C11: binarize and count
//@ prop=C11 entry=h_binarize reach=binarize
//@bounds matrices 1..3 x 1..3 with and without biases, any double (NaN included), any threshold, every variant
extern "C" void h_binarize() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 3); int w = (int)vs_choose("op", 6); bool bias = vs_choose("bias", 2); M A(r, c, bias); symAny(A, "a"); R f = vs_num<R>("f"); Cp ca(A);
	if (w < 3) { R lo = vs_num<R>("lo"), hi = vs_num<R>("hi"); if (w == 0) iM.ewBinarize_ip(A, f, lo, hi); else if (w == 1) iM.ewBinarize_ip_st(A, f, lo, hi); else iM.ewBinarize_ip_mt(A, f, lo, hi); for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) vs_assert(sameBits(E(A, i, j), ca(i, j) > f ? hi : lo), "an element becomes the upper bound iff it exceeds the threshold"); if (bias) for (vl i = 0; i < r; ++i) vs_assert(E(A, i, c) == 1., "biases stay"); }
	else { smatrix<char> D(r, c); D.fill(7); if (w == 3) iM.ewBinarize(D, A, f); else if (w == 4) iM.ewBinarize_st(D, A, f); else iM.ewBinarize_mt(D, A, f); for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) vs_assert(D.begin()[j * r + i] == (ca(i, j) > f ? 1 : 0), "one iff the element exceeds the threshold"); same(A, ca, "source unchanged"); }
	vs_reach("binarize");
}
//@ prop=C11 entry=h_binbatch reach=batch
//@bounds source 1..3 x 1..3, destination 1..5 rows, every starting row, any double, with and without biases, every variant, any part of the source
extern "C" void h_binbatch() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 3), above = vs_pick("above", 0, 1), below = vs_pick("below", 0, 1); int w = (int)vs_choose("op", 4); bool bs = vs_choose("bs", 2); M A(r, c, bs); symAny(A, "a"); R f = vs_num<R>("f"); smatrix<char> D(r + above + below, c); nc eb = 0, ee = (nc)r * c; if (w == 3) eb = (nc)vs_choose("from", ee), ee = eb + 1 + (nc)vs_choose("len", ee - eb); D.fill(7); Cp ca(A);
	if (w == 0) iM.ewBinarizeBatch(D, above, A, f); else if (w == 1) iM.ewBinarizeBatch_st(D, above, A, f); else if (w == 3) { IM::elms_range er(eb, ee); iM.ewBinarizeBatch_st(D, above, A, f, &er); } else iM.ewBinarizeBatch_mt(D, above, A, f);
	for (vl j = 0; j < c; ++j) for (vl i = 0; i < D.rows(); ++i) { char d = D.begin()[j * D.rows() + i]; nc k = (nc)j * r + i - above; if (i < above || i >= above + r || k < eb || k >= ee) vs_assert(d == 7, "elements outside of the batch stay"); else vs_assert(d == (ca(i - above, j) > f ? 1 : 0), "batch rows are binarized"); } same(A, ca, "source unchanged"); vs_reach("batch");
}
//@ prop=C11 entry=h_count reach=count
//@bounds vectors of 1..5 elements, any double (signed zeros included), any offset
extern "C" void h_count() {
	vs_set_threads(3); IM iM; int w = (int)vs_choose("op", 5); nc n = vs_pick("n", 1, 5);
	if (w < 2) { R v[8]; int e = 0; for (nc i = 0; i < n; ++i) { v[i] = w ? vs_f64_any("v") : vs_num<R>("v"); uint64_t u; memcpy(&u, &v[i], 8); e += w ? u != 0 : v[i] != 0; } vs_assert((w ? iM.vCountNonZerosStrict(v, n) : iM.vCountNonZeros(v, n)) == e, "number of elements that are not zero"); }
	else if (w < 4) { vl ofs = vs_pick("ofs", 0, 2); std::vector<vl> A((size_t)n + ofs), B((size_t)n); int e = 0; for (auto& x : A) x = vs_int("a", -2, 2); for (nc i = 0; i < n; ++i) { B[i] = vs_int("b", -2, 2); e += A[i + ofs] == B[i]; } vs_assert((w == 2 ? iM.vCountSame(A, B, ofs) : iM.vCountSame_mt_naive(A, B, ofs)) == e, "number of positions where both vectors agree"); }
	else { vl r = vs_pick("r", 1, 2), c = vs_pick("c", 1, 3), ofs = vs_pick("ofs", 0, 1), more = vs_pick("more", 0, 1); smatrix<char> A(r + ofs + more, c), B(r, c); int e = 0; for (nc i = 0; i < A.numel(); ++i) A.begin()[i] = (char)vs_int("a", 0, 1); for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) { B.begin()[j * r + i] = (char)vs_int("b", 0, 1); e += A.begin()[j * A.rows() + i + ofs] == B.begin()[j * r + i]; } vs_assert(iM.vCountSameBatch(A, ofs, B) == e, "number of agreeing elements of a batch"); }
	vs_reach("count");
}
// ------------------------------------------------------------------------------------------------ C12: extraction, masks
//@ prop=C12 entry=h_extract reach=extract
//@bounds source up to 3 samples of 1..3 elements, 1..3 extracted samples, any (repeating) index sequence, with and without biases, both layouts, any bit patterns, every variant
extern "C" void h_extract() {
	vs_set_threads(3); IM iM; int w = (int)vs_choose("op", 8); bool bir = w == 0 || (w >= 5 && w < 8); vl n = vs_pick("n", 1, 3), s = vs_pick("s", 1, 3), k = vs_pick("k", 1, bir ? 3 : n); bool bias = vs_choose("bias", 2);
	M A(bir ? s : n, bir ? n : s, bias, bir), D(bir ? s : k, bir ? k : s, bias, bir); symAny(A, "a"); if (bias && bir) { A.fill_bias_row(); D.fill_bias_row(); } for (vl j = 0; j < D.cols_no_bias(); ++j) for (vl i = 0; i < D.rows_no_bias(); ++i) E(D, i, j) = 7; vl ix[4]; for (vl q = 0; q < k; ++q) ix[q] = vs_pick("ix", 0, n - 1); const vl* it = ix; Cp ca(A);
	switch (w) { case 0: case 1: iM.mExtractBatches(A, it, D); break; case 2: iM.mExtractRows(A, it, D); break; case 3: iM.mExtractRows_seqWrite_st(A, it, D); break; case 4: iM.mExtractRows_seqWrite_mt(A, it, D); break; case 5: iM.mExtractCols(A, it, D); break; case 6: iM.mExtractCols_st(A, it, D); break; default: iM.mExtractCols_mt(A, it, D); }
	for (vl q = 0; q < k; ++q) for (vl e = 0; e < s; ++e) vs_assert(bir ? sameBits(E(D, e, q), ca(e, ix[q])) : sameBits(E(D, q, e), ca(ix[q], e)), "sample q is the sample the index names"); same(A, ca, "source unchanged"); vs_assert(!bias || D.test_biases_strict(), "biases of the destination are kept"); vs_reach("extract");
}
//@ prop=C12 entry=h_mask reach=mask
//@bounds 1..3 rows x 1..4 columns, every mask with at least one set row, with and without biases, any bit patterns, every variant
extern "C" void h_mask() {
	vs_set_threads(3); IM iM; int w = (int)vs_choose("op", 9); vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 4); bool ext = w < 3; 
	if (w >= 6) { bool bias = vs_choose("bias", 2); vl ofs = vs_pick("ofs", 0, r - 1), k = vs_pick("k", 1, r - ofs); M A(r, c, bias), D(k, c, bias); symAny(A, "a"); for (vl j = 0; j < c; ++j) for (vl i = 0; i < k; ++i) E(D, i, j) = 7; Cp ca(A); if (w == 6) iM.mExtractRowsSeq(A, ofs, D); else if (w == 7) iM.mExtractRowsSeq_st(A, ofs, D); else iM.mExtractRowsSeq_mt(A, ofs, D); for (vl j = 0; j < c; ++j) for (vl i = 0; i < k; ++i) vs_assert(sameBits(E(D, i, j), ca(i + ofs, j)), "consecutive rows are extracted"); same(A, ca, "source unchanged"); vs_assert(!bias || D.test_biases_strict(), "biases kept"); vs_reach("mask"); return; }
	bool bb = vs_choose("bigbias", 2), sb = vs_choose("smallbias", 2); R m[4]; vl pos[4], k = 0; for (vl i = 0; i < r; ++i) { bool on = vs_choose("m", 2); m[i] = on ? 1. : 0.; pos[i] = on ? k++ : -1; } if (!k) return; M Big(r, c, bb), Sm(k, c, sb); symAny(Big, "b"); symAny(Sm, "s"); Cp cb(Big), cs(Sm);
	switch (w) { case 0: iM.mExtractRowsByMask(Big, m, Sm); break; case 1: iM.mExtractRowsByMask_st(Big, m, Sm); break; case 2: iM.mExtractRowsByMask_mt(Big, m, Sm); break; case 3: iM.mFillRowsByMask(Sm, m, Big); break; case 4: iM.mFillRowsByMask_st(Sm, m, Big); break; default: iM.mFillRowsByMask_mt(Sm, m, Big); }
	for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) { if (ext) { if (pos[i] >= 0) vs_assert(sameBits(E(Sm, pos[i], j), cb(i, j)), "rows with a set mask are extracted in order"); } else vs_assert(sameBits(E(Big, i, j), pos[i] >= 0 ? cs(pos[i], j) : 0.), "rows with a set mask are filled in order, the others are zeroed"); }
	if (ext) same(Big, cb, "source unchanged"); else same(Sm, cs, "source unchanged"); if (bb) for (vl i = 0; i < r; ++i) vs_assert(E(Big, i, c) == 1., "biases kept"); if (sb) for (vl i = 0; i < k; ++i) vs_assert(E(Sm, i, c) == 1., "biases kept"); vs_reach("mask");
}
//@ prop=C12 entry=h_transp reach=transp
//@bounds matrices 1..3 x 1..4, biases in either layout, any bit patterns, out of place (every variant) and in place
extern "C" void h_transp() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 4); int w = (int)vs_choose("op", 6);
	if (w == 5) { bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2); smatrix_deform<R> A(r, c, bias, bir); if (bias && bir) A.fill_bias_row(); symAny(A, "a"); Cp ca(A); R* p = A.data(); IM::s_mTranspose_ip(A); vs_assert(A.data() == p && A.rows() == ca.c && A.cols() == ca.r && A.emulatesBiases() == bias && A.bBatchInRow() == !bir, "shape and layout are transposed in place"); for (vl j = 0; j < ca.c; ++j) for (vl i = 0; i < ca.r; ++i) vs_assert(sameBits(E(A, j, i), ca(i, j)), "element (i,j) becomes (j,i)"); vs_reach("transp"); return; }
	bool ign = w >= 2 || vs_choose("ign", 2); bool sb = vs_choose("sb", 2), sr = vs_choose("sr", 2), db = ign ? (bool)vs_choose("db", 2) : sb, dr = ign ? (bool)vs_choose("dr", 2) : !sr; M A(r, c, sb, sr), D(c, r, db, dr); if (sb && sr) A.fill_bias_row(); if (db && dr) D.fill_bias_row(); symAny(A, "a"); for (vl j = 0; j < r; ++j) for (vl i = 0; i < c; ++i) E(D, i, j) = 7; Cp ca(A);
	if (w < 2) iM.mTranspose(A, D, ign); else if (w == 2) iM.mTranspose_ignore_bias(A, D); else if (w == 3) iM.mTranspose_seq_read(A, D, true); else iM.mTranspose_seq_write(A, D, true);
	for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) vs_assert(sameBits(E(D, j, i), ca(i, j)), "element (i,j) goes to (j,i)"); same(A, ca, "source unchanged"); if (db) vs_assert(D.test_biases_strict(), "biases of the destination are in place"); vs_reach("transp");
}
// ------------------------------------------------------------------------------------------------ C13: element-wise arithmetic
static bool isBias(const M& m, vl i, vl j) { return m.emulatesBiases() && (m.bBatchInRow() ? i == m.rows() - 1 : j == m.cols() - 1); }
//@ prop=C13 entry=h_scale mode=real reach=scale
//@bounds matrices 1..3 x 1..3 without biases or with biases in either layout, any real contents and constants, every variant
extern "C" void h_scale() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 3); int w = (int)vs_choose("op", 15); bool bias = w < 12 && vs_choose("bias", 2), bir = bias && vs_choose("bir", 2); M A(r, c, bias, bir); if (bir) A.fill_bias_row(); sym(A, "a"); if (bir) A.fill_bias_row(); R s = vs_num<R>("s"), o = vs_num<R>("o"); vs_assume(s != 0); Cp ca(A); bool ib = bias || vs_choose("ib", 2);
	switch (w) { case 0: iM.evMulCAddC_ip(A, s, o, ib); break; case 1: iM.evMulCAddC_ip_st(A, s, o, ib); break; case 2: iM.evMulCAddC_ip_mt(A, s, o, ib); break; case 3: iM.evMulCAddC_ip_nb(A, s, o); break;
	case 4: iM.evMulC_ip(A, s, ib); break; case 5: iM.evMulC_ip_st(A, s, ib); break; case 6: iM.evMulC_ip_mt(A, s, ib); break; case 7: iM.evMulC_ip_nb(A, s); break;
	case 8: iM.evAddC_ip(A, o, ib); break; case 9: iM.evAddC_ip_st(A, o, ib); break; case 10: iM.evAddC_ip_mt(A, o, ib); break; case 11: iM.evAddC_ip_nb(A, o); break;
	case 12: iM.evMulC_ip(A.data(), A.numel(), s); break; case 13: iM.evMulC_ip_st(A.data(), A.numel(), s); break; default: iM.evMulC_ip_mt(A.data(), A.numel(), s); }
	for (vl j = 0; j < A.cols(); ++j) for (vl i = 0; i < A.rows(); ++i) { R a = ca(i, j); eqR(E(A, i, j), isBias(A, i, j) ? 1. : w < 4 ? s * a + o : w < 8 || w >= 12 ? s * a : a + o, "every data element is scaled and shifted, biases stay"); } vs_reach("scale");
}
//@ prop=C13 entry=h_binop mode=real reach=binop
//@bounds matrices 1..3 x 1..3, any real contents and constants, every variant
extern "C" void h_binop() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 3); int w = (int)vs_choose("op", 33); bool nb = (w >= 3 && w < 6) || (w >= 9 && w < 12) || (w >= 15 && w < 18), bias = nb && vs_choose("bias", 2); M A(r, c, bias), B(r, c), C(r, c); sym(A, "a"); sym(B, "b"); R k = vs_num<R>("k"); vs_assume(k != 0); Cp ca(A), cb(B); C.fill(7);
	switch (w) { case 0: iM.evMul_ip(A, B); break; case 1: iM.evMul_ip_st(A, B); break; case 2: iM.evMul_ip_mt(A, B); break; case 3: iM.evMul_ip_Anb(A, B); break; case 4: iM.evMul_ip_Anb_st(A, B); break; case 5: iM.evMul_ip_Anb_mt(A, B); break;
	case 6: iM.evAdd_ip(A, B); break; case 7: iM.evAdd_ip_st(A, B); break; case 8: iM.evAdd_ip_mt(A, B); break; case 9: iM.evAdd_Anb_ip(A, B); break; case 10: iM.evAdd_Anb_ip_st(A, B); break; case 11: iM.evAdd_Anb_ip_mt(A, B); break;
	case 12: iM.vAdd_ip(A.data(), B.data(), A.numel()); break; case 13: iM.vAdd_ip_st(A.data(), B.data(), A.numel()); break; case 14: iM.vAdd_ip_mt(A.data(), B.data(), A.numel()); break;
	case 15: iM.evSubMtxMulC_ip_nb(A, B, k); break; case 16: iM.evSubMtxMulC_ip_nb_st(A, B, k); break; case 17: iM.evSubMtxMulC_ip_nb_mt(A, B, k); break;
	case 18: iM.evAddScaled_ip(A, k, B); break; case 19: iM.evAddScaled_ip_st(A, k, B); break; case 20: iM.evAddScaled_ip_mt(A, k, B); break;
	case 21: iM.evSub_ip(A, B); break; case 22: iM.evSub_ip_st_naive(A, B); break; case 23: iM.evSub_ip_mt_naive(A, B); break; case 24: iM.evSub(A, B, C); break; case 25: iM.evSub_st_naive(A, B, C); break; case 26: iM.evSub_mt_naive(A, B, C); break;
	case 27: iM.evMulC_ip_Sub_ip(A, k, B); break; case 28: iM.evMulC_ip_Sub_ip_st(A, k, B); break; case 29: iM.evMulC_ip_Sub_ip_mt(A, k, B); break; case 30: iM.apply_momentum(A, k, B); break; case 31: iM.apply_momentum_st(A, k, B); break; default: iM.apply_momentum_mt(A, k, B); }
	for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) { R a = ca(i, j), b = cb(i, j), x = E(A, i, j), y = E(B, i, j);
		if (w < 6) eqR(x, a * b, "product"); else if (w < 15) eqR(x, a + b, "sum"); else if (w < 18) eqR(x, (a - b) * k, "scaled difference"); else if (w < 21) eqR(x, a + k * b, "scaled sum"); else if (w < 24) eqR(x, a - b, "difference"); else if (w < 27) { eqR(x, a, "unchanged"); eqR(E(C, i, j), a - b, "difference"); } else if (w < 30) { eqR(x, a * k, "velocity is scaled"); eqR(y, b - a * k, "velocity is subtracted"); } else eqR(x, k * a + b, "momentum");
		if (w < 27 || w >= 30) eqR(y, b, "second operand unchanged"); } if (bias) for (vl i = 0; i < r; ++i) eqR(E(A, i, c), 1., "biases stay"); vs_reach("binop");
}
//@ prop=C13 entry=h_unop mode=real reach=unop
//@bounds matrices 1..3 x 1..3 (1x1, 2x2 and 1x5 for clamping, complements and the nonzero-only sums), any real contents and constants, every variant
extern "C" void h_unop() {
	vs_set_threads(3); IM iM; int w = (int)vs_choose("op", 27); bool fk = w < 6 || (w >= 18 && w < 24); int sh = fk ? (int)vs_choose("shape", 3) : 0; vl r = fk ? (sh == 1 ? 2 : 1) : vs_pick("r", 1, 3), c = fk ? (sh == 0 ? 1 : sh == 1 ? 2 : 5) : vs_pick("c", 1, 3); bool bias = w >= 21 && w < 24 && vs_choose("bias", 2), bias2 = w >= 21 && w < 24 && vs_choose("bias2", 2); M A(r, c, bias), B(r, c, bias2); sym(A, "a"); sym(B, "b"); R k = vs_num<R>("k"), h = vs_num<R>("h"); vs_assume(k != 0); if (w >= 18 && w < 21) vs_assume(k < h); if (w < 6) for (nc i = 0; i < A.numel(); ++i) if (vs_choose("zero", 2)) A.begin()[i] = 0; if (w >= 21 && w < 24) for (nc i = 0; i < A.numel_no_bias(); ++i) A.begin()[i] = vs_choose("one", 2) ? 1. : 0.; Cp ca(A), cb(B); R s = 0;
	switch (w) { case 0: iM.evNZAddScaled_ip(A, k, B); break; case 1: iM.evNZAddScaled_ip_st(A, k, B); break; case 2: iM.evNZAddScaled_ip_mt(A, k, B); break; case 3: iM.evNZAddScaledSign_ip(A, k, B); break; case 4: iM.evNZAddScaledSign_ip_st(A, k, B); break; case 5: iM.evNZAddScaledSign_ip_mt(A, k, B); break;
	case 6: iM.evAddScaledSign_ip(A, k, B); break; case 7: iM.evAddScaledSign_ip_st(A, k, B); break; case 8: iM.evAddScaledSign_ip_mt(A, k, B); break; case 9: iM.evSign(A, B); break; case 10: iM.evSign_st(A, B); break; case 11: iM.evSign_mt(A, B); break;
	case 12: iM.evSquare(A, B); break; case 13: iM.evSquare_st(A, B); break; case 14: iM.evSquare_mt(A, B); break; case 15: iM.evAbs(A, B); break; case 16: iM.evAbs_st(A, B); break; case 17: iM.evAbs_mt(A, B); break;
	case 18: iM.evClamp(A, k, h); break; case 19: iM.evClamp_st(A, k, h); break; case 20: iM.evClamp_mt(A, k, h); break; case 21: iM.evOneCompl(A, B); break; case 22: iM.evOneCompl_st(A, B); break; case 23: iM.evOneCompl_mt(A, B); break;
	case 24: s = iM.vSumAbs(A); break; case 25: s = iM.vSumAbs_st(A); break; default: s = iM.vSumAbs_mt(A); }
	R e = 0; for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) { R a = ca(i, j), b = cb(i, j), x = E(A, i, j), sg = (R)((b > 0) - (b < 0)); e += a < 0 ? -a : a;
		if (w < 3) eqR(x, a == 0 ? 0. : a + k * b, "scaled sum where nonzero"); else if (w < 6) eqR(x, a == 0 ? 0. : a + k * sg, "scaled sign where nonzero"); else if (w < 9) eqR(x, a + k * sg, "scaled sign added"); else if (w < 12) eqR(x, sg, "sign"); else if (w < 15) eqR(x, b * b, "square"); else if (w < 18) eqR(x, b < 0 ? -b : b, "absolute value"); else if (w < 21) eqR(x, a < k ? k : a > h ? h : a, "clamped"); else if (w < 24) { eqR(x, a, "unchanged"); eqR(E(B, i, j), 1 - a, "complement"); } else eqR(x, a, "unchanged"); if (w < 21) eqR(E(B, i, j), b, "second operand unchanged"); }
	if (w >= 24) eqR(s, e, "sum of absolute values"); if (bias) for (vl i = 0; i < r; ++i) eqR(E(A, i, c), 1., "biases stay"); if (bias2) for (vl i = 0; i < r; ++i) eqR(E(B, i, c), 1., "biases stay"); vs_reach("unop");
}
// ------------------------------------------------------------------------------------------------ C14: products
//@ prop=C14 entry=h_gemm mode=real reach=gemm
//@bounds all dimensions 1..3, any real contents, any scale
extern "C" void h_gemm() {
	vs_set_threads(2); vl m = vs_pick("m", 1, 3), n = vs_pick("n", 1, 3), k = vs_pick("k", 1, 3); int w = (int)vs_choose("op", 3); bool bias = w == 1 && vs_choose("bias", 2); R al = vs_num<R>("al"); vs_assume(al != 0);
	M A(w == 2 ? k : m, w == 2 ? m : k), B(w == 1 ? n : k, w == 1 ? k : n), C(m, n, bias); sym(A, "a"); sym(B, "b"); C.fill(7); if (bias) C.fill_bias_column(); Cp ca(A), cb(B);
	if (w == 0) IM::mMulAB_C(A, B, C); else if (w == 1) IM::mMulABt_Cnb(A, B, C); else IM::mScaledMulAtB_C(al, A, B, C);
	for (vl i = 0; i < m; ++i) for (vl j = 0; j < n; ++j) { R s = 0; for (vl q = 0; q < k; ++q) s += (w == 2 ? ca(q, i) : ca(i, q)) * (w == 1 ? cb(j, q) : cb(q, j)); eqR(E(C, i, j), w == 2 ? al * s : s, "matrix product"); } if (bias) for (vl i = 0; i < m; ++i) eqR(E(C, i, n), 1., "biases stay"); vs_reach("gemm");
}
//@ prop=C14 entry=h_layerprod mode=real reach=prod
//@bounds batches of 1..2 samples, 1..3 input and 1..3 output neurons, either layout of previous and current activations, any real contents
extern "C" void h_layerprod() {
	vs_set_threads(2); vl b = vs_pick("b", 1, 2), in = vs_pick("in", 1, 3), out = vs_pick("out", 1, 3); int w = (int)vs_choose("op", 3); bool pr = vs_choose("prevbir", 2), ar = w == 0 && vs_choose("actbir", 2), ab = w == 0 && vs_choose("actbias", 2); M P(pr ? in : b, pr ? b : in, w != 1, pr); if (pr && w != 1) P.fill_bias_row(); sym(P, "p"); if (pr && w != 1) P.fill_bias_row(); smatrix_deform<R> W(out, in + 1); sym(W, "w"); M A(ar ? out : b, ar ? b : out, ab, ar); sym(A, "z"); if (ar && ab) A.fill_bias_row(); Cp cp(P), cw(W), ca(A); R sc = vs_num<R>("sc"); vs_assume(sc != 0);
	auto prev = [&](vl s, vl i) { return i == in ? 1. : pr ? cp(i, s) : cp(s, i); };
	if (w == 0) { IM::mMul_prevAct_weights_2_act(P, W, A); for (vl s = 0; s < b; ++s) for (vl o = 0; o < out; ++o) { R e = 0; for (vl i = 0; i <= in; ++i) e += prev(s, i) * cw(o, i); eqR(ar ? E(A, o, s) : E(A, s, o), e, "each neuron is the weighted sum of its inputs plus its bias weight"); } if (ab) for (vl s = 0; s < b; ++s) eqR(ar ? E(A, out, s) : E(A, s, out), 1., "biases stay"); }
	else if (w == 1) { IM::mMul_dLdZ_weights_2_dLdAPrev(A, W, P); for (vl s = 0; s < b; ++s) for (vl i = 0; i < in; ++i) { R e = 0; for (vl o = 0; o < out; ++o) e += ca(s, o) * cw(o, i); eqR(pr ? E(P, i, s) : E(P, s, i), e, "the gradient of each input is the weighted sum of output gradients"); } vs_assert(W.cols() == in + 1 && W.rows() == out, "weights shape restored"); }
	else { M D(out, in + 1); D.fill(5); IM::mMulScaled_dLdZ_prevAct_2_dLdW(sc, A, P, D); for (vl o = 0; o < out; ++o) for (vl i = 0; i <= in; ++i) { R e = 0; for (vl s = 0; s < b; ++s) e += ca(s, o) * prev(s, i); eqR(E(D, o, i), sc * e, "weight gradient is the scaled sum over the batch"); } }
	for (nc i = 0; i < W.numel(); ++i) eqR(W.begin()[i], cw.v[i], "weights unchanged"); vs_reach("prod");
}
//@ prop=C14 entry=h_cov mode=real reach=cov
//@bounds matrices 1..3 x 1..3, any real contents, both triangles
extern "C" void h_cov() {
	vs_set_threads(2); vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 3); bool lower = vs_choose("lower", 2), tp = vs_choose("tp", 2); M A(r, c), C(c, c); sym(A, "a"); C.fill(7); if (!tp) IM::mColumnsCov(A, C, lower); else if (lower) IM::mColumnsCov<true>(A, C); else IM::mColumnsCov<false>(A, C);
	for (vl i = 0; i < c; ++i) for (vl j = 0; j < c; ++j) { if (lower ? i < j : i > j) { eqR(E(C, i, j), 7, "the other triangle is not touched"); continue; } R s = 0; for (vl q = 0; q < r; ++q) s += E(A, q, i) * E(A, q, j); eqR(E(C, i, j) * (R)r, s, "mean product of two columns"); } vs_reach("cov");
}
