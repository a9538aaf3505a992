// Kernels asked for a part of their data: that part gets what the whole would, the rest stays.
#include "kern.h"
#include "stdimpl.h"
typedef IM::elms_range ER; typedef IM::rowcol_range RC; typedef smatrix_deform<R> MD;
static void put(M& m, const Cp& c) { for (size_t i = 0; i < c.n; ++i) m.begin()[i] = c.v[i]; }
static ER part(nc n) { nc b = (nc)vs_choose("from", n), e = b + 1 + (nc)vs_choose("len", n - b); return ER(b, e); }
// two matrices of n elements; F works on the part of A (and changes nothing of B unless said so)
template<class F> static void ew(F&& f, bool biasA, bool biasB, bool both = false) {
	vl r = vs_pick("r", 2, 3), c = 2; M A(r, c, biasA), A2(r, c, biasA), B(r, c, biasB), B2(r, c, biasB); sym(A, "a"); sym(B, "b"); Cp a(A), b(B); put(A2, a); put(B2, b); nc n = (nc)r * c; ER er = part(n); f(A, B, nullptr); f(A2, B2, &er);
	for (size_t i = 0; i < a.n; ++i) eqR(A2.begin()[i], (nc)i >= er.elmBegin && (nc)i < er.elmEnd ? A.begin()[i] : a.v[i], "the part gets what it gets as a part of the whole, the rest stays"); for (size_t i = 0; i < b.n; ++i) eqR(B2.begin()[i], both ? (nc)i >= er.elmBegin && (nc)i < er.elmEnd ? B.begin()[i] : b.v[i] : b.v[i], "the other matrix"); vs_reach("part");
}
//@ prop=C34 entry=h_arith mode=real reach=part
//@bounds 16 element-wise operations over matrices of 2..3 x 2 elements, any contents and constants, every part of consecutive elements
extern "C" void h_arith() {
	vs_set_threads(2); IM iM; R k = vs_num<R>("k"), q = .5; auto nb = [](auto&& f) { ew(f, false, false); };
	switch (vs_choose("op", 16)) {
	case 0: nb([&](M& A, M& B, ER* e) { iM.evMul_ip_st(A, B, e); }); break;
	case 1: ew([&](M& A, M& B, ER* e) { iM.evMul_ip_Anb_st(A, B, e); }, true, false); break;
	case 2: nb([&](M& A, M& B, ER* e) { iM.evAdd_ip_st(A, B, e); }); break;
	case 3: ew([&](M& A, M& B, ER* e) { iM.evAdd_Anb_ip_st(A, B, e); }, true, false); break;
	case 4: nb([&](M& A, M& B, ER* e) { iM.evAddScaled_ip_st(A, k, B, e); }); break;
	case 5: nb([&](M& A, M& B, ER* e) { iM.evNZAddScaled_ip_st(A, k, B, e); }); break;
	case 6: nb([&](M& A, M& B, ER* e) { iM.evAddScaledSign_ip_st(A, k, B, e); }); break;
	case 7: nb([&](M& A, M& B, ER* e) { iM.evNZAddScaledSign_ip_st(A, k, B, e); }); break;
	case 8: nb([&](M& A, M& B, ER* e) { iM.evSign_st(A, B, e); }); break;
	case 9: ew([&](M& A, M& B, ER* e) { iM.evSubMtxMulC_ip_nb_st(A, B, k, e); }, vs_choose("bias", 2), false); break;
	case 10: nb([&](M& A, M& B, ER* e) { iM.vAdd_ip_st(A.data(), B.data(), A.numel(), e); }); break;
	case 11: ew([&](M& A, M& B, ER* e) { iM.ewBinarize_ip_st(A, k, -1., 2., e); }, vs_choose("bias", 2), false); break;
	case 12: nb([&](M& A, M& B, ER* e) { iM.ewBinarize_st(A, B, k, e); }); break;
	case 13: ew([&](M& A, M& B, ER* e) { for (vl j = 0; j < 2; ++j) for (vl i = 0; i < A.rows(); ++i) vs_assume(E(B, i, j) >= 0 && E(B, i, j) < 1); iM.make_dropout_st(A, q, B, e); }, true, false, true); break;
	case 14: ew([&](M& A, M& B, ER* e) { iM.apply_dropout_mask_st(A, q, B, e); }, false, false); break;
	default: ew([&](M& A, M& B, ER* e) { for (vl j = 0; j < 2; ++j) for (vl i = 0; i < A.rows(); ++i) vs_assume(E(B, i, j) >= 0 && E(B, i, j) < 1); iM.make_alphaDropout_st(A, q, 1.25, .5, -.75, B, e); }, true, false, true); }
}
//@ prop=C34 entry=h_act mode=real reach=part
//@bounds 43 activation functions, derivatives and loss derivatives over matrices of 2..3 x 2 elements, any contents, every part of consecutive elements
extern "C" void h_act() {
	vs_set_threads(2); IM iM; int w = (int)vs_choose("op", 43); R a = 2, b = 3, c = .5;
	auto go = [&](auto&& f, bool fw) { ew(f, fw, false); };
#define FW(n, call) case n: go([&](M& A, M& B, ER* e) { iM.call; }, true); break;
#define DF(n, call) case n: go([&](M& A, M& B, ER* e) { iM.call; }, false); break;
	switch (w) {
	FW(0, sigm_st(A, e)) DF(1, dsigm_st(A, e)) DF(2, dSigmQuadLoss_dZ_st(B, A, e)) FW(3, relu_st(A, e)) DF(4, drelu_st(A, e)) FW(5, leakyrelu_st(A, c, e)) DF(6, dleakyrelu_st(A, c, e)) FW(7, elu_st(A, a, e)) DF(8, delu_st(A, a, e)) FW(9, elu_unitalpha_st(A, e)) DF(10, delu_unitalpha_st(A, e))
	FW(11, elogu_st(A, a, b, e)) DF(12, delogu_st(A, a, b, e)) FW(13, elogu_ua_st(A, b, e)) DF(14, delogu_ua_st(A, b, e)) FW(15, elogu_nb_st(A, a, e)) DF(16, delogu_nb_st(A, a, e)) FW(17, elogu_ua_nb_st(A, e)) DF(18, delogu_ua_nb_st(A, e)) FW(19, loglogu_st(A, a, b, e)) DF(20, dloglogu_st(A, a, b, e))
	FW(21, loglogu_nbn_st(A, b, e)) DF(22, dloglogu_nbn_st(A, b, e)) FW(23, loglogu_nbp_st(A, a, e)) DF(24, dloglogu_nbp_st(A, a, e)) FW(25, loglogu_nbn_nbp_st(A, e)) DF(26, dloglogu_nbn_nbp_st(A, e)) FW(27, softsign_uc_st(A, a, e)) FW(28, softsign_st(A, a, b, e)) DF(29, dsoftsign_ua_uc_st(A, e)) DF(30, dsoftsign_st(A, a, b, e))
	FW(31, softsigm_st(A, a, e)) DF(32, dsoftsigm_st(A, a, e)) DF(33, dSoftSigmQuadLoss_dZ_st(B, A, a, e)) DF(34, dSoftSigmXEntropyLoss_dZ_st(B, A, a, e)) FW(35, selu_st(A, a, b, e)) DF(36, dselu_st(A, a, b, e)) FW(37, step_st(A, e)) DF(38, dIdentityXEntropyLoss_dZ_st(B, A, e)) FW(39, logu_st(A, b, e)) FW(40, logu_nb_st(A, e)) DF(41, dlogu_st(A, b, e)) DF(42, dlogu_nb_st(A, e)) }
}
//@ prop=C34 entry=h_sum mode=real reach=sums
//@bounds 7 sums and losses over matrices of 2..3 x 2 elements (3 x 3 for the triangular one), any contents, split into two parts anywhere
extern "C" void h_sum() {
	vs_set_threads(2); IM iM; int w = (int)vs_choose("op", 7); vl r = w == 6 ? 3 : vs_pick("r", 2, 3), c = w == 6 ? 3 : 2; M A(r, c), B(r, c); if (w == 3) { for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) { E(A, i, j) = vs_num<R>("a"); vs_assume(E(A, i, j) > 0 && E(A, i, j) < 1); E(B, i, j) = (i + j) & 1; } } else { sym(A, "a"); sym(B, "b"); } if (w == 4) for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) vs_assume(E(A, i, j) > 0 && E(A, i, j) < 1); nc n = w == 6 ? 3 : (nc)r * c, k = 1 + (nc)vs_choose("split", n - 1); ER e1(0, k), e2(k, n); bool lo = vs_choose("lower", 2);
	auto f = [&](ER* e) -> R { switch (w) { case 0: return iM.ewSumProd_st(A, B, e); case 1: return iM.ewSumSquares_st(A, e); case 2: return iM.ewSumSquares_st_ns(A, e); case 3: return iM.loss_xentropy_st(A, B, e); case 4: return iM.loss_softmax_xentropy_st(A, B, e); case 5: return iM.ewSumSquares_st(A.data(), A.numel(), e); default: return lo ? iM.ewSumSquaresTriang_st<true, false, R>(A, e) : iM.ewSumSquaresTriang_st<false, false, R>(A, e); } };
	if (w == 6) { R s1 = f(&e1), s2 = f(&e2), s = f(nullptr); eqR(s1 + s2, s, "the parts add up to the whole"); } else { R s1 = f(&e1), s2 = f(&e2), s = f(nullptr); eqR(s1 + s2, s, "the parts add up to the whole"); } vs_reach("sums");
}
// rows [rb,re) or columns [cb,ce)
static RC rc(const M& A, bool rows) { if (rows) { vl b = (vl)vs_choose("row", A.rows()), e = b + 1 + (vl)vs_choose("rows", A.rows() - b); return RC(b, e, A); } vl b = (vl)vs_choose("col", A.cols()), e = b + 1 + (vl)vs_choose("cols", A.cols() - b); return RC(A, b, e); }
//@ prop=C34 entry=h_rows mode=real reach=vec
//@bounds 10 row-wise reductions of matrices of 3 x 2..3 elements, any contents, every range of rows, and every range of columns where the variant supports it
extern "C" void h_rows() {
	vs_set_threads(2); IM iM; int w = (int)vs_choose("op", 10); vl r = 3, c = vs_pick("c", 2, 3); M A(r, c); sym(A, "a"); Cp a(A); iM.preinit(64); vs_assert(iM.init(), "init"); bool rows = w == 5 ? true : w == 8 ? false : vs_choose("rows", 2); RC q = rc(A, rows); R v[6], s[6]; for (auto& x : v) x = 77; for (auto& x : s) x = 77;
	vl k = rows ? c : q.colEnd - q.colBegin; M Q(r, k); for (vl j = 0; j < k; ++j) for (vl i = 0; i < r; ++i) E(Q, i, j) = a(i, j + (rows ? 0 : q.colBegin)); // the columns meant
	auto f = [&](const M& X, R* d, RC* p) { switch (w) { case 0: iM.mrwSum_st(X, d, p); break; case 1: if (X.cols() > 1) iM.mrwSum_st_rw(X, d, p); else iM.mrwSum_st(X, d, p); break; case 2: if (X.cols() > 1) iM.mrwSum_st_cw(X, d, p); else iM.mrwSum_st(X, d, p); break; case 3: iM.mrwMax_st(X, d, p); break; case 4: iM.mrwMax_st_rw(X, d, p); break; case 5: iM.mrwMax_st_rw_small(X, d, p); break; case 6: case 7: case 9: { R m2[3] = { 5, 5, 5 }; vl i2[3] = { 99, 99, 99 }; RC all(X); if (!p) p = &all; if (w == 6) iM.mrwIdxsOfMax_st(X, i2, m2, p); else if (w == 7) iM.mrwIdxsOfMax_st_rw_small(X, i2, m2, p); else iM.mrwIdxsOfMax_st_rw(X, i2, m2, p); for (int i = 0; i < 3; ++i) { d[i] = i2[i] == 99 ? 77. : (R)(i2[i] - (&X == &A ? q.colBegin : 0)); d[3 + i] = m2[i] == 5 && i2[i] == 99 ? 77. : m2[i]; } break; }  default: iM.mrwL2NormSquared_st(X, d, p); } };
	f(A, v, &q); f(Q, s, nullptr); for (vl i = 0; i < r; ++i) for (int h = 0; h < (w == 6 || w == 7 || w == 9 ? 2 : 1); ++h) eqR(v[i + 3 * h], i >= q.rowBegin && i < q.rowEnd ? s[i + 3 * h] : 77., "the rows meant get what they get from the columns meant, the rest stays"); for (size_t i = 0; i < a.n; ++i) eqR(A.begin()[i], a.v[i], "source"); vs_reach("vec");
}
//@ prop=C34 entry=h_mtx mode=real reach=mtx
//@bounds 12 in-place operations by rows and columns over matrices of 2..3 x 3 elements, any contents, every range of rows or columns the variant supports; 5 extractions into a range of columns or rows
extern "C" void h_mtx() {
	vs_set_threads(2); IM iM; iM.preinit(64); vs_assert(iM.init(), "init"); int w = (int)vs_choose("op", 17); vl r = vs_pick("r", 2, 3), c = 3; R v[3]; for (auto& x : v) { x = vs_num<R>("v"); vs_assume(x > 0); } bool ip = w == 6 || w == 7, mcw = w >= 8 && w < 12;
	if (w < 12) { M A(r, c), A2(r, c), D(c, c); sym(A, "a"); sym(D, "d"); Cp a(A); put(A2, a); bool rows = ip ? true : mcw ? false : vs_choose("rows", 2); RC q = rc(A, rows);
		auto f = [&](M& X, RC* p) { switch (w) { case 0: iM.mrwDivideByVec_st(X, v, p); break; case 1: iM.mrwDivideByVec_st_cw(X, v, p); break; case 2: iM.mrwDivideByVec_st_rw(X, v, p); break; case 3: iM.mrwMulByVec_st(X, v, p); break; case 4: iM.mrwMulByVec_st_cw(X, v, p); break; case 5: iM.mrwMulByVec_st_rw(X, v, p); break; case 6: iM.mrwSum_ip_st(X, p); break; case 7: iM.mrwSum_ip_st_rw_small(X, p); break; case 8: iM.template mcwDeMean_st<false>(X, p); break; case 9: iM.mcwSub_ip_st(X, v, p); break; case 10: iM.mcwMulDiag_ip_st(X, D, p); break; default: { R m[3] = { 77, 77, 77 }; iM.template mcwMean_st<false>(X, m, p); for (vl j = 0; j < 3; ++j) if (m[j] != 77) E(X, 0, j) = m[j]; } } };
		f(A, nullptr); f(A2, &q); for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) { bool in = i >= q.rowBegin && i < q.rowEnd && j >= q.colBegin && j < q.colEnd; if (w == 11) vs_assume(E(A, 0, j) != 77); eqR(E(A2, i, j), in ? E(A, i, j) : a(i, j), "the part gets what it gets as a part of the whole, the rest stays"); } vs_reach("mtx"); return; }
	M S(r + 1, c), D(w == 12 ? r + 1 : r, c, vs_choose("bias", 2) && w != 13 && w != 14); sym(S, "s"); for (vl j = 0; j < c; ++j) for (vl i = 0; i < D.rows(); ++i) E(D, i, j) = 7; std::vector<vl> ids; for (vl i = 0; i < (w == 12 ? c : r); ++i) ids.push_back((vl)vs_choose("id", w == 12 ? c : r + 1));
	if (w == 12) { vl b = (vl)vs_choose("col", c), e = b + 1 + (vl)vs_choose("cols", c - b); IM::vec_range q(b, e); iM.mExtractCols_st(S, ids.begin(), D, &q); for (vl j = 0; j < c; ++j) for (vl i = 0; i < D.rows(); ++i) eqR(E(D, i, j), j >= b && j < e ? E(S, i, ids[j]) : 7., "columns meant"); }
	else if (w == 13 || w == 14) { vl b = (vl)vs_choose("col", c), e = b + 1 + (vl)vs_choose("cols", c - b), o = (vl)vs_choose("ofs", 2); ER q(b, e); iM.mExtractRowsSeq_st(S, o, D, &q); for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) eqR(E(D, i, j), j >= b && j < e ? E(S, i + o, j) : 7., "columns meant"); }
	else { vl b = (vl)vs_choose("row", r), e = b + 1 + (vl)vs_choose("rows", r - b); ER q(b, e); iM.mExtractRows_seqWrite_st(S, ids.begin(), D, &q); for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) eqR(E(D, i, j), i >= b && i < e ? E(S, ids[i], j) : 7., "rows meant"); } if (D.emulatesBiases()) vs_assert(D.test_biases_strict(), "biases stay"); vs_reach("mtx");
}
