// Cumulative, row-wise and column-wise kernels of the math interface.
//@small
#include "kern.h"
//@ prop=C09 entry=h_ewsum mode=real reach=ewsum
//@bounds matrices 1..3 x 1..3 (tuning thresholds scaled to 5 elements so that both code paths run), 3 threads, any real contents
extern "C" void h_ewsum() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 3); M A(r, c), B(r, c); sym(A, "a"); sym(B, "b"); R sp = 0, sq = 0; nc n = A.numel(); for (nc i = 0; i < n; ++i) { sp += A.begin()[i] * B.begin()[i]; sq += A.begin()[i] * A.begin()[i]; }
	Cp ca(A), cb(B); int w = (int)vs_choose("op", 5);
	if (w == 0) { eqR(iM.ewSumProd(A, B), sp, "sum of products"); eqR(iM.ewSumProd_st(A, B), sp, "sum of products, one thread"); eqR(iM.ewSumProd_mt(A, B), sp, "sum of products, many threads"); }
	else if (w == 1) { eqR(iM.ewSumSquares(A), sq, "sum of squares"); eqR(iM.ewSumSquares_st(A), sq, "sum of squares, one thread"); eqR(iM.ewSumSquares_mt(A), sq, "sum of squares, many threads"); }
	else if (w == 2) { eqR(iM.ewSumSquares(A.begin(), n), sq, "sum of squares of a vector"); eqR(iM.ewSumSquares_st(A.begin(), n), sq, "sum of squares of a vector, one thread"); eqR(iM.ewSumSquares_mt(A.begin(), n), sq, "sum of squares of a vector, many threads"); }
	else if (w == 3) { eqR(iM.ewSumSquares_ns(A), sq, "stable sum of squares"); eqR(iM.ewSumSquares_st_ns(A), sq, "stable sum of squares, one thread"); eqR(iM.ewSumSquares_mt_ns(A), sq, "stable sum of squares, many threads"); }
	else { eqR(iM.ewSumSquares_ns(A.begin(), n), sq, "stable sum of squares of a vector"); eqR(iM.ewSumSquares_st_ns(A.begin(), n), sq, "stable, one thread"); eqR(iM.ewSumSquares_mt_ns(A.begin(), n), sq, "stable, many threads"); }
	for (nc i = 0; i < n; ++i) { eqR(A.begin()[i], ca.v[i], "argument unchanged"); eqR(B.begin()[i], cb.v[i], "argument unchanged"); } vs_reach("ewsum");
}
template<bool L, bool S> static void tri(IM& iM, M& A, R e) { eqR(iM.ewSumSquaresTriang<L, S>(A), e, "sum of squares of a triangle"); eqR(iM.ewSumSquaresTriang_st<L, S>(A), e, "triangle, one thread"); eqR(iM.ewSumSquaresTriang_mt<L, S>(A), e, "triangle, many threads"); }
//@ prop=C09 entry=h_tri mode=real reach=tri
//@bounds square matrices of size 2..6, both triangles, plain and stable summation, any real contents
extern "C" void h_tri() {
	vs_set_threads(3); IM iM; vl n = vs_pick("n", 2, 6); M A(n, n); sym(A, "a"); R lo = 0, up = 0; for (vl j = 0; j < n; ++j) for (vl i = 0; i < n; ++i) { if (i > j) lo += E(A, i, j) * E(A, i, j); if (i < j) up += E(A, i, j) * E(A, i, j); }
	int w = (int)vs_choose("op", 4); if (w == 0) tri<true, true>(iM, A, lo); else if (w == 1) tri<true, false>(iM, A, lo); else if (w == 2) tri<false, true>(iM, A, up); else tri<false, false>(iM, A, up); vs_reach("tri");
}
//@ prop=C09 entry=h_mrwsum mode=real reach=sum
//@bounds matrices 1..3 x 1..7 and 6x2, any real contents, every variant
extern "C" void h_mrwsum() {
	vs_set_threads(3); IM iM; vl c = vs_pick("c", 1, 7), r = c == 2 && vs_choose("tall", 2) ? 6 : vs_pick("r", 1, 3); M A(r, c); sym(A, "a"); iM.preinit(iM.mrwSum_needTempMem<R>(A)); vs_assert(iM.init(), "init"); R s[8], v[8]; for (vl i = 0; i < r; ++i) { s[i] = 0; v[i] = 77; for (vl j = 0; j < c; ++j) s[i] += E(A, i, j); } Cp ca(A); v[r] = 55;
	int w = (int)vs_choose("op", 13); 
	if (w == 0) iM.mrwSum(A, v); else if (w == 1) iM.mrwSum_st(A, v); else if (w == 2) iM.mrwSum_mt(A, v); else if (w == 3) iM.mrwSum_st_rw(A, v); else if (w == 4) iM.mrwSum_st_cw(A, v); else if (w == 5) iM.mrwSum_mt_rw(A, v); else if (w == 6) { if (c <= 3) return; iM.mrwSum_mt_cw(A, v); }
	else if (w == 7) iM.mrwSum_ip(A); else if (w == 8) iM.mrwSum_ip_st(A); else if (w == 9) iM.mrwSum_ip_mt(A); else if (w == 10) { if (c < 2) return; iM.mrwSum_ip_st_cw(A); } else if (w == 11) { if (c < 2) return; iM.mrwSum_ip_st_rw_small(A); } else { if (c < 2) return; iM.mrwSum_ip_mt_rw(A); }
	for (vl i = 0; i < r; ++i) eqR(w < 7 ? v[i] : E(A, i, 0), s[i], "sum of each row"); for (vl j = w < 7 ? 0 : 1; j < c; ++j) for (vl i = 0; i < r; ++i) eqR(E(A, i, j), ca(i, j), "the rest is unchanged"); eqR(v[r], 55, "nothing written past the end"); vs_reach("sum");
}
template<bool S> static void meanT(IM& iM, M& A, int w, R* v) {
	if (w == 0) iM.mcwMean<S>(A, v); else if (w == 1) iM.mcwMean_st<S>(A, v); else if (w == 2) iM.mcwMean_mt<S>(A, v); else iM.mcwSum<S>(A, v);
}
//@ prop=C09 entry=h_mcwmean mode=real reach=mean
//@bounds matrices 1..4 x 1..4, any real contents, plain and stable summation, every variant; column sums also with biases in either layout
extern "C" void h_mcwmean() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 4), c = vs_pick("c", 1, 4); int w = (int)vs_choose("op", 4); bool st = vs_choose("stable", 2), bias = w == 3 && vs_choose("bias", 2), bir = bias && vs_choose("bir", 2); M A(r, c, bias, bir); sym(A, "a"); if (bir) A.fill_bias_row(); Cp ca(A); R v[8]; for (auto& x : v) x = 77; if (st) meanT<true>(iM, A, w, v); else meanT<false>(iM, A, w, v);
	for (vl j = 0; j < c; ++j) { R s = 0; for (vl i = 0; i < r; ++i) s += ca(i, j); eqR(w < 3 ? v[j] * (R)r : v[j], s, "mean (sum) of each column"); } for (size_t i = 0; i < ca.n; ++i) eqR(A.begin()[i], ca.v[i], "argument unchanged"); eqR(v[c], 77, "nothing written past the end"); vs_reach("mean");
}
// ------------------------------------------------------------------------------------------------ C10
//@ prop=C10 entry=h_mrwmul mode=real reach=mul
//@bounds matrices 1..3 x 1..3 and 6x2, any real contents, nonzero divisors, every variant
extern "C" void h_mrwmul() {
	vs_set_threads(3); IM iM; vl c = vs_pick("c", 1, 3), r = c == 2 && vs_choose("tall", 2) ? 6 : vs_pick("r", 1, 3); int w = (int)vs_choose("op", 14); bool dv = w >= 7; M A(r, c); sym(A, "a"); Cp ca(A); R v[8], u[8]; for (vl i = 0; i < r; ++i) { u[i] = v[i] = vs_num<R>("v"); if (dv) vs_assume(v[i] > 1e-3); }
	switch (w) { case 0: iM.mrwMulByVec(A, v); break; case 1: iM.mrwMulByVec_st(A, v); break; case 2: iM.mrwMulByVec_mt(A, v); break; case 3: iM.mrwMulByVec_st_cw(A, v); break; case 4: iM.mrwMulByVec_st_rw(A, v); break; case 5: iM.mrwMulByVec_mt_cw(A, v); break; case 6: iM.mrwMulByVec_mt_rw(A, v); break;
	case 7: iM.mrwDivideByVec(A, v); break; case 8: iM.mrwDivideByVec_st(A, v); break; case 9: iM.mrwDivideByVec_mt(A, v); break; case 10: iM.mrwDivideByVec_st_cw(A, v); break; case 11: iM.mrwDivideByVec_st_rw(A, v); break; case 12: iM.mrwDivideByVec_mt_cw(A, v); break; default: iM.mrwDivideByVec_mt_rw(A, v); }
	for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) { if (dv) eqR(E(A, i, j) * u[i], ca(i, j), "each row is divided by its divisor"); else eqR(E(A, i, j), ca(i, j) * u[i], "each row is multiplied by its factor"); } for (vl i = 0; i < r; ++i) eqR(v[i], u[i], "the vector is unchanged"); vs_reach("mul");
}
template<bool S> static void dem(IM& iM, M& A, int w, R cp) { if (w == 0) iM.mcwDeMean<S>(A); else if (w == 1) iM.mcwDeMean_st<S>(A); else if (w == 2) iM.mcwDeMean_mt<S>(A); else if (w == 3) iM.mcwDeMeanNZ<S>(A, cp); else if (w == 4) iM.mcwDeMeanNZ_st<S>(A, cp); else iM.mcwDeMeanNZ_mt<S>(A, cp); }
//@ prop=C10 entry=h_demean mode=real reach=demean
//@bounds matrices 1..3 x 1..3 (4x2 too), any real contents, plain and stable summation, every variant; mean over elements that differ from the central point: the pattern of such elements is explored exhaustively
extern "C" void h_demean() {
	vs_set_threads(3); IM iM; int w = (int)vs_choose("op", 6); bool st = vs_choose("stable", 2); vl c = vs_pick("c", 1, w < 3 ? 3 : 2), r = vs_pick("r", 1, w < 3 ? 4 : 3); M A(r, c); R cp = w < 3 ? 0 : vs_choose("cp", 2) ? .5 : 0; bool z[16];
	for (nc i = 0; i < A.numel(); ++i) { z[i] = w >= 3 && vs_choose("zero", 2); if (z[i]) A.begin()[i] = cp; else { A.begin()[i] = vs_num<R>("a"); if (w >= 3) vs_assume(A.begin()[i] != cp); } } Cp ca(A); if (st) dem<true>(iM, A, w, cp); else dem<false>(iM, A, w, cp);
	for (vl j = 0; j < c; ++j) { R s = 0; int n = 0; for (vl i = 0; i < r; ++i) if (!z[j * r + i]) { s += ca(i, j); ++n; } for (vl i = 0; i < r; ++i) { if (z[j * r + i]) eqR(E(A, i, j), cp, "elements at the central point stay"); else eqR((E(A, i, j) - ca(i, j) - cp) * (R)n, -s, "the mean is subtracted from each column"); } } vs_reach("demean");
}
//@ prop=C10 entry=h_mcwsub mode=real reach=mcw
//@bounds matrices 1..3 x 1..4, any real contents, every variant
extern "C" void h_mcwsub() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 4); int w = (int)vs_choose("op", 6); M A(r, c), B(c, c); sym(A, "a"); R v[8]; for (vl j = 0; j < c; ++j) v[j] = vs_num<R>("v"); if (w >= 3) { sym(B, "b"); for (vl j = 0; j < c; ++j) E(B, j, j) = v[j]; } Cp ca(A);
	switch (w) { case 0: iM.mcwSub_ip(A, v); break; case 1: iM.mcwSub_ip_st(A, v); break; case 2: iM.mcwSub_ip_mt(A, v); break; case 3: iM.mcwMulDiag_ip(A, B); break; case 4: iM.mcwMulDiag_ip_st(A, B); break; default: iM.mcwMulDiag_ip_mt(A, B); }
	for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) eqR(E(A, i, j), w < 3 ? ca(i, j) - v[j] : ca(i, j) * v[j], "column-wise operation"); vs_reach("mcw");
}
// ------------------------------------------------------------------------------------------------ C11
//@ prop=C11 entry=h_max mode=real reach=max
//@bounds matrices 1..2 x 1..4 (2 x 5..6 for the column-split variant, 6 x 2 for the row-split one), any contents, ties included, every variant
extern "C" void h_max() {
	vs_set_threads(3); IM iM; int w = (int)vs_choose("op", 11); vl c = w == 5 || w == 10 ? vs_pick("c", w == 5 ? 5 : 2, w == 5 ? 6 : 2) : vs_pick("c", 1, 4), r = w == 5 ? 2 : w == 10 ? 6 : vs_pick("r", 1, 2); M A(r, c); sym(A, "a"); iM.preinit(iM.mrwIdxsOfMax_needTempMem<R>(A)); vs_assert(iM.init(), "init"); Cp ca(A); vl ix[8]; R mx[8]; for (auto& x : ix) x = 99; for (auto& x : mx) x = 77;
	bool arg = w < 6 || w == 10; switch (w) { case 0: iM.mrwIdxsOfMax(A, ix); break; case 1: iM.mrwIdxsOfMax_st(A, ix); break; case 2: iM.mrwIdxsOfMax_mt(A, ix); break; case 3: iM.mrwIdxsOfMax_st_cw(A, ix); break; case 4: iM.mrwIdxsOfMax_st_rw(A, ix); break; case 5: iM.mrwIdxsOfMax_mt_cw(A, ix); break; case 10: iM.mrwIdxsOfMax_mt_rw(A, ix); break; case 6: iM.mrwMax(A, mx); break; case 7: iM.mrwMax_st(A, mx); break; case 8: iM.mrwMax_mt(A, mx); break; default: iM.mrwMax_st_rw(A, mx); }
	for (vl i = 0; i < r; ++i) {
		if (arg) { vs_assert(ix[i] >= 0 && ix[i] < c, "index inside the row"); bool ok = true; for (vl k = 0; k < c; ++k) { bool here = true; for (vl j = 0; j < c; ++j) here = here & (ca(i, j) <= ca(i, k)); ok = ok & ((ix[i] != k) | here); } vs_assert(ok, "the index of a largest element of each row"); }
		else { bool ge = true, is = false; for (vl j = 0; j < c; ++j) { ge = ge & (mx[i] >= ca(i, j)); is = is | (mx[i] == ca(i, j)); } vs_assert(ge & is, "the largest element of each row"); }
	}
	vs_assert(ix[r] == 99 && mx[r] == 77, "nothing written past the end"); for (size_t i = 0; i < ca.n; ++i) eqR(A.begin()[i], ca.v[i], "argument unchanged"); vs_reach("max");
}
//@ prop=C11 entry=h_or reach=or
//@bounds binary matrices 1..3 x 1..5 (every combination of zeros and ones), every variant
extern "C" void h_or() {
	vs_set_threads(3); IM iM; int w = (int)vs_choose("op", 7); vl c = w == 6 ? vs_pick("c", 4, 5) : vs_pick("c", 1, 4), r = vs_pick("r", 1, 3); M A(r, c); bool e[8]; R v[8]; for (auto& x : v) x = 77; for (vl i = 0; i < r; ++i) { e[i] = false; for (vl j = 0; j < c; ++j) { bool b = vs_int("b", 0, 1); E(A, i, j) = b ? 1. : 0.; e[i] = e[i] | b; } } iM.preinit(iM.mrwOr_needTempMem(A)); vs_assert(iM.init(), "init");
	switch (w) { case 0: iM.mrwOr(A, v); break; case 1: iM.mrwOr_st(A, v); break; case 2: iM.mrwOr_mt(A, v); break; case 3: iM.mrwOr_st_cw(A, v); break; case 4: iM.mrwOr_st_rw(A, v); break; case 5: iM.mrwOr_mt_rw(A, v); break; default: iM.mrwOr_mt_cw(A, v); }
	for (vl i = 0; i < r; ++i) vs_assert(sameBits(v[i], e[i] ? 1. : 0.), "a row is one iff it has a one"); vs_assert(v[r] == 77, "nothing written past the end"); vs_reach("or");
}
// ------------------------------------------------------------------------------------------------ C12
//@ prop=C12 entry=h_clonecol reach=clone
//@bounds destinations of 1..3 x 1..5 columns, any distribution of copies over up to 3 source columns, any bit patterns
extern "C" void h_clonecol() {
	vs_set_threads(3); IM iM; vl r = vs_pick("r", 1, 3); int w = (int)vs_choose("op", 6);
	if (w < 3) { vl c = vs_pick("c", 1, 5); M s(r, 1), d(r, c); for (vl i = 0; i < r; ++i) E(s, i, 0) = vs_f64_any("s"); d.fill(7); if (w == 0) iM.mCloneCol(s, d); else if (w == 1) iM.mCloneCol_st(s, d); else iM.mCloneCol_mt(s, d); for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) vs_assert(sameBits(E(d, i, j), E(s, i, 0)), "every column is the source column"); }
	else { vl k = vs_pick("k", 1, 3), spec[4], c = 0, from[16]; for (vl q = 0; q < k; ++q) { spec[q] = vs_pick("n", 1, 3); for (vl x = 0; x < spec[q]; ++x) from[c++] = q; } M s(r, k), d(r, c); for (nc i = 0; i < s.numel(); ++i) s.begin()[i] = vs_f64_any("s"); d.fill(7);
		if (w == 3) iM.mCloneCols(s, d, spec); else if (w == 4) iM.mCloneCols_st(s, d, spec); else iM.mCloneCols_mt(s, d, spec); for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) vs_assert(sameBits(E(d, i, j), E(s, i, from[j])), "columns are repeated as specified"); }
	vs_reach("clone");
}
//@ prop=C12 entry=h_tiling reach=tiling
//@bounds m 1..2 rows, k 1..3 tiles, n 1..4 columns, with and without biases, any bit patterns, every variant
extern "C" void h_tiling() {
	vs_set_threads(3); IM iM; vl m = vs_pick("m", 1, 2), k = vs_pick("k", 1, 3), n = vs_pick("n", 1, 4); int w = (int)vs_choose("op", 14); bool bs = vs_choose("bs", 2), bd = vs_choose("bd", 2); bool roll = w < 7; M s(roll ? m : m * k, roll ? k * n : n, bs), d(roll ? m * k : m, roll ? n : k * n, bd); for (vl j = 0; j < s.cols_no_bias(); ++j) for (vl i = 0; i < s.rows(); ++i) E(s, i, j) = vs_f64_any("s"); for (vl j = 0; j < d.cols_no_bias(); ++j) for (vl i = 0; i < d.rows(); ++i) E(d, i, j) = 7; Cp cs(s);
	switch (w) { case 0: iM.mTilingRoll(s, d); break; case 1: iM.mTilingRoll_st(s, d); break; case 2: iM.mTilingRoll_mt(s, d); break; case 3: iM.mTilingRoll_seqread_st(s, d); break; case 4: iM.mTilingRoll_seqread_mt(s, d); break; case 5: iM.mTilingRoll_seqwrite_st(s, d); break; case 6: iM.mTilingRoll_seqwrite_mt(s, d); break;
	case 7: iM.mTilingUnroll(s, d); break; case 8: iM.mTilingUnroll_st(s, d); break; case 9: iM.mTilingUnroll_mt(s, d); break; case 10: iM.mTilingUnroll_seqread_st(s, d); break; case 11: iM.mTilingUnroll_seqread_mt(s, d); break; case 12: iM.mTilingUnroll_seqwrite_st(s, d); break; default: iM.mTilingUnroll_seqwrite_mt(s, d); }
	for (vl t = 0; t < k; ++t) for (vl j = 0; j < n; ++j) for (vl i = 0; i < m; ++i) { R wide = E(roll ? s : d, i, t * n + j), tall = E(roll ? d : s, t * m + i, j); vs_assert(sameBits(wide, tall), "tile t of the wide matrix is block t of the tall one"); }
	for (size_t i = 0; i < cs.n; ++i) vs_assert(sameBits(s.begin()[i], cs.v[i]), "source unchanged"); if (bd) for (vl i = 0; i < d.rows(); ++i) vs_assert(E(d, i, d.cols() - 1) == 1., "biases of the destination are kept"); vs_reach("tiling");
}
