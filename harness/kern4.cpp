//@small
// Optimizers, norms, DeCov and dropout kernels.
#include "kern.h"
#include "blas.h"
#include <nntl/nntl.h>
static void shp(int sh, vl& r, vl& c) { r = sh ? 2 : 1; c = sh == 0 ? 1 : sh == 1 ? 2 : 3; }
static R inUnit(const char* n) { R x = vs_num<R>(n); vs_assume(x > 0 && x < 1); return x; }
static R mabs(R x) { return x < 0 ? -x : x; }
// ------------------------------------------------------------------------------------------------ C17: optimizer kernels
//@ prop=C17 entry=h_rms mode=real reach=rms
//@bounds matrices 1x1 and 2x3, any gradients, state, learning rate, decay and stabilizer in their domains, one step from any state, every variant
extern "C" void h_rms() {
	vs_set_threads(3); IM iM; vl r, c; shp(vs_choose("shape", 2) ? 2 : 0, r, c); M W(r, c), F(r, c), G(r, c); sym(W, "w"); sym(F, "f"); sym(G, "g"); R lr = inUnit("lr"), d = inUnit("d"), e = inUnit("e"); Cp w(W), f(F), g(G); int op = (int)vs_choose("op", 12);
	for (size_t i = 0; i < w.n; ++i) { vs_assume(f.v[i] >= 0); if (op >= 3 && op < 6) vs_assume(d * f.v[i] + (1 - d) * w.v[i] * w.v[i] - (d * g.v[i] + (1 - d) * w.v[i]) * (d * g.v[i] + (1 - d) * w.v[i]) + e > 0); }
	switch (op) { case 0: iM.RMSProp_Hinton(W, F, lr, d, e); break; case 1: IM::RMSProp_Hinton_st(W, F, lr, d, e); break; case 2: iM.RMSProp_Hinton_mt(W, F, lr, d, e); break; case 3: iM.RMSProp_Graves(W, F, G, lr, d, e); break; case 4: IM::RMSProp_Graves_st(W, F, G, lr, d, e); break; case 5: iM.RMSProp_Graves_mt(W, F, G, lr, d, e); break;
	case 6: iM.RProp(W, lr); break; case 7: iM.RProp_st(W, lr); break; case 8: iM.RProp_mt(W, lr); break; case 9: iM.ModProp(W, F, lr, d, e); break; case 10: IM::ModProp_st(W, F, lr, d, e); break; default: iM.ModProp_mt(W, F, lr, d, e); }
	for (size_t i = 0; i < w.n; ++i) { R x = w.v[i], nf = f.v[i], ng = g.v[i], nw;
		if (op < 3) { nf = d * f.v[i] + (1 - d) * x * x; nw = lr * x / (std::sqrt(nf) + e); } else if (op < 6) { nf = d * f.v[i] + (1 - d) * x * x; ng = d * g.v[i] + (1 - d) * x; nw = lr * x / std::sqrt(nf - ng * ng + e); } else if (op < 9) nw = lr * (R)((x > 0) - (x < 0)); else { nf = d * f.v[i] + (1 - d) * mabs(x); nw = lr * x / (nf + e); }
		eqR(F.begin()[i], nf, "running average of the squared (absolute) gradient"); eqR(G.begin()[i], ng, "running average of the gradient"); eqR(W.begin()[i], nw, "scaled update"); } vs_reach("rms");
}
// opfam: 0 Adam, 1 AdaMax, 2 Nadam, 3 RNadam; one step, compared with the published rule
static void adamStep(IM& iM, int fam, int var, M& W, M& A, M& V, R& p1, R& p2, R lr, R b1, R b2, R ga, R e, bool twoP) {
	Cp w(W), m(A), v(V); R o1 = p1, o2 = p2;
	switch (fam * 3 + var) { case 0: iM.Adam(W, A, V, p1, p2, lr, b1, b2, e); break; case 1: iM.Adam_st(W, A, V, p1, p2, lr, b1, b2, e); break; case 2: iM.Adam_mt(W, A, V, p1, p2, lr, b1, b2, e); break;
	case 3: iM.AdaMax(W, A, V, p1, lr, b1, b2, e); break; case 4: iM.AdaMax_st(W, A, V, p1, lr, b1, b2, e); break; case 5: iM.AdaMax_mt(W, A, V, p1, lr, b1, b2, e); break; case 6: case 9: iM.RNadam(W, A, V, p1, p2, lr, b1, b2, ga, e); break; case 7: case 10: iM.RNadam_st(W, A, V, p1, p2, lr, b1, b2, ga, e); break; default: iM.RNadam_mt(W, A, V, p1, p2, lr, b1, b2, ga, e); }
	R q1 = o1 * b1, q2 = fam != 1 ? o2 * b2 : o2; eqR(p1, q1, "first power"); eqR(p2, q2, "second power");
	R mu = b1, et = b2, c = lr / (1 - q1), hm = 1 - ga; if (fam == 0) c = lr * std::sqrt(1 - q2) / (1 - q1); if (fam >= 2) { mu = (b1 - q1) / (1 - q1); et = (b2 - q2) / (1 - q2); } if (fam == 2) hm = b1 * ((1 - q1) / (1 - b1 * q1)); R hg = fam == 2 ? 1 - mu : ga;
	for (size_t i = 0; i < w.n; ++i) { R g = w.v[i], nm = mu * m.v[i] + (1 - mu) * g, nv = fam == 1 ? (mabs(g) > b2 * v.v[i] ? mabs(g) : b2 * v.v[i]) : et * v.v[i] + (1 - et) * (g * g), nw;
		if (fam == 0) nw = c * nm / (std::sqrt(nv) + e); else if (fam == 1) nw = c * nm / (nv + e); else nw = lr * ((hm * nm + hg * g) / (std::sqrt(nv) + e));
		vs_assert_near(A.begin()[i], nm, 1e-9, "first moment"); vs_assert_near(V.begin()[i], nv, 1e-9, "second moment"); vs_assert_near(W.begin()[i], nw, 1e-9, "bias-corrected update"); }
}
//@ prop=C17 entry=h_adam mode=real reach=adam
//@bounds matrices 1x1 and 2x3, any gradients and state in [-1,1] under two sets of coefficients and powers, two consecutive steps for 1x1, every variant of Adam, AdaMax, Nadam and RNadam
extern "C" void h_adam() {
	vs_set_threads(3); IM iM; vl r, c; int sh = (int)vs_choose("shape", 2), fam = (int)vs_choose("family", 4), var = (int)vs_choose("variant", 3), cs = (int)vs_choose("coeffs", 2); shp(sh * 2, r, c); M W(r, c), A(r, c), V(r, c); sym(W, "w", -1., 1.); sym(A, "m", -1., 1.); sym(V, "v", 0., 1.);
	R lr = cs ? .5 : .125, b1 = cs ? .75 : .5, b2 = cs ? .25 : .75, e = cs ? .25 : .03125, p1 = cs ? .5 : 1., p2 = cs ? .125 : 1., ga = fam == 3 ? (cs ? .25 : .5) : 0.;
	for (int step = 0; step < (sh ? 1 : 2); ++step) { if (step) W.begin()[0] = vs_num<R>("w2", -1., 1.); adamStep(iM, fam, var, W, A, V, p1, p2, lr, b1, b2, ga, e, false); } vs_reach("adam");
}
//@ prop=C17 entry=h_adamc mode=real reach=adam
//@bounds 1x1 matrix with two sets of concrete contents, any coefficients and powers in their domains, every family of the Adam kind
extern "C" void h_adamc() {
	vs_set_threads(2); IM iM; int fam = (int)vs_choose("family", 4), d = (int)vs_choose("data", 2); M W(1, 1), A(1, 1), V(1, 1); W.begin()[0] = d ? -.5 : .75; A.begin()[0] = d ? .25 : -.5; V.begin()[0] = d ? .0625 : 2.;
	R lr = inUnit("lr"), b1 = inUnit("b1"), b2 = inUnit("b2"), e = inUnit("e"), p1 = vs_num<R>("p1", 0., 1.), p2 = vs_num<R>("p2", 0., 1.), ga = fam == 3 ? inUnit("ga") : 0.; Cp w(W), m(A), v(V); R o1 = p1, o2 = p2;
	adamStep(iM, fam, 1, W, A, V, p1, p2, lr, b1, b2, ga, e, true); vs_reach("adam");
}
//@ prop=C17 entry=h_ilr mode=real reach=ilr
//@bounds matrices 1x1 and 2x3, any gradients, previous gradients, gains, factors and caps, every variant
extern "C" void h_ilr() {
	vs_set_threads(3); IM iM; vl r, c; shp(vs_choose("shape", 2) ? 2 : 0, r, c); M W(r, c), P(r, c), G(r, c); sym(W, "w"); sym(P, "p"); sym(G, "g"); R de = inUnit("de"), in = vs_num<R>("in"), lo = vs_num<R>("lo"), hi = vs_num<R>("hi"); vs_assume(in > 1 && lo > 0 && hi > lo); Cp w(W), p(P), g(G); iM.preinit(iM.apply_ILR_needTempMem<R>(W.size())); vs_assert(iM.init(), "init");
	switch (vs_choose("op", 5)) { case 0: iM.apply_ILR(W, P, G, de, in, lo, hi); break; case 1: IM::apply_ILR_st_naive(W, P, G, de, in, lo, hi); break; case 2: iM.apply_ILR_mt_naive(W, P, G, de, in, lo, hi); break; case 3: iM.apply_ILR_st_vec(W, P, G, de, in, lo, hi); break; default: iM.apply_ILR_mt_vec(W, P, G, de, in, lo, hi); }
	for (size_t i = 0; i < w.n; ++i) { bool a = w.v[i] > 0, b = w.v[i] < 0, s = p.v[i] > 0, t = p.v[i] < 0; bool same = (a & s) | (b & t), opp = (a & t) | (b & s); R ng = g.v[i] * (same & (g.v[i] < hi) ? in : opp & (g.v[i] > lo) ? de : 1.); eqR(G.begin()[i], ng, "gain grows on agreement, shrinks on disagreement, within the caps"); eqR(W.begin()[i], w.v[i] * ng, "update scaled by its gain"); eqR(P.begin()[i], p.v[i], "previous gradient unchanged"); } iM.deinit(); vs_reach("ilr");
}
// ------------------------------------------------------------------------------------------------ C18: weight norms and decorrelation
//@ prop=C18 entry=h_norms mode=real reach=norms
//@bounds matrices 1x2, 2x2, 2x3, 1x5 and 2x6, any real contents and limit, bias column inside or outside of the norm, every variant
extern "C" void h_norms() {
	vs_set_threads(3); IM iM; int sh = (int)vs_choose("shape", 5); vl r = sh == 0 || sh == 3 ? 1 : 2, c = sh == 0 || sh == 1 ? 2 : sh == 2 ? 3 : sh == 3 ? 5 : 6; math::smatrix_deform<R> A(r, c); sym(A, "a"); int op = (int)vs_choose("op", 9); bool ib = op < 3 || vs_choose("incl", 2); R mx = vs_num<R>("max"); vs_assume(mx > 0); Cp a(A); R n[2]; for (vl i = 0; i < r; ++i) { n[i] = 0; for (vl j = 0; j < (ib ? c : c - 1); ++j) n[i] += a(i, j) * a(i, j); if (op >= 6) vs_assume(n[i] > 0); }
	iM.preinit(std::max(iM.mrwL2NormSquared_needTempMem(A), std::max(iM.mCheck_normalize_rows_needTempMem(A), iM.mrwSetL2Norm_needTempMem(A)))); vs_assert(iM.init(), "init"); R v[8] = { 7, 7, 7, 7, 7, 7, 7, 7 };
	switch (op) { case 0: iM.mrwL2NormSquared(A, v); break; case 1: iM.mrwL2NormSquared_st(A, v); break; case 2: iM.mrwL2NormSquared_mt(A, v); break; case 3: iM.mCheck_normalize_rows(A, mx, ib); break; case 4: iM.mCheck_normalize_rows_st(A, mx, ib); break; case 5: iM.mCheck_normalize_rows_mt(A, mx, ib); break; case 6: if (vs_choose("ovl", 2)) iM.mrwSetL2Norm(static_cast<M&>(A), mx, ib); else iM.mrwSetL2Norm(A, mx, ib); break; case 7: iM.mrwSetL2Norm_st(A, mx, ib); break; default: iM.mrwSetL2Norm_mt(A, mx, ib); }
	vs_assert(A.rows() == r && A.cols() == c, "shape stays"); if (op < 3) eqR(v[op == 1 ? r : r * 3], 7, "nothing written past the result");
	for (vl i = 0; i < r; ++i) { if (op < 3) { eqR(v[i], n[i], "squared row norm"); for (vl j = 0; j < c; ++j) eqR(E(A, i, j), a(i, j), "argument unchanged"); continue; } R f = op < 6 ? (n[i] > mx ? std::sqrt(mx / n[i]) : 1.) : std::sqrt(mx / n[i]); for (vl j = 0; j < c; ++j) eqR(E(A, i, j), f * a(i, j), "the whole row is scaled so that its norm is the limit"); } iM.deinit(); vs_reach("norms");
}
//@ prop=C18 entry=h_decov mode=real reach=decov
//@bounds matrices 1x2, 2x2, 3x2, 2x3 with and without biases, any real contents and scale, both triangles, plain and numerically stable
extern "C" void h_decov() {
	vs_set_threads(2); IM iM; int sh = (int)vs_choose("shape", 4); vl r = sh == 0 ? 1 : sh == 2 ? 3 : 2, c = sh == 3 ? 3 : 2; int op = (int)vs_choose("op", 3), var = (int)vs_choose("variant", 4); bool bias = op < 2 && vs_choose("bias", 2); M A(r, c, bias), D(r, c); sym(A, "a"); D.fill(3); Cp a(A); R sc = vs_num<R>("sc"), l = 0; iM.preinit(IM::loss_DeCov_needTempMem(true, A.size())); vs_assert(iM.init(), "init");
#define V4(f, ...) switch (var) { case 0: iM.f<false, false>(__VA_ARGS__); break; case 1: iM.f<true, false>(__VA_ARGS__); break; case 2: iM.f<false, true>(__VA_ARGS__); break; default: iM.f<true, true>(__VA_ARGS__); }
	if (op == 0) { switch (var) { case 0: l = iM.loss_deCov<false, false>(A); break; case 1: l = iM.loss_deCov<true, false>(A); break; case 2: l = iM.loss_deCov<false, true>(A); break; default: l = iM.loss_deCov<true, true>(A); } } else if (op == 1) { V4(dLoss_deCov, A, D, sc) } else { V4(dLoss_deCov_ip, A, sc) }
	R dm[3][3], cov[3][3], s = 0; for (vl j = 0; j < c; ++j) { R m = 0; for (vl i = 0; i < r; ++i) m += a(i, j); m /= (R)r; for (vl i = 0; i < r; ++i) dm[i][j] = a(i, j) - m; } for (vl p = 0; p < c; ++p) for (vl q = 0; q < c; ++q) { cov[p][q] = 0; for (vl i = 0; i < r; ++i) cov[p][q] += dm[i][p] * dm[i][q]; cov[p][q] /= (R)r; if (p < q) s += cov[p][q] * cov[p][q]; }
	if (op == 0) eqR(l, s / (R)(c - 1), "sum of squared covariances of different neurons");
	// the derivative of that sum with respect to the (i,j)-th value
	else for (vl i = 0; i < r; ++i) for (vl j = 0; j < c; ++j) { R g = 0; for (vl q = 0; q < c; ++q) if (q != j) g += cov[j][q] * dm[i][q]; g = 2 * g / (R)r / (R)(c - 1); eqR(E(op == 1 ? D : A, i, j), sc * g, "scaled derivative of the decorrelation loss"); }
	if (op < 2) { for (vl i = 0; i < r; ++i) { for (vl j = 0; j < c; ++j) eqR(E(A, i, j), a(i, j), "argument unchanged"); if (bias) eqR(E(A, i, c), 1., "biases stay"); } } iM.deinit(); vs_reach("decov");
}
// ------------------------------------------------------------------------------------------------ C20: dropout
//@ prop=C20 entry=h_dropout mode=real reach=dropout
//@bounds matrices 1x1 and 2x3, any activations, any keep probability and random draw in their ranges, every variant
extern "C" void h_dropout() {
	vs_set_threads(3); IM iM; vl r, c; shp(vs_choose("shape", 2) ? 2 : 0, r, c); int op = (int)vs_choose("op", 9); bool bias = op < 3 || op >= 6 || vs_choose("bias", 2); M A(r, c, bias), D(r, c); sym(A, "a"); sym(D, "m", 0., 1.); R k = inUnit("keep"), aa = vs_num<R>("aa"), bb = vs_num<R>("bb"), dv = vs_num<R>("dv"); vs_assume(aa > 0); Cp a(A), m(D);
	switch (op) { case 0: iM.make_dropout(A, k, D); break; case 1: iM.make_dropout_st(A, k, D); break; case 2: iM.make_dropout_mt(A, k, D); break; case 3: iM.apply_dropout_mask(A, k, D); break; case 4: iM.apply_dropout_mask_st(A, k, D); break; case 5: iM.apply_dropout_mask_mt(A, k, D); break; case 6: iM.make_alphaDropout(A, k, aa, bb, dv, D); break; case 7: iM.make_alphaDropout_st(A, k, aa, bb, dv, D); break; default: iM.make_alphaDropout_mt(A, k, aa, bb, dv, D); }
	for (vl j = 0; j < c; ++j) for (vl i = 0; i < r; ++i) { bool keep = m(i, j) < k; R x = a(i, j), y = E(A, i, j), d = E(D, i, j);
		if (op < 3) { eqR(d * k, keep ? 1. : 0., "mask is the inverse keep probability or zero"); eqR(y * k, keep ? x : 0., "kept values are scaled up, dropped ones are zero"); } else if (op < 6) { eqR(d, m(i, j), "mask unchanged"); eqR(y, keep ? x : 0., "kept values stay, dropped ones are zero"); } else { eqR(d, keep ? aa : 0., "mask of alpha dropout"); eqR(y, keep ? aa * x + bb : dv, "alpha dropout"); } }
	if (bias) for (vl i = 0; i < r; ++i) eqR(E(A, i, c), 1., "biases stay"); vs_reach("dropout");
}
//@ prop=C20 entry=h_snn mode=real reach=snn
//@bounds any keep probability in (0,1), default and custom alpha, lambda, fixed-point mean and variance: alpha dropout keeps mean and variance at the fixed point
extern "C" void h_snn() {
	R p = inUnit("p"), a = 0, b = 0, dv = 0, al, m, v; bool co = vs_choose("coeffs", 2);
	if (vs_choose("custom", 2)) { typedef nntl::_impl::SNN_td<R, 1500000000, 1250000000, 250000, 500000> S; if (co) S::calc_coeffs(p, a, b, dv); else S::calc_a_b(p, a, b); al = -1.5 * 1.25; m = .25; v = .5; } else { typedef nntl::_impl::SNN_td<R> S; if (co) S::calc_coeffs(p, a, b, dv); else S::calc_a_b(p, a, b); al = S::Neg_Alpha_t_Lambda; m = 0; v = 1; vs_assert(S::Alpha > 1.6732632 && S::Alpha < 1.6732633 && S::Lambda > 1.0507009 && S::Lambda < 1.0507010, "SELU constants"); }
	R q = 1 - p; vs_assert(a > 0, "positive scale"); vs_assert_near(a * (p * m + q * al) + b, m, 1e-9, "mean at the fixed point stays"); vs_assert_near(a * a * p * (q * (al - m) * (al - m) + v), v, 1e-9, "variance at the fixed point stays"); if (co) vs_assert_near(dv, a * al + b, 1e-9, "value of dropped neurons"); vs_reach("snn");
}
