//@small
// Activations, losses, softmax, optimizers, norms, dropout: the real kernels over the real worker pool.
#include "kern.h"
#include "blas.h"
#include <nntl/nntl.h>
// ------------------------------------------------------------------------------------------------ C15: activation functions
#define ACTS(X) X(0, sigm, dsigm, (), ()) X(1, relu, drelu, (), ()) X(2, leakyrelu, dleakyrelu, (, a), (, a)) X(3, elu, delu, (, a), (, a)) X(4, elu_unitalpha, delu_unitalpha, (), ()) \
	X(5, elogu, delogu, (, a, b), (, a, b)) X(6, elogu_ua, delogu_ua, (, b), (, b)) X(7, elogu_nb, delogu_nb, (, a), (, a)) X(8, elogu_ua_nb, delogu_ua_nb, (), ()) \
	X(9, loglogu, dloglogu, (, c, b), (, c, b)) X(10, loglogu_nbn, dloglogu_nbn, (, b), (, b)) X(11, loglogu_nbp, dloglogu_nbp, (, c), (, c)) X(12, loglogu_nbn_nbp, dloglogu_nbn_nbp, (), ()) \
	X(13, logu, dlogu, (, b), (, b)) X(14, logu_nb, dlogu_nb, (), ()) X(15, softsign_uc, dsoftsign, (, a), (, a, 1.)) X(16, softsign, dsoftsign, (, a, d), (, a, d)) X(17, softsigm, dsoftsigm, (, a), (, a)) X(18, selu, dselu, (, a, d), (, a, d))
#define UNP(...) __VA_ARGS__
static void actF(IM& iM, int k, int v, M& A, R a, R b, R c, R d) { switch (k) {
#define X(n, F, D, p, q) case n: if (v == 0) iM.F(A UNP p); else if (v == 1) iM.F##_st(A UNP p); else iM.F##_mt(A UNP p); break;
	ACTS(X)
#undef X
	case 19: if (v == 0) iM.step(A); else if (v == 1) iM.step_st(A); else iM.step_mt(A); break; case 20: if (v == 0) iM.softsign_uc(A, 1.); else if (v == 1) iM.softsign_uc_st(A, 1.); else iM.softsign_uc_mt(A, 1.); break; } }
static void actD(IM& iM, int k, int v, M& A, R a, R b, R c, R d) { switch (k) {
#define X(n, F, D, p, q) case n: if (v == 0) iM.D(A UNP q); else if (v == 1) iM.D##_st(A UNP q); else iM.D##_mt(A UNP q); break;
	ACTS(X)
#undef X
	case 20: if (v == 0) iM.dsoftsign_ua_uc(A); else if (v == 1) iM.dsoftsign_ua_uc_st(A); else iM.dsoftsign_ua_uc_mt(A); break; } }
static R refF(int k, R x, R a, R b, R c, R d) {
	bool neg = x < 0; R ax = neg ? -x : x;
	switch (k) { case 0: return 1 / (1 + std::exp(-x)); case 1: return neg ? 0. : x; case 2: return neg ? a * x : x; case 3: return neg ? a * (std::exp(x) - 1) : x; case 4: return neg ? std::exp(x) - 1 : x;
	case 5: return neg ? a * (std::exp(x) - 1) : std::log(1 + x) / std::log(b); case 6: return neg ? std::exp(x) - 1 : std::log(1 + x) / std::log(b); case 7: return neg ? a * (std::exp(x) - 1) : std::log(1 + x); case 8: return neg ? std::exp(x) - 1 : std::log(1 + x);
	case 9: return neg ? -std::log(1 + ax) / std::log(c) : std::log(1 + ax) / std::log(b); case 10: return neg ? -std::log(1 + ax) : std::log(1 + ax) / std::log(b); case 11: return neg ? -std::log(1 + ax) / std::log(c) : std::log(1 + ax); case 12: return neg ? -std::log(1 + ax) : std::log(1 + ax);
	case 13: return neg ? 0. : std::log(1 + x) / std::log(b); case 14: return neg ? 0. : std::log(1 + x); case 15: return x / (a + ax); case 16: return d * x / (a + ax); case 17: return (1 + x / (a + ax)) / 2; case 18: return neg ? a * (std::exp(x) - 1) : d * x; case 19: return neg ? 0. : 1.; default: return x / (1 + ax); }
}
// the derivative of the function as a function of x, written as numerator and denominator (df * den == num)
static void refD(int k, R x, R a, R b, R c, R d, R& num, R& den) {
	bool neg = x < 0; R ax = neg ? -x : x; num = 0; den = 1;
	switch (k) { case 0: { R e = std::exp(-x); num = e; den = (1 + e) * (1 + e); break; } case 1: num = x <= 0 ? 0. : 1.; break; case 2: num = x <= 0 ? a : 1.; break; case 3: num = neg ? a * std::exp(x) : 1.; break; case 4: num = neg ? std::exp(x) : 1.; break;
	case 5: case 7: if (neg) num = a * std::exp(x); else num = 1, den = (1 + x) * (k == 5 ? std::log(b) : 1.); break; case 6: case 8: if (neg) num = std::exp(x); else num = 1, den = (1 + x) * (k == 6 ? std::log(b) : 1.); break;
	case 9: num = 1; den = (1 + ax) * (neg ? std::log(c) : std::log(b)); break; case 10: num = 1; den = (1 + ax) * (neg ? 1. : std::log(b)); break; case 11: num = 1; den = (1 + ax) * (neg ? std::log(c) : 1.); break; case 12: num = 1; den = 1 + ax; break;
	case 13: if (x > 0) num = 1, den = (1 + x) * std::log(b); break; case 14: if (x > 0) num = 1, den = 1 + x; break; case 15: num = a; den = (a + ax) * (a + ax); break; case 16: num = d * a; den = (a + ax) * (a + ax); break; case 17: num = a; den = 2 * (a + ax) * (a + ax); break; case 18: num = neg ? a * std::exp(x) : d; break; default: num = 1; den = (1 + ax) * (1 + ax); }
}
static void symAlt(R* p, nc n) { int o = (int)vs_choose("alt", 2); for (nc i = 0; i < n; ++i) { p[i] = vs_num<R>("x"); if ((i + o) & 1) vs_assume(p[i] < 0); else vs_assume(p[i] >= 0); } }
//@ prop=C15 entry=h_act mode=real reach=act,mtpath toassert=60000
//@bounds 21 activation functions, every single- and multi-threaded variant, matrices 1x1 and 2x3 with and without biases, any real parameters and contents with negative and non-negative elements alternating in either order
extern "C" void h_act() {
	vs_set_threads(3); IM iM; int k = (int)vs_choose("fn", 21), v = (int)vs_choose("variant", 3), sh = (int)vs_choose("shape", 2); vl r = sh ? 2 : 1, cl = sh ? 3 : 1; bool bias = vs_choose("bias", 2); R a = vs_num<R>("a"), b = vs_num<R>("b"), c = vs_num<R>("c"), d = vs_num<R>("d"); vs_assume(a > 0 && b > 1 && c > 1 && d > 0);
	M A(r, cl, bias); symAlt(A.begin(), A.numel_no_bias()); Cp x(A); if (sh && v != 1) vs_reach("mtpath"); actF(iM, k, v, A, a, b, c, d);
	for (vl j = 0; j < cl; ++j) for (vl i = 0; i < r; ++i) eqR(E(A, i, j), refF(k, x(i, j), a, b, c, d), "activation value"); if (bias) for (vl i = 0; i < r; ++i) eqR(E(A, i, cl), 1., "biases stay"); vs_reach("act");
}
//@ prop=C15 entry=h_dact mode=real reach=dact toassert=60000
//@bounds 20 derivatives, every variant, matrices 1x1 and 2x3, any real parameters, any real argument at any one position (the other elements fixed): the derivative kernel applied to the activation value yields the derivative at the argument
extern "C" void h_dact() {
	vs_set_threads(3); IM iM; int k = (int)vs_choose("fn", 20); if (k == 19) k = 20; int v = (int)vs_choose("variant", 3), sh = (int)vs_choose("shape", 2); vl r = sh ? 2 : 1, cl = sh ? 3 : 1; R a = vs_num<R>("a"), b = vs_num<R>("b"), c = vs_num<R>("c"), d = vs_num<R>("d"); vs_assume(a > 0 && b > 1 && c > 1 && d > 0);
	M A(r, cl); R x[6] = { .5, -.25, -2, 0, 3, -.125 }; symAlt(x + (sh ? vs_choose("pos", 6) : 0), 1); for (nc i = 0; i < A.numel(); ++i) { A.begin()[i] = refF(k, x[i], a, b, c, d); } actD(iM, k, v, A, a, b, c, d);
	for (nc i = 0; i < A.numel(); ++i) { R n, de; refD(k, x[i], a, b, c, d, n, de); eqR(A.begin()[i] * de, n, "derivative at the argument"); } vs_reach("dact");
}
template<class A> static void cls(IM& iM, int k, R a, R b, R c, R d, bool bias) {
	M X(1, 2, bias), Y(1, 2, bias), Z(1, 2, bias); Z.zeros(); if (bias) Z.fill_bias_column(); symAlt(X.begin(), 2); for (int i = 0; i < 2; ++i) Y.begin()[i] = X.begin()[i];
	A::f(X, iM); if (k < 0) { if (k == -1) for (int i = 0; i < 2; ++i) eqR(X.begin()[i], Y.begin()[i], "identity"); } else { actF(iM, k, 0, Y, a, b, c, d); for (int i = 0; i < 2; ++i) eqR(X.begin()[i], Y.begin()[i], "the activation class applies its function with its parameters"); } if (bias) eqR(X.begin()[2], 1., "biases stay");
	if (A::bFIsZeroStable) { A::f(Z, iM); for (int i = 0; i < 2; ++i) eqR(Z.begin()[i], 0., "a zero-stable function maps zero to zero"); }
	M D(1, 2), F(1, 2); for (int i = 0; i < 2; ++i) D.begin()[i] = F.begin()[i] = X.begin()[i]; A::df(D, iM); if (k >= 0 && k != 19) { actD(iM, k, 0, F, a, b, c, d); for (int i = 0; i < 2; ++i) eqR(D.begin()[i], F.begin()[i], "the class derivative uses the same parameters"); } else for (int i = 0; i < 2; ++i) eqR(D.begin()[i], k == -1 ? 1. : 0., "constant derivative");
	M I(1, 2); for (int i = 0; i < 2; ++i) I.begin()[i] = X.begin()[i]; A::dIdentity(I, iM); for (int i = 0; i < 2; ++i) eqR(I.begin()[i], 1., "identity derivative");
}
//@ prop=C15 entry=h_actcls mode=real reach=cls toassert=60000
//@bounds 24 instantiations of the activation classes (unit and non-unit parameters, natural and other bases), 1x2 matrices with and without biases, any real contents
extern "C" void h_actcls() {
	using namespace nntl::activation; vs_set_threads(2); IM iM; bool b = vs_choose("bias", 2); typedef nntl::_impl::SNN_td<R> S; typedef nntl::_impl::SNN_td<R, 1500000000, 1250000000> S2;
	switch (vs_choose("cls", 24)) { case 0: cls<sigm<R>>(iM, 0, 0, 0, 0, 0, b); break; case 1: cls<relu<R>>(iM, 1, 0, 0, 0, 0, b); break; case 2: cls<leaky_relu<R, 10000>>(iM, 2, .01, 0, 0, 0, b); break; case 3: cls<leaky_relu_1000<R>>(iM, 2, .001, 0, 0, 0, b); break; case 4: cls<very_leaky_relu_5p5<R>>(iM, 2, 100. / 550, 0, 0, 0, b); break;
	case 5: cls<elu<R, 1500>>(iM, 3, 1.5, 0, 0, 0, b); break; case 6: cls<elu_ua<R>>(iM, 4, 0, 0, 0, 0, b); break; case 7: cls<elogu<R, 1500, 3000>>(iM, 5, 1.5, 3, 0, 0, b); break; case 8: cls<elogu_ua<R, 3000>>(iM, 6, 0, 3, 0, 0, b); break; case 9: cls<elogu_nb<R, 1500>>(iM, 7, 1.5, 0, 0, 0, b); break; case 10: cls<elogu_ua_nb<R>>(iM, 8, 0, 0, 0, 0, b); break;
	case 11: cls<loglogu<R, 3000, 2500>>(iM, 9, 0, 2.5, 3, 0, b); break; case 12: cls<loglogu_nbn<R, 2500>>(iM, 10, 0, 2.5, 0, 0, b); break; case 13: cls<loglogu_nbp<R, 3000>>(iM, 11, 0, 0, 3, 0, b); break; case 14: cls<loglogu_nbn_nbp<R>>(iM, 12, 0, 0, 0, 0, b); break; case 15: cls<logu<R, 2500>>(iM, 13, 0, 2.5, 0, 0, b); break; case 16: cls<logu_nb<R>>(iM, 14, 0, 0, 0, 0, b); break;
	case 17: cls<softsign<R, 1500000, 1000000>>(iM, 15, 1.5, 0, 0, 0, b); break; case 18: cls<softsign<R, 1500000, 1250000>>(iM, 16, 1.5, 0, 0, 1.25, b); break; case 19: cls<softsign_uc_ua<R>>(iM, 20, 0, 0, 0, 0, b); break; case 20: cls<softsigm<R, 1500>>(iM, 17, 1.5, 0, 0, 0, b); break; case 21: cls<selu<R, 1500000000, 1250000000>>(iM, 18, 1.5 * 1.25, 0, 0, 1.25, b); break; case 22: cls<activation::step<R>>(iM, 19, 0, 0, 0, 0, b); break; default: cls<identity<R>>(iM, -1, 0, 0, 0, 0, b); }
	vs_reach("cls");
}
// ------------------------------------------------------------------------------------------------ C16: losses, their gradients, softmax
static void shp(int sh, vl& r, vl& c) { r = sh ? 2 : 1; c = sh == 0 ? 1 : sh == 1 ? 2 : 3; }
//@ prop=C16 entry=h_quad mode=real reach=quad
//@bounds matrices 1x1, 2x2 and 2x3, any real activations and targets, every variant
extern "C" void h_quad() {
	vs_set_threads(3); IM iM; vl r, c; shp((int)vs_choose("shape", 3), r, c); M A(r, c), Y(r, c); sym(A, "a"); sym(Y, "y"); Cp a(A), y(Y); R l = 0, e = 0; bool g = false;
	using namespace nntl::activation; typedef Loss_quadratic<R> Q; switch (vs_choose("op", 12)) { case 0: l = iM.loss_quadratic(A, Y); break; case 1: l = iM.loss_quadratic_st_naive(A, Y); break; case 2: l = iM.loss_quadratic_mt_naive(A, Y); break; case 3: l = iM.loss_quadratic_ns(A, Y); break; case 4: l = iM.loss_quadratic_st_naive_ns(A, Y); break; case 5: l = iM.loss_quadratic_mt_naive_ns(A, Y); break;
	case 6: l = iM.compute_loss_st<Q>(A, Y); break; case 7: l = iM.compute_loss_mt<Q>(A, Y); break; case 8: l = identity_quad_loss<R>::loss(A, Y, iM); break; case 9: l = sigm_quad_loss<R, weights_init::Martens_SI_sigm<>, true>::loss(A, Y, iM); break; case 10: l = softsigm_quad_loss<R, 1500>::loss(A, Y, iM); break;
	default: g = true; if (vs_choose("which", 2)) identity_quad_loss<R>::dLdZ(Y, A, iM); else sigm_quad_loss<R>::dLdZIdentity(Y, A, iM); }
	for (size_t i = 0; i < a.n; ++i) { R d = a.v[i] - y.v[i]; e += d * d; eqR(Y.begin()[i], y.v[i], "targets unchanged"); eqR(A.begin()[i], g ? d : a.v[i], "gradient of half the squared error"); } if (!g) eqR(2 * l, e, "half the sum of squared errors"); vs_reach("quad");
}
// gradient with respect to the pre-activation is (dL/da) * (da/dz)
//@ prop=C16 entry=h_dldz mode=real reach=dldz
//@bounds matrices 1x1 and 2x3, any activation strictly between zero and one, any target, any positive parameter, every variant
extern "C" void h_dldz() {
	vs_set_threads(3); IM iM; vl r, c; int sh = (int)vs_choose("shape", 2); shp(sh * 2, r, c); M A(r, c), Y(r, c); sym(A, "a"); sym(Y, "y"); for (nc i = 0; i < A.numel(); ++i) vs_assume(A.begin()[i] > 0 && A.begin()[i] < 1); Cp a(A), y(Y); R k = vs_num<R>("k"); vs_assume(k > 0);
	using namespace nntl::activation; int op = (int)vs_choose("op", 18); switch (op) { case 0: iM.dSigmQuadLoss_dZ(Y, A); break; case 1: iM.dSigmQuadLoss_dZ_st(Y, A); break; case 2: iM.dSigmQuadLoss_dZ_mt(Y, A); break; case 3: sigm_quad_loss<R>::dLdZ(Y, A, iM); break;
	case 4: iM.dSoftSigmQuadLoss_dZ(Y, A, k); break; case 5: iM.dSoftSigmQuadLoss_dZ_st(Y, A, k); break; case 6: iM.dSoftSigmQuadLoss_dZ_mt(Y, A, k); break; case 7: softsigm_quad_loss<R, 1500>::dLdZ(Y, A, iM); k = 1.5; break;
	case 8: iM.dSoftSigmXEntropyLoss_dZ(Y, A, k); break; case 9: iM.dSoftSigmXEntropyLoss_dZ_st(Y, A, k); break; case 10: iM.dSoftSigmXEntropyLoss_dZ_mt(Y, A, k); break; case 11: softsigm_xentropy_loss<R, 1500>::dLdZ(Y, A, iM); k = 1.5; break;
	case 12: iM.dIdentityXEntropyLoss_dZ(Y, A); break; case 13: iM.dIdentityXEntropyLoss_dZ_st(Y, A); break; case 14: iM.dIdentityXEntropyLoss_dZ_mt(Y, A); break; case 15: sigm_xentropy_loss<R>::dLdZIdentity(Y, A, iM); break; case 16: sigm_xentropy_loss<R>::dLdZ(Y, A, iM); break; default: softmax_xentropy_loss<R>::dLdZ(Y, A, iM); }
	for (size_t i = 0; i < a.n; ++i) { R x = a.v[i], t = y.v[i], g = A.begin()[i], s = x < .5 ? x : 1 - x; eqR(Y.begin()[i], t, "targets unchanged");
		if (op < 4) eqR(g, (x - t) * x * (1 - x), "sigmoid, squared error"); else if (op < 8) eqR(g * k, (x - t) * 2 * s * s, "soft sigmoid, squared error"); else if (op < 12) eqR(g * x * (1 - x) * k, (x - t) * 2 * s * s, "soft sigmoid, cross-entropy"); else if (op < 16) eqR(g * x * (1 - x), x - t, "identity, cross-entropy"); else eqR(g, x - t, "sigmoid or softmax, cross-entropy"); } vs_reach("dldz");
}
//@ prop=C16 entry=h_xent mode=real reach=xent
//@bounds matrices 1x1 and 2x3, binary targets (zeros and ones alternating in either order, or all of one kind), any activations strictly between zero and one with one of them at either end as well, every variant
extern "C" void h_xent() {
	vs_set_threads(3); IM iM; vl r, c; int sh = (int)vs_choose("shape", 2); shp(sh * 2, r, c); M A(r, c), Y(r, c); sym(A, "a"); int pat = (int)vs_choose("targets", 4), ed = (int)vs_choose("edge", 3); for (nc i = 0; i < A.numel(); ++i) { Y.begin()[i] = pat < 2 ? (R)pat : (R)((i + pat) & 1); vs_assume(A.begin()[i] > 0 && A.begin()[i] < 1); } if (ed) A.begin()[A.numel() - 1] = ed == 1 ? 0. : 1.; Cp a(A), y(Y); R l = 0, e = 0;
	using namespace nntl::activation; int op = (int)vs_choose("op", 11); switch (op) { case 0: l = iM.loss_xentropy(A, Y); break; case 1: l = iM.loss_xentropy_st(A, Y); break; case 2: l = iM.loss_xentropy_mt(A, Y); break; case 3: l = iM.loss_xentropy_ns(A, Y); break; case 4: l = iM.loss_xentropy_ns_st(A, Y); break; case 5: l = iM.loss_xentropy_ns_mt(A, Y); break; case 6: l = sigm_xentropy_loss<R>::loss(A, Y, iM); break;
	case 7: l = iM.loss_softmax_xentropy(A, Y); break; case 8: l = iM.loss_softmax_xentropy_st(A, Y); break; case 9: l = iM.loss_softmax_xentropy_mt(A, Y); break; default: l = softmax_xentropy_loss<R>::loss(A, Y, iM); }
	const R tiny = 2.2250738585072014e-308, laz = -708.3964185322642; for (size_t i = 0; i < a.n; ++i) { R x = a.v[i]; if (op < 7) e -= std::log((y.v[i] > 0 ? x : 1 - x) + tiny); else e -= y.v[i] * (x > 0 ? std::log(x) : laz); eqR(A.begin()[i], x, "activations unchanged"); eqR(Y.begin()[i], y.v[i], "targets unchanged"); } eqR(l, e, "cross-entropy"); vs_reach("xent");
}
template<class L> static void custom(IM& iM, M& A, M& Y, int op, R fw, R ow, R bnd, bool res) {
	using namespace nntl::activation; Cp a(A), y(Y); R l = 0, e = 0; bool g = op >= 3; typedef identity_custom_loss<L> C; switch (op) { case 0: l = C::loss(A, Y, iM); break; case 1: l = iM.compute_loss_st<L>(A, Y); break; case 2: l = iM.compute_loss_mt<L>(A, Y); break; case 3: C::dLdZ(Y, A, iM); break; case 4: iM.dLoss_dZ_st<L>(Y, A); break; case 5: iM.dLoss_dZ_mt<L>(Y, A); break; default: C::dLdZIdentity(Y, A, iM); }
	for (size_t i = 0; i < a.n; ++i) { bool fp = (y.v[i] < bnd) & (a.v[i] > y.v[i]); R w = fp ? fw : ow, d = res && fp ? fw * a.v[i] + bnd * (1 - fw) - y.v[i] : w * (a.v[i] - y.v[i]); e += d * d; if (g) eqR(A.begin()[i], w * d, "gradient of the weighted loss"); else eqR(A.begin()[i], a.v[i], "activations unchanged"); eqR(Y.begin()[i], y.v[i], "targets unchanged"); } if (!g) eqR(2 * l, e, "weighted squared error");
}
//@ prop=C16 entry=h_custom mode=real reach=custom
//@bounds matrices 1x1 and 1x5, any real activations and targets, three weighted losses with exactly representable weights and boundary, every variant
extern "C" void h_custom() {
	using namespace nntl::activation; vs_set_threads(3); IM iM; M A(1, vs_choose("shape", 2) ? 5 : 1), Y(1, A.cols()); sym(A, "a"); sym(Y, "y"); int op = (int)vs_choose("op", 7);
	switch (vs_choose("loss", 3)) { case 0: custom<Linear_Loss_quadWeighted_FP<R, 1500000, 250000>>(iM, A, Y, op, 1.5, 1., .25, false); break; case 1: custom<Linear_Loss_quadWeighted2_FP<R, 1500000, 500000, 250000>>(iM, A, Y, op, 1.5, .5, .25, false); break; default: custom<Linear_Loss_quadWeighted_res_FP<R, 1500000, 250000>>(iM, A, Y, op, 1.5, 1., .25, true); } vs_reach("custom");
}
//@ prop=C16 entry=h_softmax mode=real reach=softmax
//@bounds 1..2 rows, 1..3 columns (1x5 and 2x4 as well), with and without biases, any real contents, position of each row's maximum split per path, every variant
extern "C" void h_softmax() {
	vs_set_threads(3); IM iM; int sh = (int)vs_choose("shape", 5); vl r = sh == 2 || sh == 3 ? 2 : 1, c = sh == 0 ? 1 : sh == 1 ? 3 : sh == 2 ? 2 : sh == 3 ? 4 : 5; int op = (int)vs_choose("op", 11); bool bias = op < 4 && vs_choose("bias", 2); math::smatrix_deform<R> A(r, c, bias); sym(A, "x"); vl mx[2] = { 0, 0 };
	for (vl i = 0; i < r; ++i) { mx[i] = (vl)vs_choose("max", i ? 2 : c); if (i && mx[i]) mx[i] = c - 1; for (vl j = 0; j < c; ++j) vs_assume(E(A, i, j) <= E(A, i, mx[i])); } Cp x(A); auto N = iM.softmax_needTempMem<R>(A.size_no_bias()); iM.preinit(N); if (!iM.init()) return; R pm[2], de[10] = { 0 }, nu[9]; for (vl i = 0; i < r; ++i) pm[i] = x(i, mx[i]); nu[r * c] = 55; vl dn = op == 4 || op == 8 || op == 10 ? r * 3 : r; de[dn] = 77; bool parts = op >= 4;
	switch (op) { case 0: iM.softmax(A); break; case 1: iM.softmax_st(A); break; case 2: iM.softmax_mt(A); break; case 3: nntl::activation::softmax_xentropy_loss<R>::f(A, iM); break; case 4: iM.softmax_parts(A, pm, de, nu); break; case 5: iM.softmax_parts_st(A, pm, de, nu); break; case 6: IM::softmax_parts_st_rw(A, pm, de, nu); break; case 7: IM::softmax_parts_st_cw(A, pm, de, nu); break; case 8: iM.softmax_parts_mt(A, pm, de, nu); break; case 9: iM.softmax_parts_mt_rw(A, pm, de, nu); break; default: if (c < 4) { iM.deinit(); return; } iM.softmax_parts_mt_cw(A, pm, de, nu); }
	vs_assert(A.rows() == r && A.cols() == c + (bias ? 1 : 0) && A.emulatesBiases() == bias, "shape stays");
	for (vl i = 0; i < r; ++i) { R s = 0, ex[5]; for (vl j = 0; j < c; ++j) { ex[j] = std::exp(x(i, j) - pm[i]); s += ex[j]; } if (parts) { eqR(de[i], s, "denominator"); for (vl j = 0; j < c; ++j) { eqR(nu[j * r + i], ex[j], "numerator"); eqR(E(A, i, j), x(i, j), "argument unchanged"); } } else { R t = 0; for (vl j = 0; j < c; ++j) { eqR(E(A, i, j) * s, ex[j], "softmax"); t += E(A, i, j); } if (bias) eqR(E(A, i, c), 1., "biases stay"); } }
	if (parts) { eqR(nu[r * c], 55, "nothing written past the numerators"); eqR(de[dn], 77, "nothing written past the denominators"); } iM.deinit(); vs_reach("softmax");
}
//@ prop=C16 entry=h_softmax_big reach=big
//@bounds 1x2 rows with elements from a set of large and small magnitudes (up to 1e300), every variant: no overflow
extern "C" void h_softmax_big() {
	vs_set_threads(2); IM iM; static const R T[7] = { -1e300, -1000, -750, 0, 710, 1000, 1e300 }; math::smatrix_deform<R> A(1, 2); A.begin()[0] = T[vs_choose("p", 7)]; A.begin()[1] = T[vs_choose("q", 7)]; R p = A.begin()[0], q = A.begin()[1]; auto N = iM.softmax_needTempMem<R>(A.size_no_bias()); iM.preinit(N); if (!iM.init()) return; switch (vs_choose("op", 3)) { case 0: iM.softmax(A); break; case 1: iM.softmax_st(A); break; default: iM.softmax_mt(A); }
	R x = A.begin()[0], y = A.begin()[1]; vs_assert(x >= 0 && x <= 1 && y >= 0 && y <= 1 && x + y > .999 && x + y < 1.001 && (x >= y) == (p >= q), "softmax of extreme values stays a distribution"); iM.deinit(); vs_reach("big");
}
