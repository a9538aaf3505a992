//@small
//@strings
// Weight initialization schemes and how layers use them.
#include <random>
extern "C" double vs_f64(const char*); extern "C" void vs_assume(bool); extern "C" void vs_assert(bool, const char*);
static double g_nd[64]; static int g_nn = 0; // the standard normal draws
// stands in for the standard library's distribution: mean plus deviation times an arbitrary draw
namespace std { template<class T> class vp_normal_distribution { T m_, s_; public: typedef T result_type; explicit vp_normal_distribution(T m = 0, T s = 1) : m_(m), s_(s) { vs_assert(s > 0, "a proper deviation"); } template<class G> T operator()(G&) { T x = vs_f64("normal"); vs_assume(x > g_nn + 1 && x < g_nn + 1.5); if (g_nn < 64) g_nd[g_nn] = x; ++g_nn; return m_ + s_ * x; } void reset() {} }; }
#define normal_distribution vp_normal_distribution
#define NET_RNG
#include "netref.h"
#include <lapacke.h>
#include <nntl/interface/rng/afrand.h>
typedef rng::AFRand<R, Gen> Rg; static int chooseInt(int lo, int hi) { return lo + (int)vs_choose("rng", (uint64_t)(hi - lo + 1)); }
static int g_svd = 0, g_fail = 0, g_from = 0; static R g_q[64]; static int g_m, g_n;
extern "C" lapack_int LAPACKE_dgesvd(int lay, char ju, char jv, lapack_int m, lapack_int n, double* a, lapack_int lda, double* s, double* u, lapack_int ldu, double* vt, lapack_int ldvt, double* superb) {
	vs_assert(lay == LAPACK_COL_MAJOR && m == g_m && n == g_n && lda == m, "the whole matrix"); vs_assert(m >= n ? ju == 'O' && jv == 'N' : ju == 'N' && jv == 'O', "the orthogonal factor of that shape replaces the matrix"); int k = m < n ? m : n; for (int i = 0; i < k; ++i) s[i] = 0; for (int i = 0; i + 1 < k; ++i) superb[i] = 0; vs_assert(s + k <= superb || superb + k - 1 <= s, "separate outputs");
	for (int i = 0; i < m * n; ++i) eqR(a[i], g_nd[g_from + i], "fresh normal draws"); g_from += m * n; for (int i = 0; i < m * n; ++i) a[i] = g_q[i] = vs_num<R>("q"); return g_svd++ < g_fail ? 1 : 0; }
static void fill99(M& W) { for (nc i = 0; i < W.numel(); ++i) W.begin()[i] = 99; }
// w is the draw n scaled to a variance of c2 (c2 = squared deviation), whatever way it was computed
static void scaled(R w, R n, R c2n, R cnt, const char* l) { vs_assert(w * n >= 0, "sign of the draw"); eqR(w * w * cnt, c2n * n * n, l); }
//@ prop=C31 entry=h_dense mode=real reach=dense toassert=60000
//@bounds Xavier (scale 1 and 4), He-Zhang, its parametrised form and the self-normalising form; 1..3 neurons over 1..3 inputs, any draws
extern "C" void h_dense() {
	vs_set_threads(2); Rg rg(5); IM iM; int n = vs_pick("neurons", 1, 3), c = vs_pick("inputs", 1, 3), k = (int)vs_choose("scheme", 6); M W((vl)n, (vl)c + 1); fill99(W);
	if (k < 2) { bool ok = k ? weights_init::XavierFour::make_weights(W, rg, iM) : weights_init::Xavier<>::make_weights(W, rg, iM); vs_assert(ok && Gen::n == n * (c + 1) && g_nn == 0, "one uniform draw per weight"); for (int j = 0, d = 0; j <= c; ++j) for (int i = 0; i < n; ++i, ++d) scaled(E(W, i, j), 2 * Gen::d[d] - 1, (k ? 16. : 1.) * 6., n + c + 1, "uniform within sqrt(6 / (rows + columns))"); vs_reach("dense"); return; }
	bool ok = k == 2 ? weights_init::He_Zhang<>::make_weights(W, rg, iM) : k == 3 ? weights_init::He_Zhang<1500000>::make_weights(W, rg, iM) : k == 4 ? weights_init::He_Zhang2<3000000>::make_weights(W, rg, iM) : weights_init::SNNInit::make_weights(W, rg, iM); R v = k == 2 ? 2. : k == 3 ? 4.5 : k == 4 ? 3. : 1.;
	vs_assert(ok && g_nn == n * c, "one normal draw per weight"); for (int j = 0, d = 0; j <= c; ++j) for (int i = 0; i < n; ++i) if (j == c) eqR(E(W, i, j), 0., "biases start at zero"); else scaled(E(W, i, j), g_nd[d++], v, c, "normal with variance by the number of inputs"); vs_reach("dense");
}
template<class S> static void martens(int nz, R bias, R sd) {
	Rg rg(5); IM iM; int n = vs_pick("neurons", 1, 2), c = nz + (int)vs_choose("more", 3); M W((vl)n, (vl)c + 1); fill99(W); vs_assert(S::make_weights(W, rg, iM), "made"); vs_assert(g_nn == n * nz, "one draw per connection"); R s = 0, e = 0;
	for (int i = 0; i < n; ++i) { int k = 0; for (int j = 0; j < c; ++j) { k += E(W, i, j) != 0; s += E(W, i, j); } vs_assert(k == nz, "so many connections of every neuron"); eqR(E(W, i, c), bias, "bias"); } for (int d = 0; d < g_nn; ++d) e += g_nd[d]; eqR(s, sd * e, "every draw is used once"); vs_reach("sparse");
}
//@ prop=C31 entry=h_sparse mode=real reach=sparse toassert=60000
//@bounds sparse initialisation with 1..2 connections out of up to 2 more inputs, 1..2 neurons, any draws, any order of the inputs
extern "C" void h_sparse() { vs_set_threads(2); Gen::irnd = chooseInt; switch (vs_choose("scheme", 4)) { case 0: martens<weights_init::Martens_SI_sigm<1>>(1, 0., 1.); break; case 1: martens<weights_init::Martens_SI_sigm<2>>(2, 0., 1.); break; case 2: martens<weights_init::Martens_SI_tanh<2>>(2, .5, .25); break; default: martens<weights_init::Martens_SI<-2000000, 3000000, 1>>(1, -2., 3.); } }
template<class S> static void ortho(R gain, int tries) {
	Rg rg(5); IM iM; g_m = vs_pick("rows", 1, 3); g_n = vs_pick("cols", 2, 3); M W((vl)g_m, (vl)g_n); fill99(W); g_fail = (int)vs_choose("fail", (uint64_t)tries + 1); bool ok = S::make_weights(W, rg, iM); vs_assert(ok == (g_fail < tries), "fails when every try failed"); vs_assert(g_svd == (g_fail < tries ? g_fail + 1 : tries), "as many tries as allowed"); if (ok) for (nc i = 0; i < W.numel(); ++i) eqR(W.begin()[i], gain * g_q[i], "the orthogonal factor times the gain"); vs_reach("ortho");
}
//@ prop=C31 entry=h_ortho mode=real reach=ortho toassert=60000
//@bounds orthogonal initialisation of 1..3 x 2..3 matrices with gain 1 and 1.5; the singular value decomposition (LAPACK) is replaced by an arbitrary result, failing any number of times
extern "C" void h_ortho() { vs_set_threads(2); if (vs_choose("scheme", 2)) ortho<weights_init::OrthoInit_u>(1., 5); else ortho<weights_init::OrthoInit<1500000, 3>>(1.5, 3); }
//@ prop=C31 entry=h_layer mode=real reach=layer,failed toassert=60000
//@bounds a network of two layers with different schemes: weights made on initialisation, kept on reinitialisation, given weights are kept, weights can be redrawn; failing initialisation
extern "C" void h_layer() {
	vs_set_threads(2); layer_input<NI> inp(2); LFC<activation::relu<R, weights_init::He_Zhang<>>, GWk> f0(2, 1.); layer_output<activation::identity_quad_loss<R, weights_init::OrthoInit<1000000, 1>>, GWk> out(1, 1.); auto lp = make_layers(inp, f0, out); nnet<decltype(lp)> nn(lp); g_m = 1; g_n = 3; g_from = 4; g_fail = vs_choose("fail", 2); bool given = vs_choose("given", 2); T w; if (given) { w = setW(f0, 2, "w"); g_from = 0; }
	auto ec = nn.___init(1, 1, false); if (g_fail) { vs_assert(ec == decltype(ec)::CantInitializeWeights, "reason of the failure"); vs_reach("failed"); g_fail = 0; g_from = g_nn; ec = nn.___init(1, 1, false); }
	vs_assert(ec == decltype(ec)::Success, "initialises"); M& W = f0.get_weights(); vs_assert(W.rows() == 2 && W.cols() == 3 && out.get_weights().rows() == 1 && out.get_weights().cols() == 3, "shape of the weights"); T w0 = wOf(W), w1 = wOf(out.get_weights()); if (given) same(W, w, "given weights are kept"); else { for (int j = 0, d = 0; j < 3; ++j) for (int i = 0; i < 2; ++i) if (j == 2) eqR(w0[i][j], 0., "bias"); else scaled(w0[i][j], g_nd[d++], 2., 2., "scheme of the layer"); } for (int j = 0; j < 3; ++j) eqR(w1[0][j], g_q[j], "scheme of the layer");
	int d = g_nn; nn.deinit(); ec = nn.___init(2, 1, false); vs_assert(ec == decltype(ec)::Success && g_nn == d, "nothing is redrawn"); same(f0.get_weights(), w0, "weights survive a reinitialisation"); same(out.get_weights(), w1, "weights survive a reinitialisation");
	vs_assert(f0.reinit_weights() && g_nn == d + 4, "redrawn on request"); for (int j = 0; j < 3; ++j) for (int i = 0; i < 2; ++i) if (j == 2) eqR(E(f0.get_weights(), i, j), 0., "bias"); else scaled(E(f0.get_weights(), i, j), g_nd[d++], 2., 2., "redrawn"); vs_reach("layer");
}
