//@small
//@strings
// Dropout layers and penalised activations: what a layer shows above, what it passes down, which loss it reports.
#define NET_RNG
#include "netref.h"
typedef LFC<activation::identity<R>, GWk> FI; typedef layer_output<activation::identity_quad_loss<R>, GWk> OI; typedef activation::relu<R> Relu; typedef activation::sigm<R> Sigm; typedef activation::identity<R> Iden;
template<class L> struct FPt; static const R L1r = 0.25, L2r = 0.5, L3r = 2;
static R unitP(const char* n) { R v = vs_num<R>(n); vs_assume(v > 0 && v < 1); return v; }
static T dmask(int r, int c, R p, int from) { T m(r, c); R inv = 1. / p; for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) m[i][j] = Gen::d[from++] < p ? inv : 0.; return m; } // kept exactly when the draw is below p
static T mul(const T& a, const T& b) { T t(a.r, a.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < a.c; ++j) t[i][j] = a[i][j] * b[i][j]; return t; }
// A lower layer of 2 identity neurons, the layer under test, an output; one pass in training or evaluation; fw and bw say what the layer makes of its activations and of the gradient.
template<class LT, class FW, class BW, class LA> static void probe(LT& lt, int k, int nIn, int nOut, int mb, bool train, FW fw, BW bw, LA la, int second = 0) {
	layer_input<NI> inp(1); FI f0(nIn, L1r); OI out(1, L3r); auto lp = make_layers(inp, f0, lt, out); nnet<decltype(lp)> nn(lp); T w0 = setW(f0, 1, "w0"), w1 = setW(lt, nIn, "w1"), w2 = setW(out, nOut, "w2"); auto ec = nn.___init(mb, mb, false); vs_assert(ec == decltype(ec)::Success, "initialises");
	for (int s = 0; s <= second; ++s) { bool tr = s ? true : train; vl bs = s ? 1 : 1 + (vl)vs_choose("bs", mb); M X(bs, 1, true), Y(bs, 1); sym(X, "x"); sym(Y, "y"); T x = tOf(X), y = tOf(Y); mode(nn, tr, bs); int d0 = Gen::n; lp.fprop(X); int d1 = Gen::n;
		T a0 = fwd(A_ID, w0, x), a1 = fwd(k, w1, a0), a1d = fw(a1, tr, d0), a2 = fwd(A_ID, w2, a1d); vs_assert(Gen::n == d1, "no further draws"); same(lt.get_activations(), a1d, "activations the layer above sees"); biasOk(lt); same(out.get_activations(), a2, "output"); eqR(lp.calcLossAddendum(), la(a1d), "loss addendum");
		if (tr) { lp.bprop(Y); T d2 = dOut(A_ID, a2, y), dA = down(d2, w2), dA1 = bw(dA, a1, a1d, d0), dz = mulD(k, a1, dA1), dA0 = down(dz, w1); vs_assert(Gen::n == d1, "the backward pass draws nothing"); same(out.get_weights(), step(w2, grad(d2, a1d, w2, bs), L3r), "weights of the layer above"); same(lt.get_weights(), step(w1, grad(dz, a0, w1, bs), L2r), "weights of the layer"); same(f0.get_weights(), step(w0, grad(dA0, x, w0, bs), L1r), "weights of the layer below"); w0 = newW(f0, "w0"); w1 = newW(lt, "w1"); w2 = newW(out, "w2"); vs_reach("step"); } }
}
//@ prop=C29 entry=h_drop mode=real reach=drop,step toassert=60000
//@bounds fully connected layer of 2 (1) neurons, identity, relu or sigmoid, inverted dropout with any keep probability (also 0 and 1: off; changed after initialisation), any draws, weights, data; batches of 1..2, a second (training) pass
extern "C" void h_drop() {
	vs_set_threads(2); int kind = (int)vs_choose("kind", 3); bool train = vs_choose("train", 2); int off = kind == 0 ? (int)vs_choose("off", 3) : 0; R p = off == 1 ? 0. : off == 2 ? 1. : unitP("p"); int n = kind == 0 ? 2 : 1;
	auto go = [&](auto& lt, int k) { lt.dropoutPercentActive(p); eqR(lt.dropoutPercentActive(), off ? 1. : p, "keep probability"); vs_assert(lt.bDropout() == !off, "dropout is on");
		probe(lt, k, 1, n, 2, train, [&](const T& a, bool tr, int d0) { if (off || !tr) { vs_assert(Gen::n == d0, "nothing is drawn"); return a; } vs_assert(Gen::n - d0 == a.r * a.c, "one draw per activation"); return mul(a, dmask(a.r, a.c, p, d0)); }, [&](const T& dA, const T& a, const T&, int d0) { return off ? dA : mul(dA, dmask(a.r, a.c, p, d0)); }, [](const T&) { return 0.; }, 1); };
	if (kind == 0) { LFC_DO<Iden, GWk, Dropout<R>> lt(n, L2r); go(lt, A_ID); } else if (kind == 1) { LFC_DO<Relu, GWk, Dropout<R>> lt(n, L2r); go(lt, A_RELU); } else { LFC_DO<Sigm, GWk, Dropout<R>> lt(n, L2r); go(lt, A_SIGM); } vs_reach("drop");
}
//@ prop=C29 entry=h_alpha mode=real reach=alpha,step toassert=60000
//@bounds fully connected layer of 2 (1) identity or sigmoid neurons with alpha dropout, keep probability 1/4, 1/2 or 7/8 (the coefficients for any probability: C20), any draws, training and evaluation, batches of 1..2, a second (training) pass
extern "C" void h_alpha() {
	vs_set_threads(2); bool sg = vs_choose("sigm", 2), train = vs_choose("train", 2); int pc = (int)vs_choose("p", 3); R p = pc == 0 ? 0.25 : pc == 1 ? 0.5 : 0.875, a, b, dv; int n = sg ? 1 : 2; typedef AlphaDropout<R> AD; AD::calc_coeffs<ext_real_t>(p, a, b, dv);
	auto go = [&](auto& lt, int k) { lt.dropoutPercentActive(p); probe(lt, k, 1, n, sg ? 1 : 2, train, [&](const T& v, bool tr, int d0) { if (!tr) return v; T t(v.r, v.c); for (int j = 0; j < v.c; ++j) for (int i = 0; i < v.r; ++i) { R k = Gen::d[d0++] < p ? a : 0.; t[i][j] = k * (v[i][j] + b / a) + (a - k) * (dv / a); } return t; }, [&](const T& dA, const T& v, const T&, int d0) { T t(v.r, v.c); for (int j = 0; j < v.c; ++j) for (int i = 0; i < v.r; ++i) t[i][j] = dA[i][j] * (Gen::d[d0++] < p ? a : 0.); return t; }, [](const T&) { return 0.; }, 1); };
	if (sg) { LFC_DO<Sigm, GWk, AD> lt(n, L2r); go(lt, A_SIGM); } else { LFC_DO<Iden, GWk, AD> lt(n, L2r); go(lt, A_ID); } vs_reach("alpha");
}
static R sgn(R v) { return (R)((0 < v) - (v < 0)); }
static R la12(const T& a, R s1, R s2) { R x = 0, y = 0; for (int j = 0; j < a.c; ++j) for (int i = 0; i < a.r; ++i) { x += std::abs(a[i][j]); y += a[i][j] * a[i][j]; } return s1 * x + s2 * .5 * y; }
template<bool FP, bool NZ, bool DO> static void pen(bool train) {
	typedef loss_addendum::L1<R, FP, NZ> A1; typedef loss_addendum::L2<R, FP, NZ> A2; typedef std::conditional_t<DO, LFC_PA_DO<std::tuple<A1, A2>, Iden, GWk, Dropout<R>>, LFC_PA<std::tuple<A1, A2>, Iden, GWk>> LT; LT lt(DO ? 1 : 2, L2r); int which = (int)vs_choose("which", 3); R s1 = which != 1 ? vs_num<R>("s1") : 0., s2 = which != 0 ? vs_num<R>("s2") : 0., p = 1; if (which != 1) vs_assume(s1 > 0); if (which != 0) vs_assume(s2 > 0); if (s1 != 0) lt.template addendum<A1>().scale(s1); if (s2 != 0) lt.template addendum<A2>().scale(s2); vs_assert(lt.hasLossAddendum(), "announces its loss addendum");
	if constexpr (DO) { p = 0.5; lt.dropoutPercentActive(p); }
	probe(lt, A_ID, 1, DO ? 1 : 2, DO ? 2 : 1, train, [&](const T& a, bool tr, int d0) { return DO && tr ? mul(a, dmask(a.r, a.c, p, d0)) : a; }, [&](const T& dA, const T& a, const T& ad, int d0) { T t = DO ? mul(dA, dmask(a.r, a.c, p, d0)) : dA; for (int k = 0; k < 2; ++k) if ((k ? s2 : s1) != 0) for (int j = 0; j < a.c; ++j) for (int i = 0; i < a.r; ++i) { R g = k ? s2 * a[i][j] : s1 * sgn(a[i][j]); if (!NZ || t[i][j] != 0) t[i][j] = t[i][j] + g; } return t; }, [&](const T& a) { return la12(a, s1, s2); });
}
//@ prop=C29 entry=h_pen mode=real reach=pen,step toassert=60000
//@bounds L1 and/or L2 penalties of any scale on the activations of 1..2 identity neurons, computed in the forward or in the backward pass, added everywhere or to nonzero gradients only, alone or under inverted dropout (keep probability 1/2, any draws); training and evaluation, batches of 1..2
extern "C" void h_pen() { vs_set_threads(2); bool tr = vs_choose("train", 2); switch (vs_choose("variant", 8)) { case 0: pen<false, false, false>(tr); break; case 1: pen<true, false, false>(tr); break; case 2: pen<false, true, false>(tr); break; case 3: pen<true, true, false>(tr); break; case 4: pen<false, false, true>(tr); break; case 5: pen<true, false, true>(tr); break; case 6: pen<false, true, true>(tr); break; default: pen<true, true, true>(tr); } vs_reach("pen"); }
