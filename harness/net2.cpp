//@small
//@strings
// Deeper networks, several outputs, softmax, clamped and frozen layers, the inference interface of the network.
#include "netref.h"
typedef LFC<activation::relu<R>, GWk> FR; typedef LFC<activation::sigm<R>, GWk> FS; typedef LFC<activation::identity<R>, GWk> FI;
typedef layer_output<activation::identity_quad_loss<R>, GWk> OI; typedef layer_output<activation::softmax_xentropy_loss<R>, GWk> OX;
static R clampR(R v, R lo, R hi) { return v < lo ? lo : v > hi ? hi : v; }
static T softm(const T& z) { T t(z.r, z.c); for (int i = 0; i < z.r; ++i) { R m = z[i][0], s = 0; for (int n = 1; n < z.c; ++n) if (z[i][n] > m) m = z[i][n]; for (int n = 0; n < z.c; ++n) { t[i][n] = std::exp(z[i][n] - m); s += t[i][n]; } for (int n = 0; n < z.c; ++n) t[i][n] = t[i][n] / s; } return t; }
//@ prop=C26 entry=h_deep mode=real reach=deep toassert=60000
//@bounds two hidden layers (2 sigmoid, 1 identity neuron), 2 linear outputs, any weights, learning rates and data, batch 1..2; dL/dZ of the output clamped to any interval around zero or not; any subset of the layers frozen
extern "C" void h_deep() {
	vs_set_threads(2); vl bs = 1 + (vl)vs_choose("bs", 2); bool cl = vs_choose("clamp", 2); int fr = vs_choose("frozen", 8); R lr[3] = { vs_num<R>("lr"), vs_num<R>("lr"), vs_num<R>("lr") }, lo = 0, hi = 0; if (cl && fr && fr != 5) return;
	layer_input<NI> inp(1); FS f1(2, lr[0]); FI f2(1, lr[1]); OI out(2, lr[2]); auto lp = make_layers(inp, f1, f2, out); nnet<decltype(lp)> nn(lp);
	if (cl) { lo = vs_num<R>("lo"); hi = vs_num<R>("hi"); vs_assume(lo < 0 && hi > 0); out.restrict_dL_dZ(lo, hi); } f1._setUpdateWeights(!(fr & 1)); f2._setUpdateWeights(!(fr & 2)); out._setUpdateWeights(!(fr & 4));
	T w1 = setW(f1, 1, "w1"), w2 = setW(f2, 2, "w2"), w3 = setW(out, 1, "w3"); auto ec = nn.___init(2, 2, false); vs_assert(ec == decltype(ec)::Success, "initialises"); M X(bs, 1, true), Y(bs, 2); sym(X, "x"); sym(Y, "y"); T x = tOf(X), y = tOf(Y);
	mode(nn, true, bs); lp.fprop(X); T a1 = fwd(A_SIGM, w1, x), a2 = fwd(A_ID, w2, a1), a3 = fwd(A_ID, w3, a2); same(f1.get_activations(), a1, "first hidden layer"); same(f2.get_activations(), a2, "second hidden layer"); same(out.get_activations(), a3, "output");
	lp.bprop(Y); T d3 = dOut(A_ID, a3, y); if (cl) for (int i = 0; i < d3.r; ++i) for (int n = 0; n < 2; ++n) d3[i][n] = clampR(d3[i][n], lo, hi);
	T d2 = mulD(A_ID, a2, down(d3, w3)), d1 = mulD(A_SIGM, a1, down(d2, w2));
	same(out.get_weights(), fr & 4 ? w3 : step(w3, grad(d3, a2, w3, bs), lr[2]), "output weights"); same(f2.get_weights(), fr & 2 ? w2 : step(w2, grad(d2, a1, w2, bs), lr[1]), "second hidden weights"); same(f1.get_weights(), fr & 1 ? w1 : step(w1, grad(d1, x, w1, bs), lr[0]), "first hidden weights"); vs_reach("deep");
}
//@ prop=C26 entry=h_softm mode=real reach=softm toassert=60000
//@bounds one hidden layer (2 ReLU or sigmoid neurons), softmax with cross-entropy over 2 (3) classes, any weights, learning rates, inputs and targets, batch 1..2 (1); the loss of the batch included
extern "C" void h_softm() {
	vs_set_threads(2); bool tri = vs_choose("tri", 2), sg = vs_choose("sigm", 2); vl bs = tri ? 1 : 1 + (vl)vs_choose("bs", 2), N = tri ? 3 : 2, H = tri ? 1 : 2; R lr1 = vs_num<R>("lr1"), lr2 = vs_num<R>("lr2");
	auto go = [&](auto& f1, int k) { layer_input<NI> inp(1); OX out(N, lr2); auto lp = make_layers(inp, f1, out); nnet<std::remove_reference_t<decltype(lp)>> nn(lp); T w1 = setW(f1, 1, "w1"), w2 = setW(out, H, "w2"); auto ec = nn.___init(2, 2, false); vs_assert(ec == decltype(ec)::Success, "initialises");
		M X(bs, 1, true), Y(bs, N); sym(X, "x"); sym(Y, "y"); T x = tOf(X), y = tOf(Y); mode(nn, true, bs); lp.fprop(X); T a1 = fwd(k, w1, x), a2 = softm(lin(w2, a1)); same(f1.get_activations(), a1, "hidden layer"); same(out.get_activations(), a2, "class probabilities");
		lp.bprop(Y); T d2 = dOut(-1, a2, y), d1 = mulD(k, a1, down(d2, w2)); same(out.get_weights(), step(w2, grad(d2, a1, w2, bs), lr2), "output weights"); same(f1.get_weights(), step(w1, grad(d1, x, w1, bs), lr1), "hidden weights"); };
	if (sg) { FS f(H, lr1); go(f, A_SIGM); } else { FR f(H, lr1); go(f, A_RELU); } vs_reach("softm");
}
//@ prop=C26 entry=h_infer mode=real reach=infer toassert=60000
//@bounds nnet::fprop, init4fixedBatchFprop + doFixedBatchFprop, and nnet::fprop after initialisation for training; batches of 1..3 in any order of two calls (growing batches reinitialise), any weights and inputs
extern "C" void h_infer() {
	vs_set_threads(2); layer_input<NI> inp(2); FS f1(1, 0.1); OI out(1, 0.1); auto lp = make_layers(inp, f1, out); nnet<decltype(lp)> nn(lp); T w1 = setW(f1, 2, "w1"), w2 = setW(out, 1, "w2"); int how = vs_choose("how", 3); if (how == 1) { auto ec = nn.init4fixedBatchFprop(3); vs_assert(ec == decltype(ec)::Success, "initialises"); } if (how == 2) { auto ec = nn.___init(2, 2, false); vs_assert(ec == decltype(ec)::Success, "initialises"); }
	for (int s = 0; s < 2; ++s) { vl bs = 1 + (vl)vs_choose("bs", 3); M X(bs, 2, true); sym(X, "x"); T x = tOf(X); if (how == 1) nn.doFixedBatchFprop(X); else { auto ec = nn.fprop(X); vs_assert(ec == decltype(ec)::Success, "fprop succeeds"); }
		T a1 = fwd(A_SIGM, w1, x), a2 = fwd(A_ID, w2, a1); same(f1.get_activations(), a1, "hidden layer"); same(out.get_activations(), a2, "output"); vs_assert((vl)out.get_activations().rows() == bs, "one output row per sample"); same(f1.get_weights(), w1, "weights are kept"); same(out.get_weights(), w2, "weights are kept"); same(X, x, "input is kept"); } vs_reach("infer");
}
