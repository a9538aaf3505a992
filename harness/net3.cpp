//@small
//@strings
// Compound layers: horizontal, vertical, tiling and optional (gated) packs, identity layers.
#include "netref.h"
typedef LFC<activation::relu<R>, GWk> FR; typedef LFC<activation::sigm<R>, GWk> FS; typedef LFC<activation::identity<R>, GWk> FI; typedef layer_output<activation::identity_quad_loss<R>, GWk> OI; typedef LI<NI> LId;
static const R L1 = 0.25, L2 = 0.5, L3 = 0.125, L4 = 2;
static T cat(const T& a, const T& b) { T t(a.r, a.c + b.c); for (int i = 0; i < t.r; ++i) { for (int j = 0; j < a.c; ++j) t[i][j] = a[i][j]; for (int j = 0; j < b.c; ++j) t[i][a.c + j] = b[i][j]; } return t; }
static void addTo(T& d, int o, const T& s) { for (int i = 0; i < s.r; ++i) for (int j = 0; j < s.c; ++j) d[i][o + j] = d[i][o + j] + s[i][j]; }
static T zer(int r, int c) { T t(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) t[i][j] = 0; return t; }
template<class N> static void ini(N& nn, vl mb, bool train) { auto ec = nn.___init(mb, train ? mb : 0, false); vs_assert(ec == decltype(ec)::Success, "initialises"); }
//@ prop=C27 entry=h_lph mode=real reach=lph,step toassert=60000
//@bounds input of 1 feature, hidden layer of 2 neurons, horizontal pack of a sigmoid (1 neuron) and an identity layer (2 neurons) with every pair of receptive fields that covers the hidden layer, 1 linear output; any weights and data, batches of 1..2 twice in a row (inference and training)
extern "C" void h_lph() {
	vs_set_threads(2); bool train = vs_choose("train", 2); static const int G[7][4] = { { 0, 2, 0, 2 }, { 0, 1, 1, 1 }, { 1, 1, 0, 1 }, { 0, 1, 0, 2 }, { 1, 1, 0, 2 }, { 0, 2, 0, 1 }, { 0, 2, 1, 1 } }; const int* g = G[vs_choose("fields", 7)];
	layer_input<NI> inp(1); FI f1(2, L1); FS p1(1, L2); FI p2(2, L3); OI out(1, L4); auto pk = make_layer_pack_horizontal(make_PHL(p1, g[0], g[1]), make_PHL(p2, g[2], g[3])); auto lp = make_layers(inp, f1, pk, out); nnet<decltype(lp)> nn(lp);
	T w1 = setW(f1, 1, "w1"), w2 = setW(p1, g[1], "w2"), w3 = setW(p2, g[3], "w3"), w4 = setW(out, 3, "w4"); ini(nn, 2, train);
	for (int s = 0; s < 2; ++s) { vl bs = s ? 1 : 1 + (vl)vs_choose("bs", 2); M X(bs, 1, true), Y(bs, 1); sym(X, "x"); sym(Y, "y"); T x = tOf(X), y = tOf(Y); mode(nn, train, bs); lp.fprop(X);
		T a1 = fwd(A_ID, w1, x), c2 = cols(a1, g[0], g[1]), c3 = cols(a1, g[2], g[3]), a2 = fwd(A_SIGM, w2, c2), a3 = fwd(A_ID, w3, c3), ap = cat(a2, a3), a4 = fwd(A_ID, w4, ap); same(f1.get_activations(), a1, "lower layer"); biasOk(f1); same(pk.get_activations(), ap, "pack activations"); biasOk(pk); same(out.get_activations(), a4, "output"); vs_assert((int)pk.get_activations().cols() == 4, "pack width");
		if (train) { lp.bprop(Y); T d4 = dOut(A_ID, a4, y), dp = down(d4, w4), d3 = mulD(A_ID, a3, cols(dp, 1, 2)), d2 = mulD(A_SIGM, a2, cols(dp, 0, 1)), da = zer(bs, 2); addTo(da, g[2], down(d3, w3)); addTo(da, g[0], down(d2, w2)); T d1 = mulD(A_ID, a1, da);
			same(out.get_weights(), step(w4, grad(d4, ap, w4, bs), L4), "output weights"); same(p2.get_weights(), step(w3, grad(d3, c3, w3, bs), L3), "second inner layer weights"); same(p1.get_weights(), step(w2, grad(d2, c2, w2, bs), L2), "first inner layer weights"); same(f1.get_weights(), step(w1, grad(d1, x, w1, bs), L1), "lower layer weights");
			w1 = newW(f1, "w1"); w2 = newW(p1, "w2"); w3 = newW(p2, "w3"); w4 = newW(out, "w4"); vs_reach("step"); } same(X, x, "input kept"); } vs_reach("lph");
}
static R cw(int& k) { static const R V[7] = { 0.5, -0.25, 1, 0.75, -1, 0.25, -0.5 }; return V[k++ % 7]; }
template<class L> static T fixW(L& l, int inc, int& k) { int n = (int)l.get_neurons_cnt(); T t(n, inc + 1); M w((vl)n, (vl)(inc + 1)); for (int i = 0; i < n; ++i) for (int j = 0; j <= inc; ++j) { t[i][j] = cw(k); E(w, i, j) = t[i][j]; } vs_assert(l.set_weights(std::move(w)), "weights accepted"); return t; }
//@ prop=C27 entry=h_lphwide mode=real reach=wide toassert=60000
//@bounds horizontal packs of two identity layers of 1..2 neurons on a hidden layer of 3..6 neurons (and on one of 1 below 6 inner ones), with wide and narrow receptive fields in either order; concrete weights, one sample of a batch of 1..3 symbolic (data and labels); training step
extern "C" void h_lphwide() {
	vs_set_threads(2); static const int G[6][7] = { { 6, 1, 1, 0, 1, 0, 6 }, { 6, 1, 1, 0, 6, 2, 1 }, { 4, 1, 2, 3, 1, 0, 4 }, { 5, 2, 1, 1, 4, 0, 2 }, { 3, 1, 6, 0, 1, 1, 2 }, { 1, 5, 1, 0, 1, 0, 1 } }; const int* q = G[vs_choose("shape", 6)]; vl bs = 1 + (vl)vs_choose("bs", 3); int fs = vs_choose("sample", (int)bs), k = 0; const int* g = q + 3;
	layer_input<NI> inp(1); FI f1(q[0], L1); FI p1(q[1], L2); FI p2(q[2], L3); OI out(1, L4); auto pk = make_layer_pack_horizontal(make_PHL(p1, g[0], g[1]), make_PHL(p2, g[2], g[3])); auto lp = make_layers(inp, f1, pk, out); nnet<decltype(lp)> nn(lp);
	T w1 = fixW(f1, 1, k), w2 = fixW(p1, g[1], k), w3 = fixW(p2, g[3], k), w4 = fixW(out, q[1] + q[2], k); ini(nn, bs, true); M X(bs, 1, true), Y(bs, 1); for (vl i = 0; i < bs; ++i) { bool y = (int)i == fs; E(X, i, 0) = y ? vs_num<R>("x") : cw(k); E(Y, i, 0) = y ? vs_num<R>("y") : cw(k); } T x = tOf(X), y = tOf(Y); mode(nn, true, bs); lp.fprop(X);
	T a1 = fwd(A_ID, w1, x), c2 = cols(a1, g[0], g[1]), c3 = cols(a1, g[2], g[3]), a2 = fwd(A_ID, w2, c2), a3 = fwd(A_ID, w3, c3), ap = cat(a2, a3), a4 = fwd(A_ID, w4, ap); same(pk.get_activations(), ap, "pack activations"); biasOk(pk); same(out.get_activations(), a4, "output"); lp.bprop(Y);
	T d4 = dOut(A_ID, a4, y), dp = down(d4, w4), d3 = cols(dp, q[1], q[2]), d2 = cols(dp, 0, q[1]), da = zer(bs, q[0]); addTo(da, g[2], down(d3, w3)); addTo(da, g[0], down(d2, w2));
	same(out.get_weights(), step(w4, grad(d4, ap, w4, bs), L4), "output weights"); same(p2.get_weights(), step(w3, grad(d3, c3, w3, bs), L3), "second inner layer weights"); same(p1.get_weights(), step(w2, grad(d2, c2, w2, bs), L2), "first inner layer weights"); same(f1.get_weights(), step(w1, grad(da, x, w1, bs), L1), "lower layer weights"); vs_reach("wide");
}
//@ prop=C27 entry=h_nest mode=real reach=nest toassert=60000
//@bounds input of 3 features; horizontal pack of a vertical pack (sigmoid, identity), an identity layer passing features through and another horizontal pack of two single neurons, all with overlapping fields; 1 output; batches of 1..2; inference and training; also with the pack directly on the input or above a hidden layer
extern "C" void h_nest() {
	vs_set_threads(2); bool train = vs_choose("train", 2), hid = vs_choose("hidden", 2); vl bs = 1 + (vl)vs_choose("bs", 2);
	layer_input<NI> inp(3); FI f0(3, L1); FS v1(1, L1); FI v2(1, L2); LId id; FI h1(1, L3), h2(1, L4); OI out(1, L4);
	auto pv = make_layer_pack_vertical(v1, v2); auto ph = make_layer_pack_horizontal(make_PHL(h1, 0, 2), make_PHL(h2, 1, 1)); auto pk = make_layer_pack_horizontal(make_PHL(pv, 0, 2), make_PHL(id, 1, 1), make_PHL(ph, 1, 2));
	auto go = [&](auto& lp) { nnet<std::remove_reference_t<decltype(lp)>> nn(lp); T w0; if (hid) w0 = setW(f0, 3, "w0"); T w1 = setW(v1, 2, "w1"), w2 = setW(v2, 1, "w2"), w3 = setW(h1, 2, "w3"), w4 = setW(h2, 1, "w4"), w5 = setW(out, 4, "w5"); ini(nn, 2, train); M X(bs, 3, true), Y(bs, 1); sym(X, "x"); sym(Y, "y"); T x = tOf(X), y = tOf(Y); mode(nn, train, bs); lp.fprop(X);
		T a0 = hid ? fwd(A_ID, w0, x) : x, a1 = fwd(A_SIGM, w1, cols(a0, 0, 2)), a2 = fwd(A_ID, w2, a1), c3 = cols(a0, 1, 2), c4 = cols(a0, 2, 1), a3 = fwd(A_ID, w3, c3), a4 = fwd(A_ID, w4, c4), ap = cat(cat(a2, cols(a0, 1, 1)), cat(a3, a4)), a5 = fwd(A_ID, w5, ap); same(pk.get_activations(), ap, "nested pack activations"); biasOk(pk); same(out.get_activations(), a5, "output");
		if (train) { lp.bprop(Y); T d5 = dOut(A_ID, a5, y), dp = down(d5, w5), d4 = cols(dp, 3, 1), d3 = cols(dp, 2, 1), d2 = cols(dp, 0, 1), d1 = mulD(A_SIGM, a1, down(d2, w2)), da = zer(bs, 3), dh = zer(bs, 2); addTo(dh, 1, down(d4, w4)); addTo(dh, 0, down(d3, w3)); addTo(da, 1, dh); addTo(da, 1, cols(dp, 1, 1)); addTo(da, 0, down(d1, w1));
			same(out.get_weights(), step(w5, grad(d5, ap, w5, bs), L4), "output weights"); same(h2.get_weights(), step(w4, grad(d4, c4, w4, bs), L4), "inner pack weights"); same(h1.get_weights(), step(w3, grad(d3, c3, w3, bs), L3), "inner pack weights"); same(v2.get_weights(), step(w2, grad(d2, a1, w2, bs), L2), "vertical pack weights"); same(v1.get_weights(), step(w1, grad(d1, cols(a0, 0, 2), w1, bs), L1), "vertical pack weights"); if (hid) same(f0.get_weights(), step(w0, grad(da, x, w0, bs), L1), "lower layer weights"); } same(X, x, "input kept"); vs_reach("nest"); };
	if (hid) { auto lp = make_layers(inp, f0, pk, out); go(lp); } else { auto lp = make_layers(inp, pk, out); go(lp); }
}
//@ prop=C27 entry=h_tile mode=real reach=tile toassert=60000
//@bounds tile pack of 2 tiles of 1..2 features over the input or above a hidden layer, tiled layer sigmoid (1 neuron) or vertical pack (sigmoid, identity 2); 1 output; batches of 1..2; inference and training
extern "C" void h_tile() {
	vs_set_threads(2); bool train = vs_choose("train", 2), hid = vs_choose("hidden", 2), vp = vs_choose("vertical", 2); vl bs = 1 + (vl)vs_choose("bs", 2); int n = hid ? 1 : 1 + vs_choose("n", 2), k = 2, a = vp ? 2 : 1;
	layer_input<NI> inp(hid ? 1 : n * k); FI f0(n * k, L1); FS v1(1, L2); FI v2(2, L3); OI out(1, L4); auto pv = make_layer_pack_vertical(v1, v2);
	auto go = [&](auto& lp, auto& pk) { nnet<std::remove_reference_t<decltype(lp)>> nn(lp); T w0; if (hid) w0 = setW(f0, 1, "w0"); T w1 = setW(v1, n, "w1"), w2; if (vp) w2 = setW(v2, 1, "w2"); T w5 = setW(out, k * a, "w5"); ini(nn, 2, train); M X(bs, hid ? 1 : n * k, true), Y(bs, 1); sym(X, "x"); sym(Y, "y"); T x = tOf(X), y = tOf(Y); mode(nn, train, bs); lp.fprop(X);
		T a0 = hid ? fwd(A_ID, w0, x) : x, xt(bs * k, n); for (int t = 0; t < k; ++t) for (int i = 0; i < (int)bs; ++i) for (int j = 0; j < n; ++j) xt[t * bs + i][j] = a0[i][t * n + j]; T a1 = fwd(A_SIGM, w1, xt), at = vp ? fwd(A_ID, w2, a1) : a1, ap(bs, k * a); for (int t = 0; t < k; ++t) for (int i = 0; i < (int)bs; ++i) for (int j = 0; j < a; ++j) ap[i][t * a + j] = at[t * bs + i][j];
		T a5 = fwd(A_ID, w5, ap); same(pk.get_activations(), ap, "tiled activations"); biasOk(pk); same(out.get_activations(), a5, "output");
		if (train) { lp.bprop(Y); T d5 = dOut(A_ID, a5, y), dp = down(d5, w5), dt(bs * k, a); for (int t = 0; t < k; ++t) for (int i = 0; i < (int)bs; ++i) for (int j = 0; j < a; ++j) dt[t * bs + i][j] = dp[i][t * a + j]; T d2 = dt, d1 = mulD(A_SIGM, a1, vp ? down(d2, w2) : dt), dx = down(d1, w1), da(bs, n * k); for (int t = 0; t < k; ++t) for (int i = 0; i < (int)bs; ++i) for (int j = 0; j < n; ++j) da[i][t * n + j] = dx[t * bs + i][j];
			same(out.get_weights(), step(w5, grad(d5, ap, w5, bs), L4), "output weights"); if (vp) same(v2.get_weights(), step(w2, grad(d2, a1, w2, bs * k), L3), "tiled weights"); same(v1.get_weights(), step(w1, grad(d1, xt, w1, bs * k), L2), "tiled weights"); if (hid) same(f0.get_weights(), step(w0, grad(da, x, w0, bs), L1), "lower layer weights"); } same(X, x, "input kept"); vs_reach("tile"); };
	auto top = [&](auto& pk) { if (hid) { auto lp = make_layers(inp, f0, pk, out); go(lp, pk); } else { auto lp = make_layers(inp, pk, out); go(lp, pk); } };
	if (vp) { LPT<decltype(pv)> pk(pv, k); top(pk); } else { LPT<FS> pk(v1, k); top(pk); }
}
static T rows(const T& x, const bool* g) { T t(0, x.c); for (int i = 0; i < x.r; ++i) if (g[i]) { for (int j = 0; j < x.c; ++j) t[t.r][j] = x[i][j]; ++t.r; } return t; }
static T spread(const T& s, const bool* g, int n, int c) { T t = zer(n, c); int k = 0; for (int i = 0; i < n; ++i) if (g[i]) { for (int j = 0; j < c; ++j) t[i][j] = s[k][j]; ++k; } return t; }
template<bool CMP, bool BIN, bool HID> static void opt() {
	bool train = vs_choose("train", 2); vl mb = HID || BIN ? 2 : 3, bs = 1 + (vl)vs_choose("bs", mb); int nA = HID || bs == 3 ? 1 : 1 + vs_choose("nA", 2), W = 2 + nA + 1; typedef std::conditional_t<BIN, LIG<500000, NI>, LIGFI<NI>> G;
	layer_input<NI> inp(HID ? 3 : W); FI f0(W, L1); G gt; FS p1(1, L2); FI p2(2, L3); OI out(1, L4); auto g1 = make_PHL(gt, 0, 2); auto q1 = make_PHL(p1, 2, nA); auto q2 = make_PHL(p2, 2 + nA, 1); LPHO<CMP, decltype(g1), decltype(q1), decltype(q2)> pk(g1, q1, q2);
	auto go = [&](auto& lp) { nnet<std::remove_reference_t<decltype(lp)>> nn(lp); int ga = CMP ? 4 : 2; T w0, w1, w2, w5; if (HID) { w0 = T(W, 4); M w((vl)W, 4); for (int n = 0; n < W; ++n) for (int j = 0; j < 4; ++j) { w0[n][j] = n < 2 ? (j == n ? 1 : 0) : n == 2 ? vs_num<R>("w0") : (j == 2 ? vs_num<R>("w0") : 0); E(w, n, j) = w0[n][j]; } vs_assert(f0.set_weights(std::move(w)), "weights accepted"); } w1 = setW(p1, nA, "w1"); w2 = setW(p2, 1, "w2"); w5 = setW(out, ga + 3, "w5"); ini(nn, mb, train);
		for (int s = 0; s < 2; ++s) { int mix = 0; if (s) { bs = train ? 1 : mb; mix = vs_choose("mix", 2); } bool gate[2][4]; M X(bs, HID ? 3 : W, true), Y(bs, 1); sym(X, "x"); sym(Y, "y"); for (vl i = 0; i < bs; ++i) for (int k = 0; k < 2; ++k) { gate[k][i] = s ? (bool)(mix + k + i & 1) : vs_choose("gate", 2); if (BIN) { if (gate[k][i]) vs_assume(E(X, i, k) > 0.5); else vs_assume(E(X, i, k) <= 0.5); } else E(X, i, k) = gate[k][i]; } T x = tOf(X), y = tOf(Y), gm(bs, 2); for (vl i = 0; i < bs; ++i) for (int k = 0; k < 2; ++k) gm[i][k] = gate[k][i]; mode(nn, train, bs); lp.fprop(X);
			T a0 = HID ? fwd(A_ID, w0, x) : x, c1 = rows(cols(a0, 2, nA), gate[0]), c2 = rows(cols(a0, 2 + nA, 1), gate[1]), a1 = fwd(A_SIGM, w1, c1), a2 = fwd(A_ID, w2, c2), cm(bs, 2); for (vl i = 0; i < bs; ++i) for (int k = 0; k < 2; ++k) cm[i][k] = 1 - gm[i][k]; T ap = cat(CMP ? cat(gm, cm) : gm, cat(spread(a1, gate[0], bs, 1), spread(a2, gate[1], bs, 2))), a5 = fwd(A_ID, w5, ap);
			same(pk.get_activations(), ap, "gated activations"); biasOk(pk); same(out.get_activations(), a5, "output"); vs_assert((int)pk.get_activations().cols() == ga + 4, "pack width");
			if (train) { lp.bprop(Y); T d5 = dOut(A_ID, a5, y), dp = down(d5, w5), d1 = mulD(A_SIGM, a1, rows(cols(dp, ga, 1), gate[0])), d2 = mulD(A_ID, a2, rows(cols(dp, ga + 1, 2), gate[1])), da = cat(zer(bs, 2), cat(spread(down(d1, w1), gate[0], bs, nA), spread(down(d2, w2), gate[1], bs, 1)));
				same(out.get_weights(), step(w5, grad(d5, ap, w5, bs), L4), "output weights"); same(p2.get_weights(), c2.r ? step(w2, grad(d2, c2, w2, c2.r), L3) : w2, "second gated layer learns from its samples only"); same(p1.get_weights(), c1.r ? step(w1, grad(d1, c1, w1, c1.r), L2) : w1, "first gated layer learns from its samples only"); if (HID) same(f0.get_weights(), step(w0, grad(da, x, w0, bs), L1), "lower layer weights");
				w1 = newW(p1, "w1"); w2 = newW(p2, "w2"); w5 = newW(out, "w5"); if (HID) break; vs_reach("optstep"); } same(X, x, "input kept"); } vs_reach("opt"); };
	if constexpr (HID) { auto lp = make_layers(inp, f0, pk, out); go(lp); } else { auto lp = make_layers(inp, pk, out); go(lp); }
}
//@ prop=C27 entry=h_opt mode=real reach=opt,optstep toassert=60000
//@bounds optional pack with two gated layers (sigmoid on 1..2 features, identity with 2 neurons on 1 feature) on the input (batches of 1..3, 1..2 with binarization, a second pass with alternating gates) or above a hidden layer (batches of 1..2), every gate pattern, with and without binarization and complement columns; 1 output; inference and training
extern "C" void h_opt() { vs_set_threads(2); switch (vs_choose("kind", 4)) { case 0: opt<false, false, false>(); break; case 1: opt<true, false, false>(); break; case 2: opt<false, true, false>(); break; default: opt<true, false, true>(); } }
