//@small
//@strings
// Gradient works: what happens to the weights between the gradient and the next forward pass, over several steps.
#define NET_RNG
#include "netref.h"
typedef layer_output<activation::identity_quad_loss<R>, GWk> OI;
static R inU(const char* n) { R v = vs_num<R>(n); vs_assume(v > 0 && v < 1); return v; }
struct Set { int type = 0; R lr, mom = 0, b1 = 0.5, b2 = 0.25, ga = 0.125, eps = 0.0625, l1 = 0, l2 = 0, mn = 0, dec = 0, inc = 0, lo = 0, hi = 0, dp = 1; bool nest = true, l1b = false, l2b = false, mnb = false, ilr = false, ilrMom = false, dpNest = true; };
// the documented rules, element by element
struct Ref { Set s; int n, c; T W, V, A, B, P, G; R p1 = 1, p2 = 1; bool first = true;
	Ref(const Set& s_, const T& w) : s(s_), n(w.r), c(w.c), W(w), V(w.r, w.c), A(w.r, w.c), B(w.r, w.c), P(w.r, w.c), G(w.r, w.c) { all([&](int i, int j) { V[i][j] = A[i][j] = B[i][j] = P[i][j] = 0; G[i][j] = 1; }); }
	template<class F> void all(F f) { for (int j = 0; j < c; ++j) for (int i = 0; i < n; ++i) f(i, j); }
	void maxNorm() { if (s.mn > 0) for (int i = 0; i < n; ++i) { R q = 0; for (int j = 0; j < c - !s.mnb; ++j) q += W[i][j] * W[i][j]; R k = q > s.mn ? std::sqrt(s.mn / q) : 1.; for (int j = 0; j < c; ++j) W[i][j] *= k; } }
	void drop(T& t, int from) { int k = from; all([&](int i, int j) { t[i][j] = Gen::d[k] < s.dp ? t[i][j] : 0.; ++k; }); }
	void pre(int from) { if (s.mom > 0 && s.nest) { all([&](int i, int j) { V[i][j] = V[i][j] * s.mom; }); T u = V; if (s.dp < 1 && s.dpNest) drop(u, from); all([&](int i, int j) { W[i][j] = W[i][j] - u[i][j]; }); maxNorm(); } }
	void reg(T& g) { for (int k = 0; k < 2; ++k) { R l = k ? s.l2 : s.l1; bool b = k ? s.l2b : s.l1b; if (l != 0) all([&](int i, int j) { if (j + 1 < c || b) g[i][j] = g[i][j] + l * (k ? W[i][j] : (R)((0 < W[i][j]) - (W[i][j] < 0))); }); } }
	void opt(T& g) {
		if (s.type >= 5) { p1 *= s.b1; if (s.type != 6) p2 *= s.b2; } const R al = s.lr * std::sqrt(1. - p2) / (1. - p1), mu = (s.b1 - p1) / (1. - p1), et = (s.b2 - p2) / (1. - p2);
		all([&](int i, int j) { R w = g[i][j]; R& a = A[i][j]; R& b = B[i][j]; R& r = g[i][j]; switch (s.type) {
		case 0: r = w * s.lr; break;
		case 1: if (first) { a = w * w; r = w * s.lr; } else { a = s.b1 * a + w * w * (1 - s.b1); r = s.lr * (w / (std::sqrt(a) + s.eps)); } break;
		case 2: if (first) { a = w * w; b = w; r = w * s.lr; } else { R wd = w * (1 - s.b1); a = s.b1 * a + w * wd; b = s.b1 * b + wd; r = s.lr * (w / std::sqrt(a - b * b + s.eps)); } break;
		case 3: r = s.lr * (R)((0 < w) - (w < 0)); break;
		case 4: if (first) { a = std::abs(w); r = w * s.lr; } else { a = a * s.b1 + std::abs(w) * (1 - s.b1); r = s.lr * (w / (a + s.eps)); } break;
		case 5: a = a * s.b1 + w * (1. - s.b1); b = b * s.b2 + (w * w) * (1. - s.b2); r = al * a / (std::sqrt(b) + s.eps); break;
		case 6: a = a * s.b1 + w * (1. - s.b1); b = std::max(std::abs(w), s.b2 * b); r = s.lr / (1. - p1) * a / (b + s.eps); break;
		default: b = b * et + (w * w) * (1. - et); a = a * mu + w * (1. - mu); R h = s.type == 7 ? s.b1 * ((1. - p1) / (1. - s.b1 * p1)) * a + (1. - mu) * w : (1. - s.ga) * a + s.ga * w; r = s.lr * (h / (std::sqrt(b) + s.eps)); } });
	}
	void ilr(T& g) { if (!s.ilr) return; bool v = s.mom > 0 && s.ilrMom; if (!first) all([&](int i, int j) { R q = (v ? V[i][j] : P[i][j]) * g[i][j]; R& k = G[i][j]; if (q > 0 && k < s.hi) k *= s.inc; else if (q < 0 && k > s.lo) k *= s.dec; g[i][j] *= k; }); if (!v) P = g; }
	void apply(T g, int from) { reg(g); opt(g); ilr(g); first = false; if (s.mom > 0) { all([&](int i, int j) { V[i][j] = s.nest ? V[i][j] + g[i][j] : s.mom * V[i][j] + g[i][j]; }); if (!s.nest) g = V; } if (s.dp < 1) drop(g, from); all([&](int i, int j) { W[i][j] = W[i][j] - g[i][j]; }); maxNorm(); }
};
template<class O> static void setup(O& gw, const Set& s) {
	typedef std::decay_t<O> g; static const typename g::GradType ty[] = { g::ClassicalConstant, g::RMSProp_Hinton, g::RMSProp_Graves, g::RProp, g::ModProp, g::Adam, g::AdaMax, g::Nadam, g::Radam }; gw.set_type(ty[s.type]); gw.beta1(s.b1).beta2(s.b2).gamma(s.ga).numeric_stabilizer(s.eps);
	if (s.mom > 0) { if (s.nest) gw.nesterov_momentum(s.mom); else gw.momentum(s.mom); } if (s.l1 != 0) { if (s.l1b) gw.L1(s.l1, false); else gw.L1(s.l1); } if (s.l2 != 0) { if (s.l2b) gw.L2(s.l2, false); else gw.L2(s.l2); } if (s.mn > 0) { if (s.mnb) gw.max_norm2(s.mn, true); else gw.max_norm2(s.mn); } if (s.ilr) gw.set_ILR(s.dec, s.inc, s.lo, s.hi).applyILRToMomentum(s.ilrMom); if (s.dp < 1) gw.LRDropoutPercentActive(s.dp).setApplyLRDropoutToNesterovMomentum(s.dpNest);
}
static void run(const Set& s, int n, int c, int steps, bool again = false) {
	layer_input<NI> inp(c - 1); OI out(n, s.lr); setup(out.get_gradWorks(), s); auto lp = make_layers(inp, out); nnet<decltype(lp)> nn(lp); T w = setW(out, c - 1, "w"); auto& W = static_cast<smatrix_deform<R>&>(out.get_weights()); auto& gw = out.get_gradWorks();
	for (int q = 0; q < 1 + again; ++q) { auto ec = nn.___init(1, 1, false); vs_assert(ec == decltype(ec)::Success, "initialises"); vs_assert(gw.isFirstRun(), "starts afresh"); mode(nn, true, 1); Ref r(s, w); int per = n * c;
		for (int k = 0; k < steps; ++k) { int d0 = Gen::n; gw.pre_training_fprop(W); r.pre(d0); same(W, r.W, "weights of the forward pass"); int d1 = Gen::n; vs_assert(d1 - d0 == (s.mom > 0 && s.nest && s.dp < 1 && s.dpNest ? per : 0), "one draw per weight"); smatrix_deform<R> D((vl)n, (vl)c); symW(D, "g"); T g = wOf(D);
			const R la = gw.lossAddendum(W); R ex = 0; if (s.l1 != 0 || s.l2 != 0) { R s1 = 0, s2 = 0; r.all([&](int i, int j) { R v = r.W[i][j]; if (j + 1 < c || s.l1b) s1 += std::abs(v); if (j + 1 < c || s.l2b) s2 += v * v; }); ex = s.l1 * s1 + s.l2 * .5 * s2; } eqR(la, ex, "loss addendum of the weights"); vs_assert(gw.hasLossAddendum() == (s.l1 != 0 || s.l2 != 0), "loss addendum is announced");
			gw.apply_grad(W, D); r.apply(g, d1); vs_assert(Gen::n - d1 == (s.dp < 1 ? per : 0), "one draw per weight"); same(W, r.W, "updated weights"); vs_assert((int)W.cols() == c && (int)W.rows() == n, "shape of the weights"); }
		w = wOf(W); if (again) { nn.deinit(); Gen::n = 0; } }
}
//@ prop=C28 entry=h_optim mode=real reach=optim toassert=60000
//@bounds every optimizer (constant, both RMSProp, RProp, ModProp, Adam, AdaMax, Nadam, Radam), one weight and bias, 3 steps (2 for the Adam family) after initialisation and again after a reinitialisation, any gradients and weights, any learning rate for the simple ones
extern "C" void h_optim() { vs_set_threads(2); Set s; s.type = (int)vs_choose("type", 9); s.lr = s.type < 5 ? inU("lr") : 0.5; bool again = vs_choose("again", 2); run(s, 1, 2, again || s.type >= 5 ? 2 : 3, again); vs_reach("optim"); }
//@ prop=C28 entry=h_mom mode=real reach=mom toassert=60000
//@bounds no, classical or Nesterov momentum with any factor; L1 and L2 with any scale, with or without bias weights; LR dropout with any rate and draws; constant rate or RProp; 1 neuron with 1 weight and bias, 2..3 steps
extern "C" void h_mom() {
	vs_set_threads(2); Set s; s.lr = inU("lr"); int m = (int)vs_choose("momentum", 3); if (m) { s.mom = inU("mom"); s.nest = m == 2; } int x = (int)vs_choose("extra", 5); int steps = 3;
	if (x == 1) { s.l1 = vs_num<R>("l1"); vs_assume(s.l1 > 0); s.l1b = vs_choose("bias", 2); steps = 2; } else if (x == 2) { s.l2 = vs_num<R>("l2"); vs_assume(s.l2 > 0); s.l2b = vs_choose("bias", 2); } else if (x == 3) { s.l1 = 0.5; s.l2 = 0.25; s.l1b = vs_choose("bias", 2); s.l2b = !s.l1b; s.type = vs_choose("rprop", 2) ? 3 : 0; steps = 2; } else if (x == 4) { s.dp = inU("active"); s.dpNest = vs_choose("dpNest", 2); steps = 2; }
	run(s, 1, 2, steps); vs_reach("mom");
}
//@ prop=C28 entry=h_norm mode=real reach=norm toassert=60000
//@bounds max-norm limit of any size with the bias weight in or out of the norm, 2 neurons with 1 weight and bias or 1 neuron with 2 weights and bias, no, classical or Nesterov momentum, 2 steps
extern "C" void h_norm() { vs_set_threads(2); Set s; s.lr = inU("lr"); s.mn = vs_num<R>("mn"); vs_assume(s.mn > 0); s.mnb = vs_choose("bias", 2); int m = (int)vs_choose("momentum", 3); if (m) { s.mom = 0.5; s.nest = m == 2; } bool two = vs_choose("two", 2); run(s, two ? 2 : 1, two ? 2 : 3, 1 + (m < 2 && !two)); vs_reach("norm"); }
//@ prop=C28 entry=h_ilr mode=real reach=ilr toassert=60000
//@bounds individual learning rates driven by the previous gradient or by the momentum velocity, constant rate or ModProp, no, classical or Nesterov momentum, 1 neuron with bias weight only changing sign freely, 3 steps
extern "C" void h_ilr() { vs_set_threads(2); Set s; s.lr = 0.5; s.ilr = true; s.dec = 0.5; s.inc = 2; s.lo = 0.25; s.hi = 4; int m = (int)vs_choose("momentum", 3); if (m) { s.mom = 0.5; s.nest = m == 2; } s.ilrMom = vs_choose("ilrMom", 2); s.type = vs_choose("modprop", 2) ? 4 : 0; run(s, 1, 2, 3); vs_reach("ilr"); }
//@ prop=C28 entry=h_train mode=real reach=train toassert=60000
//@bounds a network of a hidden sigmoid and a linear output neuron, both with Nesterov or classical momentum and L2, two training batches with an evaluation in between, any weights and data
extern "C" void h_train() {
	vs_set_threads(2); typedef LFC<activation::sigm<R>, GWk> FS; Set s1, s2; s1.lr = 0.5; s2.lr = 0.25; s1.mom = s2.mom = 0.5; s1.nest = vs_choose("nesterov", 2); s2.nest = vs_choose("nesterov", 2); s1.l2 = 0.125; s2.l2 = 0.25; s2.l2b = true;
	layer_input<NI> inp(1); FS f1(1, s1.lr); OI out(1, s2.lr); setup(f1.get_gradWorks(), s1); setup(out.get_gradWorks(), s2); auto lp = make_layers(inp, f1, out); nnet<decltype(lp)> nn(lp); T w1 = setW(f1, 1, "w1"), w2 = setW(out, 1, "w2"); auto ec = nn.___init(1, 1, false); vs_assert(ec == decltype(ec)::Success, "initialises"); Ref r1(s1, w1), r2(s2, w2);
	for (int k = 0; k < 3; ++k) { bool tr = k != 1; M X(1, 1, true), Y(1, 1); sym(X, "x"); sym(Y, "y"); T x = tOf(X), y = tOf(Y); mode(nn, tr, 1); lp.fprop(X); if (tr) { r1.pre(0); r2.pre(0); } T a1 = fwd(A_SIGM, r1.W, x), a2 = fwd(A_ID, r2.W, a1); same(out.get_activations(), a2, "output"); same(f1.get_weights(), r1.W, "weights of the forward pass"); same(out.get_weights(), r2.W, "weights of the forward pass");
		R la = 0; if (!k) { la = lp.calcLossAddendum(); R e1 = r1.W[0][0] * r1.W[0][0], e2 = r2.W[0][0] * r2.W[0][0] + r2.W[0][1] * r2.W[0][1]; eqR(la, .125 * .5 * e1 + .25 * .5 * e2, "loss addendum of the network"); }
		if (tr) { lp.bprop(Y); T d2 = dOut(A_ID, a2, y), d1 = mulD(A_SIGM, a1, down(d2, r2.W)); T g2 = grad(d2, a1, r2.W, 1), g1 = grad(d1, x, r1.W, 1); r2.apply(g2, 0); r1.apply(g1, 0); same(out.get_weights(), r2.W, "output weights"); same(f1.get_weights(), r1.W, "hidden weights"); } } vs_reach("train");
}
