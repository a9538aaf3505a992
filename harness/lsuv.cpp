//@small
//@strings
// Layer-sequential weight normalization: which activations are measured, what is done to the weights, when it ends.
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#define NET_RNG
#include "netref.h"
#include <nntl/train_data/inmem_train_data.h>
#include <nntl/utils/mtx2Normal.h>
// statistics are any numbers whatsoever (that they are mean and deviation is C23); what they are taken of and what is done with them is the real thing
struct Acc { typedef R sample_type; typedef R interm_statsdata_t; int n = 0; R v[12]; Acc() {} void operator()(R x) { if (n < 12) v[n] = x; ++n; } };
static R statScale(const Acc&, bool&); static R statCentral(const Acc&);
namespace nntl { namespace utils { namespace mtx2Normal {
	template<> struct _FNorm_stats_var_mean<true> { typedef upd_mtx_scale_central mtx_update_t; template<class A> static R get_scale(const A& a, bool& sp) { return statScale(a, sp); } template<class A> static R get_central(const A& a) { return statCentral(a); } };
	namespace _impl { template<class S, class I> struct make_acc<S, I, _FNorm_stats_var_mean<true>> : Acc {}; }
} } }
#include <nntl/weights_init/LsuvExt.h>
typedef inmem_train_data<R, R> TD; typedef weights_init::procedural::WeightNormSetts<R, R> St; static St g_def, g_cust; static int g_custAt;
struct Ly { T w; M* W; int act, ofs, len; layer_index_t idx; };
static struct { Ly l[3]; int nl; bool pack; T X; int cur, col, tries, reinits; bool ok[2], off[2], reinit; layer_index_t failed; R sc; bool sp; int gathers; } g;
static const St& st(int l) { return l == g_custAt ? g_cust : g_def; }
static bool off(const St& s) { return (!s.bScaleNormalize && !s.bCentralNormalize) || !s.maxTries; }
static void fresh() { g.tries = g.col = 0; g.ok[0] = g.ok[1] = false; }
static void next() { ++g.cur; g.reinits = 0; fresh(); while (g.cur < g.nl && off(st(g.cur))) ++g.cur; }
static T acts(int l, const T& X, bool pre) { const Ly& y = g.l[l]; T x(X.r, 0); if (l + 1 < g.nl) x = cols(X, y.ofs, y.len); else { for (int k = 0; k + 1 < g.nl; ++k) { T a = acts(k, X, false); for (int i = 0; i < X.r; ++i) for (int j = 0; j < a.c; ++j) x[i][x.c + j] = a[i][j]; x.c += a.c; } } return fwd(pre ? A_ID : y.act, y.w, x); }
static int kindOf() { if (g.gathers < 2) { g.gathers++; return (int)vs_choose("stat", 5); } return (int)vs_choose("stat more", 2); }
static R ab(R x) { return x < 0 ? -x : x; }
static int g_kind;
static R statScale(const Acc& a, bool& sp) {
	vs_assert(g.cur < g.nl && !g.reinit, "nothing more to measure"); const St& s = st(g.cur); for (int k = 0; k < g.nl; ++k) same(*g.l[k].W, g.l[k].w, "weights so far");
	T A = acts(g.cur, g.X, s.bOverPreActivations); int bs = s.batchSize ? s.batchSize < A.r ? s.batchSize : A.r : A.r, cnt = s.batchCount ? s.batchCount * bs < A.r ? s.batchCount * bs : A.r : A.r, n = 0;
	for (int b = 0; b < cnt; b += bs) for (int j = s.bOnInvidualNeurons ? g.col : 0; j < (s.bOnInvidualNeurons ? g.col + 1 : A.c); ++j) for (int i = b; i < b + bs && i < cnt; ++i) { if (n < a.n) eqR(a.v[n], A[i][j], "activations of the layer"); ++n; } vs_assert(a.n == n, "all activations are measured");
	g_kind = kindOf(); R v = vs_num<R>("scale"); sp = g.sp = g_kind == 4; if (sp) v = 0; else { vs_assume(v > 0); bool in = ab(v - s.targetScale) < s.ScaleTolerance; vs_assume(g_kind == 1 || g_kind == 2 ? !in : in); } return g.sc = v; }
static R statCentral(const Acc&) {
	const St& s = st(g.cur); R c = vs_num<R>("central"); bool in = ab(c - s.targetCentral) < s.CentralTolerance; vs_assume(g_kind == 1 || g_kind == 3 ? !in : in); bool ds = s.bScaleNormalize && (g_kind == 1 || g_kind == 2), dc = s.bCentralNormalize && (g_kind == 1 || g_kind == 3); T& w = g.l[g.cur].w; int rows = s.bOnInvidualNeurons ? w.r : 1, lo = s.bOnInvidualNeurons ? g.col : 0, hi = s.bOnInvidualNeurons ? lo + 1 : w.r;
	if (!g.ok[g.col]) { R m = ds ? s.targetScale / g.sc : 1.; if (ds) for (int i = lo; i < hi; ++i) for (int j = 0; j < w.c; ++j) w[i][j] = w[i][j] * m; if (dc) for (int i = lo; i < hi; ++i) w[i][w.c - 1] = w[i][w.c - 1] + (s.targetCentral - c) * m; g.ok[g.col] = !ds && !dc; }
	if (++g.col == rows) { g.col = 0; bool all = true; for (int i = 0; i < rows; ++i) all = all && g.ok[i]; if (all) next(); else if (++g.tries == (int)s.maxTries) { fresh(); if (++g.reinits < (int)s.maxReinitTries) g.reinit = true; else { if (!g.failed) g.failed = g.l[g.cur].idx; next(); } } } return c; }
struct WI { template<class Rg, class I> static bool make_weights(M& W, Rg&, I&) { vs_assert(g.reinit, "weights are redrawn after failed tries only"); g.reinit = false; vs_assert(&W == g.l[g.cur].W, "of the layer that failed"); symW(W, "fresh w"); g.l[g.cur].w = wOf(W); return true; } };
static void mkTd(TD& td, vl n) { smatrix_deform<R> a[4]; for (int i = 0; i < 2; ++i) { vl k = i ? 1 : n; a[2 * i].will_emulate_biases(); vs_assert(a[2 * i].resize_as_dataset(k, 2) && a[2 * i + 1].resize_as_dataset(k, 1), "memory"); a[2 * i].set_biases(); for (vl s = 0; s < k; ++s) { for (int j = 0; j < 2; ++j) E(a[2 * i], s, j) = vs_num<R>("x"); E(a[2 * i + 1], s, 0) = vs_num<R>("y"); } if (!i) g.X = tOf(a[0]); } vs_assert(td.absorb(std::move(a[0]), std::move(a[1]), std::move(a[2]), std::move(a[3])), "coherent data"); }
template<class L> static void add(L& l, int act, int ofs, int len, int inc) { Ly& y = g.l[g.nl++]; y.w = setW(l, inc, "w"); y.W = &l.get_weights(); y.act = act; y.ofs = ofs; y.len = len; y.idx = l.get_layer_idx(); }
static void base(St& s) { s.bVerbose = false; s.bSayIfScaleSpecial = false; s.maxTries = 1; s.maxReinitTries = 1; s.emitDbgAfterTry = 99; s.targetScale = vs_num<R>("target scale"); s.targetCentral = vs_num<R>("target central"); vs_assume(s.targetScale > s.ScaleTolerance); }
template<class N, class F> static void go(N& nn, bool cw, F&& check) {
	typedef weights_init::procedural::LSUVExt<N, TD> LS; TD td; vl n = 3; mkTd(td, n); base(g_def); base(g_cust); g_custAt = (int)vs_choose("layer", g.nl); g_def.maxTries = vs_choose("others", 2); int var = (int)vs_choose("setup", 8);
	g_cust.bScaleNormalize = var != 1; g_cust.bCentralNormalize = var != 2; g_cust.bOverPreActivations = var == 3 || var == 5; if (var == 4) g_cust.batchSize = 2; if (var == 5) g_cust.batchSize = 2, g_cust.batchCount = 1; if (var == 6) g_cust.batchSize = 5, g_def.batchSize = 2; if (var == 7) g_def.bCentralNormalize = false, g_def.bOverPreActivations = true; g_cust.bOnInvidualNeurons = cw; int t = (int)vs_choose("tries", 3); g_cust.maxTries = t == 0 ? 1 : 2; g_cust.maxReinitTries = t < 2 ? 1 + (t == 0) : 1; if (t == 2) g_cust.maxTries = 3; if (t == 2 && var) return;
	g.cur = -1; next(); { LS ls(nn, td, g_def); if (vs_choose("default", 2)) { if (g.nl != 2 || g.l[g_custAt].w.r == 1) return; St o = g_cust; o.targetScale = 7; ls.setts().add(g.l[g_custAt].idx, o); } ls.setts().add(g.l[g_custAt].idx, g_cust); bool r = ls.run(); vs_assert(g.cur == g.nl && !g.reinit, "goes through all layers"); vs_assert(r == (g.failed == 0) && ls.m_firstFailedLayerIdx == g.failed, "reports the first layer that failed"); for (int k = 0; k < g.nl; ++k) same(*g.l[k].W, g.l[k].w, "weights in the end"); check(); vl q = 0; vs_assert(!td.is_initialized4inference(q), "the data set is released"); ls.m_bDeinitNnetOnDestroy = vs_choose("keep", 2); }
	for (int k = 0; k < g.nl; ++k) same(*g.l[k].W, g.l[k].w, "weights stay"); if (g.failed) vs_reach("failed"); else vs_reach("done");
}
typedef activation::relu<R, WI> Relu; typedef activation::identity_quad_loss<R, WI> Out;
static void chain(bool cw) { vs_set_threads(2); layer_input<NI> inp(2); LFC<Relu, GWk> f0(2, 1.); layer_output<Out, GWk> out(1, 1.); auto lp = make_layers(inp, f0, out); nnet<decltype(lp)> nn(lp); add(f0, A_RELU, 0, 2, 2); add(out, A_ID, 0, 0, 2); go(nn, cw, [&] { vs_assert(!f0.bIgnoreActivation() && !out.bIgnoreActivation(), "activations are back"); }); }
//@ prop=C32 entry=h_shared mode=real reach=done,failed toassert=60000
//@bounds 2 relu neurons and one output neuron over 3 samples of 2 features, any weights, data, targets and statistics; up to 3 tries or 2 draws of the weights of one layer, the other with one try or none; batches of all, 2 or 1 of 2 samples; over activations and pre-activations
extern "C" void h_shared() { chain(false); }
//@ prop=C32 entry=h_neuron mode=real reach=done,failed toassert=60000
//@bounds as h_shared, with statistics of the individual neurons
extern "C" void h_neuron() { chain(true); }
//@ prop=C32 entry=h_pack mode=real reach=done,failed toassert=60000
//@bounds two packed layers (of 1 and 2 neurons) side by side, and an output layer; otherwise as h_shared
extern "C" void h_pack() { vs_set_threads(2); g.gathers = 1; bool cw = vs_choose("individual", 2); layer_input<NI> inp(2); LFC<Relu, GWk> a(1, 1.), b(2, 1.); auto ph = make_layer_pack_horizontal(make_PHL(a, 0, 2), make_PHL(b, 1, 1)); layer_output<Out, GWk> out(1, 1.); auto lp = make_layers(inp, ph, out); nnet<decltype(lp)> nn(lp); add(a, A_RELU, 0, 2, 2); add(b, A_RELU, 1, 1, 1); add(out, A_ID, 0, 0, 3); go(nn, cw, [&] { vs_assert(!a.bIgnoreActivation() && !b.bIgnoreActivation() && !out.bIgnoreActivation(), "activations are back"); }); }
template<class L> struct IsOut : std::integral_constant<bool, is_layer_output<L>::value> {}; template<class L> struct IsAny : std::true_type {};
//@ prop=C32 entry=h_custom mode=real reach=few,custom
//@bounds settings added for the layers of a type, without an exception list and with one; a training set of one sample
extern "C" void h_custom() {
	vs_set_threads(2); layer_input<NI> inp(2); LFC<Relu, GWk> f0(2, 1.); layer_output<Out, GWk> out(1, 1.); auto lp = make_layers(inp, f0, out); nnet<decltype(lp)> nn(lp); add(f0, A_RELU, 0, 2, 2); add(out, A_ID, 0, 0, 2); typedef weights_init::procedural::LSUVExt<decltype(nn), TD> LS; TD td; mkTd(td, 1); base(g_def); base(g_cust); g_def.maxTries = 1; LS ls(nn, td, g_def);
	if (vs_choose("what", 2)) { g.cur = g.nl; vs_assert(!ls.run(), "no variance of a single sample"); for (int k = 0; k < 2; ++k) same(*g.l[k].W, g.l[k].w, "weights stay"); vs_reach("few"); return; }
	g_cust.maxTries = 17; bool any = vs_choose("any", 2); unsigned ex = (unsigned)vs_choose("except", 4); std::vector<layer_index_t> ids; for (int k = 0; k < 2; ++k) if (ex >> k & 1) ids.push_back(g.l[k].idx);
	if (any) { weights_init::procedural::LSUVExt_customInit<LS, IsAny> ci(ls); ci.setts = g_cust; ci.excludeIdList = ids; lp.for_each_packed_layer_exc_input(ci); } else { weights_init::procedural::LSUVExt_customInit<LS, IsOut> ci(ls); ci.setts = g_cust; ci.excludeIdList = ids; lp.for_each_packed_layer_exc_input(ci); }
	for (int k = 0; k < 2; ++k) { bool c = (any || k == 1) && !(ex >> k & 1); const St& s = ls.setts()[g.l[k].idx]; vs_assert(s.maxTries == (c ? 17 : 1), "settings for exactly the layers meant"); eqR(s.targetScale, c ? g_cust.targetScale : g_def.targetScale, "settings as given"); } vs_reach("custom");
}
