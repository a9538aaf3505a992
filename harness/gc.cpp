//@small
//@strings
// Numeric gradient check: passes for right gradients, names the layer of a wrong one, leaves the net alone.
#define NET_RNG
#define NET_INSP Spy
#define NET_PRE struct Spy;
#include "netref.h"
#include <nntl/interface/inspectors/gradcheck.h>
static struct { int grp; layer_index_t layer; vl i, j; int hits, nA[5], nW[5]; bool on; unsigned a[5], w[5]; } g;
typedef std::pair<vl, vl> Co;
struct Spy : inspector::GradCheck<R> { typedef inspector::GradCheck<R> B;
	void hit(int grp, const realmtx_t& m) { if (!g.on || g.grp != grp || !(m_curLayer == g.layer)) return; R& v = const_cast<realmtx_t&>(m).get(g.i, g.j); if (m_layerIdxToCheck == g.layer && (m_checkParamsGroup == nntl::_impl::gradcheck_paramsGroup::dLdW) == grp && m_coord.first == g.i && m_coord.second == g.j) { vs_assume(v < -.01 || v > .01); ++g.hits; } v = v * 2; } // a wrong gradient
	void bprop_dLdW(const realmtx_t& dLdZ, const realmtx_t& prev, const realmtx_t& dLdW) { hit(1, dLdW); B::bprop_dLdW(dLdZ, prev, dLdW); }
	void bprop_finaldLdA(const realmtx_t& dLdA) { if (m_curLayer.bUpperLayerDifferent()) hit(0, dLdA); B::bprop_finaldLdA(dLdA); }
	void gc_prep_check_layer(const layer_index_t l, const nntl::_impl::gradcheck_paramsGroup gr, const mtx_coords_t& c, const bool may = false) { if (gr == nntl::_impl::gradcheck_paramsGroup::dLdA) { vs_assert(c.first == 0, "a single sample"); ++g.nA[l]; g.a[l] |= 1u << c.second; } else { ++g.nW[l]; g.w[l] |= 1u << (c.first * 8 + c.second); } B::gc_prep_check_layer(l, gr, c, may); }
};
static unsigned all(int n, int c) { unsigned m = 0; for (int i = 0; i < n; ++i) m |= ((1u << c) - 1) << (8 * i); return m; }
static int bits(unsigned m) { return __builtin_popcount(m); }
static int midInt(int lo, int hi) { return lo + (hi - lo) / 2; } static int chooseInt(int lo, int hi) { return lo + (int)vs_choose("rng", (uint64_t)(hi - lo + 1)); }
static int g_foc; static R num(const char* n, int k, R v) { return g_foc == k ? vs_num<R>(n) : v; }
typedef LFC<activation::identity<R>, GWk> L; typedef layer_output<activation::identity_quad_loss<R>, GWk> O;
static T given(LFC<activation::identity<R>, GWk>* l, O* o, int n, int c, int k) { M a(n, c + 1); for (int j = 0; j <= c; ++j) for (int i = 0; i < n; ++i, ++k) E(a, i, j) = num("w", k, (k & 1 ? -1. : 1.) * (1 + k * .25)); T t = wOf(a); vs_assert(l ? l->set_weights(std::move(a)) : o->set_weights(std::move(a)), "weights accepted"); return t; }
static void data(M& x, M& y, int k) { for (vl i = 0; i < x.rows(); ++i) { for (int j = 0; j < 2; ++j, ++k) E(x, i, j) = num("x", k, 3 - j * 1.25 + i); E(x, i, 2) = 1; E(y, i, 0) = num("y", k++, 17 + i * 2); } }
// the net is what it was, and goes on learning
template<class N> static void intact(N& nn, bool train, vl bs, const M& x, const M& y, L& f0, O& out, const T& w0, const T& w1) {
	same(f0.get_weights(), w0, "weights stay"); same(out.get_weights(), w1, "weights stay"); auto& cd = nn.___get_common_data(); vs_assert(cd.is_training_mode() == train && cd.input_batch_size() == bs, "mode and batch size are back"); if (bs > 0 && bs <= x.rows()) { M Z(bs, 2, true); for (vl i = 0; i < bs; ++i) for (int j = 0; j < 3; ++j) E(Z, i, j) = E(x, i, j); nn.get_layer_pack().fprop(Z); same(out.get_activations(), lin(w1, lin(w0, tOf(Z))), "works at that batch size"); } vl n = x.rows() < 2 ? 1 : 2; mode(nn, true, n); M X(n, 2, true), Y(n, 1); for (vl i = 0; i < n; ++i) { for (int j = 0; j < 3; ++j) E(X, i, j) = E(x, i, j); E(Y, i, 0) = E(y, i, 0); } T x0 = tOf(X), a0 = lin(w0, x0), a1 = lin(w1, a0), d1 = dOut(A_ID, a1, tOf(Y)), d0 = down(d1, w1); nn.get_layer_pack().fprop(X); nn.get_layer_pack().bprop(Y); same(f0.get_weights(), step(w0, grad(d0, x0, w0, n), .5), "learning goes on"); same(out.get_weights(), step(w1, grad(d1, a0, w1, n), .25), "learning goes on"); }
template<class F> static void chain(F&& f) { vs_set_threads(2); Gen::irnd = midInt; layer_input<NI> inp(2); L f0(2, .5); O out(1, .25); auto lp = make_layers(inp, f0, out); nnet<decltype(lp)> nn(lp); T w0 = given(&f0, nullptr, 2, 2, 0), w1 = given(nullptr, &out, 1, 2, 6); f(nn, f0, out, w0, w1); }
static void lax(gradcheck_settings<R>& st) { st.evalSetts.dLdA_setts.percOfZeros = st.evalSetts.dLdW_setts.percOfZeros = 100; }
//@ prop=C33 entry=h_right mode=real reach=right toassert=60000
//@bounds two identity layers of 2 and 1 neurons with quadratic loss, 1..3 samples, batches of 1..3 and online batches of 1..2, any value of any one of the weights, features or labels, other values fixed; fresh and already initialised net; fixed shuffles
extern "C" void h_right() {
	g_foc = (int)vs_choose("focus", 18); chain([&](auto& nn, L& f0, O& out, const T& w0, const T& w1) { vl n = vs_pick("n", 1, 3), bs = vs_pick("batch", 1, n), ob = vs_pick("online", 1, n < 2 ? 1 : 2); if (!(n == 3 && bs == 2 && ob == 1) && g_foc != 0 && g_foc != 9) return; M x(n, 2, true), y(n, 1); data(x, y, 9); vl big = bs > ob ? bs : ob; bool pre = vs_choose("initialised", 2), train = false; if (pre) { if (g_foc) return; vs_assert(nn.___init(3, 3, false) == _nnet_errs::ErrorCode::Success, "init"); train = vs_choose("mode", 2); mode(nn, train, 2); }
		auto& cd = nn.___get_common_data(); gradcheck_settings<R> st(false, false, .25); lax(st); st.onlineBatchSize = ob; if (!pre) { vs_assert(nn.___init(big, big, false) == _nnet_errs::ErrorCode::Success, "init"); } train = cd.is_training_mode(); vl cur = cd.input_batch_size(); bool r = nn.gradcheck(x, y, bs, st);
		vs_assert(r, "right gradients pass"); vs_assert(g.a[1] == 3 && g.nA[1] == 2 && !g.nA[2] && g.w[1] == all(2, 3) && g.nW[1] == 6 && g.w[2] == all(1, 3) && g.nW[2] == 3, "everything is checked, once"); if (cur > 0) intact(nn, train, cur, x, y, f0, out, w0, w1); vs_reach("right"); });
}
//@ prop=C33 entry=h_wrong mode=real reach=caught,tolerated,ignored toassert=60000
//@bounds as h_right with batches of 2 of 3 samples, where any one component of the computed gradients is twice what it should be (and is not zero): relative error 1/2 against any thresholds
extern "C" void h_wrong() {
	int fs[] = { 0, 6, 9 }; g_foc = fs[vs_choose("focus", 3)]; int c = (int)vs_choose("wrong", 11); g.on = true; g.grp = c >= 2; g.layer = c < 8 ? 1 : 2; g.i = c < 2 ? 0 : c < 8 ? (c - 2) / 3 : 0; g.j = c < 2 ? c : (c - 2) % 3; chain([&](auto& nn, L& f0, O& out, const T& w0, const T& w1) { M x(3, 2, true), y(3, 1); data(x, y, 9); gradcheck_settings<R> st(false, false, .25); lax(st);
		R warn = vs_num<R>("warn"), fail = vs_num<R>("fail"); vs_assume(warn > 0 && warn <= fail && fail < 1); int how = (int)vs_choose("how", 4); if (how && g_foc) return; vs_assume(how == 0 ? fail <= .5 && warn < .5 : how == 1 ? fail > .5 : fail <= .5); (g.grp ? st.evalSetts.dLdW_setts : st.evalSetts.dLdA_setts).relErrWarnThrsh = warn; (g.grp ? st.evalSetts.dLdW_setts : st.evalSetts.dLdA_setts).relErrFailThrsh = fail; if (how == 1 && !g.grp) st.evalSetts.dLdW_setts.relErrWarnThrsh = st.evalSetts.dLdW_setts.relErrFailThrsh = 1e9; /* goes on with what is wrong */ if (how == 2) st.ignoreLayerIds.push_back(g.layer); if (how == 3) { if (c != 3 && c != 9) return; st.ignoreLayerIds.push_back(3 - g.layer); vs_assume(warn < .5); }
		bool r = nn.gradcheck(x, y, 2, st); if (how == 0 || how == 3) { vs_assert(!r && g.hits == 1, "wrong gradients are found"); vs_reach("caught"); } else { vs_assert(r, "within tolerance, or not to be checked"); if (how == 2) { vs_assert(!g.hits && !g.nA[g.layer] && !g.nW[g.layer], "not to be checked"); vs_reach("ignored"); } else { vs_assert(g.hits == 1, "checked"); vs_reach("tolerated"); } } g.on = false; auto& cd = nn.___get_common_data(); intact(nn, cd.is_training_mode(), cd.input_batch_size(), x, y, f0, out, w0, w1); });
}
//@ prop=C33 entry=h_count mode=real reach=count,zero toassert=60000
//@bounds limits on the number of neurons and weights to check, by number and by percentage, for up to 200 parameters; any shuffle of them; any limit on zero gradients where both gradients of a layer vanish, or one
extern "C" void h_count() {
	if (vs_choose("part", 2)) { vl n = vs_pick("n", 1, 200), k = vs_pick("k", 1, 3); if (vs_choose("percent", 2)) { int p[] = { 1, 10, 33, 100 }, q = p[vs_choose("p", 4)]; gradcheck_groupSetts s(k, q); vl m = k < n ? k : n, e = n * q / 100; vs_assert(s.countToCheck(n) == (m > e ? m : e), "a share, but not less than a number"); } else { gradcheck_groupSetts s(k); vs_assert(s.countToCheck(n) == (k < n ? k : n), "a number, but not more than there are"); } return; }
	g_foc = -1; chain([&](auto& nn, L& f0, O& out, const T& w0, const T& w1) { M x(3, 2, true), y(3, 1); data(x, y, 9); gradcheck_settings<R> st(false, false, .25); if (vs_choose("zero", 2)) { int z = (int)vs_choose("which", 2) + 1, use = (int)vs_choose("use", 2); int ps[] = { 0, 49, 50, 99, 100 }; int lim = ps[vs_choose("percent", 5)]; M& v = out.get_weights(); for (int i = 0; i < z; ++i) E(v, 0, i) = 0; T v0 = wOf(v); lax(st); (use ? st.evalSetts.dLdA_setts : st.evalSetts.dLdW_setts).percOfZeros = lim; bool r = nn.gradcheck(x, y, 2, st); bool ok = use ? z <= 2 * lim / 100 : 3 * z <= 6 * lim / 100; vs_assert(r == ok, "not more zeros than allowed"); same(f0.get_weights(), w0, "weights stay"); same(out.get_weights(), v0, "weights stay"); vs_reach("zero"); return; }
		Gen::irnd = chooseInt; vl k = vs_pick("neurons", 1, 2), m = vs_pick("weights", 1, 2); st.groupSetts.set(k); st.subgroupSetts.set(m); lax(st); bool r = nn.gradcheck(x, y, 3, st); vs_assert(r, "right gradients pass"); vs_assert(bits(g.a[1]) == k && g.nA[1] == k, "so many neurons"); unsigned bi = 0; int rows = 0; for (int i = 0; i < 2; ++i) { bi += g.w[1] >> (8 * i + 2) & 1; unsigned q = g.w[1] >> (8 * i) & 3; if (q) ++rows, vs_assert(bits(q) == m, "so many weights of a neuron"); } vs_assert(bi == k && rows == k && g.nW[1] == k * (m + 1), "weights of so many neurons, and biases of so many"); vs_assert(bits(g.w[2]) == m + 1 && g.nW[2] == m + 1, "weights of the output neuron"); vs_reach("count"); });
}
