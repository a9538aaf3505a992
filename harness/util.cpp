// Utilities: statistics, epoch flags, layer lists, settings, batches of a dataset; calls, ownership, tuples, options.
#include "kern.h"
#include "blas.h"
#include <nntl/nntl.h>
#include <nntl/utils/confusion_mtx.h>
#include <nntl/utils/vector_conditions.h>
#include <nntl/utils/bwlist.h>
#include <nntl/utils/layers_settings.h>
#include <nntl/utils/dataHolder.h>
#include <nntl/utils/own_or_use_ptr.h>
#include <nntl/utils/scope_exit.h>
#include <nntl/utils/lambdas.h>
#include <nntl/utils/call_wrappers.h>
#include <nntl/utils/tuple_utils.h>
#include <nntl/utils/options.h>
#include <nntl/utils/mixins.h>
#include <string>
#include "stdimpl.h"
typedef utils::ConfusionMtx<R> CM; typedef vector_conditions VC;
static void cmIs(const CM& c, int tp, int fp, int tn, int fn, const char* l) { vs_assert(c.TP() == tp && c.FP() == fp && c.TN() == tn && c.FN() == fn && c.truePosCnt() == tp && c.falsePosCnt() == fp && c.trueNegCnt() == tn && c.falseNegCnt() == fn, l); vs_assert(c.TotalPosCnt() == tp + fp && c.TotalNegCnt() == tn + fn && c.DataPosCnt() == tp + fn && c.DataNegCnt() == tn + fp && c.AllCnt() == tp + fp + tn + fn, "totals"); }
static void cmSet(CM& c, int tp, int fp, int tn, int fn) { c.clear(); c.truePosCnt() = tp; c.falsePosCnt() = fp; c.trueNegCnt() = tn; c.falseNegCnt() = fn; }
//@ prop=C24 entry=h_cm_cnt reach=cm
//@bounds any sequence of 3 updates on top of any counts up to 10^8; accumulation of 1..3 matrices of any counts up to 10^8
extern "C" void h_cm_cnt() {
	CM c; c.clear(); cmIs(c, 0, 0, 0, 0, "cleared"); const int B = 100000000; int v[4] = { vs_int("tp", 0, B), vs_int("fp", 0, B), vs_int("tn", 0, B), vs_int("fn", 0, B) }; cmSet(c, v[0], v[1], v[2], v[3]); cmIs(c, v[0], v[1], v[2], v[3], "counts");
	if (vs_choose("what", 2)) { for (int i = 0; i < 3; ++i) { bool t = vs_choose("truth", 2), p = vs_choose("predicted", 2); c.update(t, p); v[p ? (t ? 0 : 1) : (t ? 3 : 2)]++; } cmIs(c, v[0], v[1], v[2], v[3], "updated"); CM d; d.clear(); d = c; vs_assert(d == c, "equal"); d.update(true, false); vs_assert(!(d == c), "different"); cmIs(c, v[0], v[1], v[2], v[3], "untouched"); }
	else { int n = vs_pick("n", 1, 3); CM a[3], r; r.clear(); r.update(true, true); int s[4] = { v[0], v[1], v[2], v[3] }; a[0] = c; for (int i = 1; i < n; ++i) { int w[4]; for (int& x : w) { x = vs_int("more", 0, B); } for (int k = 0; k < 4; ++k) s[k] += w[k]; cmSet(a[i], w[0], w[1], w[2], w[3]); } r.reduce(a, n); cmIs(r, s[0], s[1], s[2], s[3], "the sum"); cmIs(a[0], v[0], v[1], v[2], v[3], "the source stays"); } vs_reach("cm");
}
static void cmRates(const CM& c, R tp, R fp, R tn, R fn, R beta) {
	if (tp + fn > 0) { eqR(c.Sensitivity() * (tp + fn), tp, "sensitivity"); eqR(c.Recall(), c.Sensitivity(), "recall"); eqR(c.TPR(), c.Sensitivity(), "TPR"); }
	if (tn + fp > 0) { eqR(c.Specificity() * (tn + fp), tn, "specificity"); eqR(c.TNR(), c.Specificity(), "TNR"); }
	if (tp + fp > 0) { eqR(c.Precision() * (tp + fp), tp, "precision"); eqR(c.PPV(), c.Precision(), "PPV"); }
	if (tn + fn > 0) eqR(c.NPV() * (tn + fn), tn, "NPV"); if (tp + tn + fp + fn > 0) eqR(c.Accuracy() * (tp + tn + fp + fn), tp + tn, "accuracy");
	if (tp + fn > 0 && tn + fp > 0) eqR(c.Informedness() + 1, c.Sensitivity() + c.Specificity(), "informedness"); if (tp + fp > 0 && tn + fn > 0) eqR(c.Markedness() + 1, c.Precision() + c.NPV(), "markedness");
	if (tp + fp + fn > 0) { eqR(c.Jaccard() * (tp + fp + fn), tp, "Jaccard"); eqR(c.F1Score() * (2 * tp + fp + fn), 2 * tp, "F1"); eqR(c.FBetaScore(beta) * ((1 + beta * beta) * tp + fp + beta * beta * fn), (1 + beta * beta) * tp, "F-beta"); }
}
//@ prop=C24 entry=h_cm_rate mode=real time=200 reach=rate
//@bounds any counts up to 1000, any beta > 0
extern "C" void h_cm_rate() { CM c; int v[4] = { vs_int("tp", 0, 1000), vs_int("fp", 0, 1000), vs_int("tn", 0, 1000), vs_int("fn", 0, 1000) }; cmSet(c, v[0], v[1], v[2], v[3]); R beta = vs_num<R>("beta", 0.001, 1000); cmRates(c, v[0], v[1], v[2], v[3], beta); vs_reach("rate"); }
//@ prop=C24 entry=h_cm_mcc mode=real time=200 reach=mcc
//@bounds any counts up to 30000 (correlation coefficient)
extern "C" void h_cm_mcc() {
	CM c; int v[4] = { vs_int("tp", 0, 30000), vs_int("fp", 0, 30000), vs_int("tn", 0, 30000), vs_int("fn", 0, 30000) }; cmSet(c, v[0], v[1], v[2], v[3]); R tp = v[0], fp = v[1], tn = v[2], fn = v[3]; bool z = tp + fp == 0 || tp + fn == 0 || tn + fp == 0 || tn + fn == 0; R m = c.MCC(); if (z) eqR(m, 0, "zero when a row or a column is empty"); else eqR(m * std::sqrt((tp + fp) * (tp + fn) * (tn + fp) * (tn + fn)), tp * tn - fp * fn, "correlation coefficient"); vs_reach("mcc");
}
//@ prop=C24 entry=h_cm_big reach=big
//@bounds every combination of counts from {0, 1, 7, 40000, 50000000, 400000000} (all rates: no overflow)
extern "C" void h_cm_big() {
	CM c;
	static const int S[6] = { 0, 1, 7, 40000, 50000000, 400000000 }; int v[4]; for (int& x : v) x = S[vs_choose("count", 6)]; cmSet(c, v[0], v[1], v[2], v[3]); R tp = v[0], fp = v[1], tn = v[2], fn = v[3], q = std::sqrt(tp + fp) * std::sqrt(tp + fn) * std::sqrt(tn + fp) * std::sqrt(tn + fn); R m = c.MCC(); if (q == 0) eqR(m, 0, "zero when a row or a column is empty"); else vs_assert_near(m, (tp * tn - fp * fn) / q, 1e-9, "correlation coefficient of large counts");
	auto nr = [](R a, R b, const char* l) { vs_assert_near(a, b, 1e-9, l); }; if (tp + fn > 0) nr(c.Sensitivity(), tp / (tp + fn), "sensitivity"); if (tn + fp > 0) nr(c.Specificity(), tn / (tn + fp), "specificity"); if (tp + fp > 0) nr(c.Precision(), tp / (tp + fp), "precision"); if (tn + fn > 0) nr(c.NPV(), tn / (tn + fn), "NPV"); if (tp + fp + tn + fn > 0) nr(c.Accuracy(), (tp + tn) / (tp + fp + tn + fn), "accuracy"); if (tp + fp + fn > 0) { nr(c.Jaccard(), tp / (tp + fp + fn), "Jaccard"); nr(c.F1Score(), 2 * tp / (2 * tp + fp + fn), "F1"); nr(c.FBetaScore(2), 5 * tp / (5 * tp + fp + 4 * fn), "F-beta"); } vs_reach("big");
}
//@ prop=C24 entry=h_vc reach=vc
//@bounds 1..7 epochs, any start, strides 1..8; then a change (two changes up to 3-4 epochs) by index or by any range and stride 1..3
extern "C" void h_vc() {
	int n = vs_pick("n", 1, 7), kind = (int)vs_choose("ctor", 4); bool f[16] = {}; auto go = [&](VC& c) {
		auto is = [&](const char* l) { vs_assert(c.size() == n && c.maxEpoch() == n, "size"); for (int i = 0; i < n; ++i) vs_assert(c(i) == f[i], l); }; is("initial flags");
		for (int k = 0; k < (n > 4 || n > 3 && kind > 1 ? 1 : 2); ++k) { int op = (int)vs_choose("op", 7); if (op == 0) break; bool v = op & 1; if (op <= 2) { int i = (int)vs_choose("i", n); if (k) c.set(i, v); else if (v) c.verbose(i); else c.silence(i); f[i] = v; } else if (op <= 4) { int b = vs_pick("beg", 1, n), e = vs_pick("end", b, n), s = vs_pick("step", 1, 3); if (k) c.set(b, e, s, v); else if (v) c.verbose(b, e, s); else c.silence(b, e, s); for (int i = b; i <= e; ++i) if ((i - b) % s == 0) f[i - 1] = v;} else if (op == 5) { int m = vs_pick("m", 1, 2) * 5; bool d = vs_choose("def", 2); c.resize(m, d); for (int i = n; i < m; ++i) f[i] = d; n = m; } else { c.clear(); vs_assert(c.size() == 0, "cleared"); n = vs_pick("m", 1, 3); c.resize(n, v = vs_choose("def", 2)); for (int i = 0; i < n; ++i) f[i] = v; is("resized"); break; } is("flags after a change"); } VC d(std::move(c)); vs_assert(d.size() == n, "moved"); for (int i = 0; i < n; ++i) vs_assert(d(i) == f[i], "moved flags"); vs_reach("vc"); };
	if (kind == 0) { for (int i = 0; i < n; ++i) f[i] = true; VC c{ (nc)n }; go(c); } else if (kind == 1) { bool d = vs_choose("def", 2); for (int i = 0; i < n; ++i) f[i] = d; f[n - 1] = true; VC c{ (nc)n, d }; go(c); }
	else if (kind == 2) { nc s = vs_pick("stride", 1, 8); if (s > n) return; for (int i = 1; i <= n; ++i) f[i - 1] = i % s == 0; f[n - 1] = true; VC c{ (nc)n, s }; go(c); } else { nc b = vs_pick("start", 1, n), s = vs_pick("stride", 1, 8); for (int i = (int)b; i <= n; ++i) f[i - 1] = (i - b) % s == 0; f[n - 1] = true; VC c{ (nc)n, b, s }; go(c); }
}
struct BW : utils::_bwlist<R> { using B = utils::_bwlist<R>; BW(bool w) : B(w) {} using B::_bwlist_init; using B::_bwlist_updateLayer; using B::_bwlist_layerAllowed; };
//@ prop=C24 entry=h_bw reach=bw
//@bounds 4 layers with symbolic type identifiers; up to two symbolic entries of each kind (types, indices) added one by one or as lists; either mode, mode switch
extern "C" void h_bw() {
	bool w = vs_choose("default", 2); BW b(w); vs_assert(b.isWhiteList() == w && b.isBlackList() == !w, "mode"); bool white = vs_choose("list", 2); std::vector<layer_type_id_t> ts; std::vector<layer_index_t> is; int nt = (int)vs_choose("types", 3), ni = (int)vs_choose("idxs", 3); bool lists = vs_choose("as-lists", 2); if (w != white) { b.setMode(white); vs_assert(b.getMode() == white, "mode switched"); }
	for (int i = 0; i < nt; ++i) ts.push_back((layer_type_id_t)vs_i64("type", 0, 1 << 20)); for (int i = 0; i < ni; ++i) is.push_back((layer_index_t)vs_int("idx", 0, 5));
	if (lists) { if (nt) { if (white) b.whitelist(std::vector<layer_type_id_t>(ts)); else b.blacklist(std::vector<layer_type_id_t>(ts)); } if (ni) { if (white) b.whitelist(std::vector<layer_index_t>(is)); else b.blacklist(std::vector<layer_index_t>(is)); } } else { for (auto t : ts) if (white) b.whitelist(t); else b.blacklist(t); for (auto i : is) if (white) b.whitelist(i); else b.blacklist(i); }
	vs_assert(b.isWhiteList() == white, "mode of the list"); layer_type_id_t lt[4]; for (auto& t : lt) t = (layer_type_id_t)vs_i64("layer-type", 0, 1 << 20); for (int pass = 0; pass < 2; ++pass) { b._bwlist_init(4); for (int i = 0; i < 4; ++i) b._bwlist_updateLayer((layer_index_t)i, lt[i]); for (int i = 0; i < 4; ++i) { bool in = false; for (auto t : ts) in = in | (t == lt[i]); for (auto x : is) in = in | (x == (layer_index_t)i); vs_assert(b._bwlist_layerAllowed((layer_index_t)i) == (in == white), "a white list allows what it lists, a black list everything else"); } }
	b.resetLists(); b._bwlist_init(4); for (int i = 0; i < 4; ++i) b._bwlist_updateLayer((layer_index_t)i, lt[i]); for (int i = 0; i < 4; ++i) vs_assert(b._bwlist_layerAllowed((layer_index_t)i) == !white, "empty lists"); vs_reach("bw");
}
//@ prop=C24 entry=h_ls reach=ls
//@bounds a default and up to 3 settings for any of 3 layers (symbolic values), replacement of settings and of the default at any point
extern "C" void h_ls() {
	int d = vs_int("def", 0, 1000); utils::layer_settings<int> s(d); int v[3] = {}; bool has[3] = {}; for (int k = 0; k < 4; ++k) { int op = (int)vs_choose("op", 4); int x = vs_int("v", 0, 1000); if (op == 3) { auto& r = s.set_default(x); vs_assert(&r == &s, "returns itself"); d = x; } else { auto& r = s.add((layer_index_t)op, x); vs_assert(&r == &s, "returns itself"); v[op] = x; has[op] = true; } }
	vs_assert(s.get_default() == d, "default"); for (int i = 0; i < 3; ++i) { vs_assert(s.get((layer_index_t)i) == (has[i] ? v[i] : d), "the last setting of the layer or the default"); vs_assert(&s[(layer_index_t)i] == &s.get((layer_index_t)i), "same object"); }
	int cnt = 0; nc sum = 0; s.for_each([&](int& x) { ++cnt; sum += x; x += 5; }); nc e = d; int c = 1; for (int i = 0; i < 3; ++i) if (has[i]) { e += v[i]; ++c; } vs_assert(cnt == c && sum == e, "for_each visits the default and every setting once"); for (int i = 0; i < 3; ++i) vs_assert(s[(layer_index_t)i] == (has[i] ? v[i] : d) + 5, "changed through for_each"); utils::layer_settings<int> z; vs_assert(z[7] == 0, "default-constructed default"); vs_reach("ls");
}
static int g_calls; struct Rng { int operator()(int n) const { ++g_calls; return n == 1 ? 0 : (int)vs_choose("rng", (uint64_t)n); } auto operator()(ptrdiff_t n) const { return (*this)((int)n); } };
//@ prop=C24 entry=h_dh reach=dh
//@bounds 2..4 samples, any batch size and change of it (full batches included), any outcome of the shuffling, with and without labels; features symbolic
extern "C" void h_dh() {
	vs_set_threads(3); IM iM; Rng r; vl n = vs_pick("n", 2, 4); M x(n, 2, true), y(n, 1, false); vs_assert(!x.empty(), "memory"); sym(x, "x"); sym(y, "y"); for (vl i = 0; i < n; ++i) { E(x, i, 0) = 100 + i; } Cp cx(x), cy(y); bool hasY = vs_choose("labels", 2); utils::dataHolder<R> h; vl mb = vs_pick("max", 0, n - 1); h.init(mb, x, hasY ? &y : nullptr); vl cur = mb ? mb : n; bool seen[8] = {};
	for (int k = 0; k < (n > 3 ? 2 : 3); ++k) { if (mb && k) { vl nb = vs_pick("bs", 0, mb); if (nb) { cur = nb; h.prepareToBatchSize(cur); } else if (n < 4) { cur = n; h.prepareToBatchSize(n); } }
		vs_assert(h.curBatchSize() == cur && h.samplesCount() == n && h.isFullBatch() == (cur == n) && h.isBatchAliasToData() == (cur == n), "sizes"); g_calls = 0; h.nextBatch(r, iM); const M& bx = h.batchX(); vs_assert(bx.rows() == cur && bx.cols() == 3 && bx.emulatesBiases(), "form of the batch"); if (hasY) vs_assert(h.batchY().rows() == cur && h.batchY().cols() == 1 && !h.batchY().emulatesBiases(), "form of the labels"); bool in[8] = {};
		auto it = h.curBatchIdxsEnd() - cur; for (vl i = 0; i < cur; ++i) { int id = 0; for (; id < n; ++id) if (E(bx, i, 0) == 100 + id) break; vs_assert(id < n, "a sample of the data"); vs_assert(!in[id], "no sample twice in a batch"); in[id] = true; eqR(E(bx, i, 1), cx(id, 1), "its features"); eqR(E(bx, i, 2), 1, "bias"); if (hasY) eqR(E(h.batchY(), i, 0), cy(id, 0), "its label"); if (cur < n) vs_assert(it[i] == id && h.curBatchIdxs()[i] == id, "reported indices"); else vs_assert(id == i, "a full batch is the data themselves"); }
		if (cur < n) { vl off = (vl)(h.curBatchIdxs() - (h.curBatchIdxsEnd() - cur)); vs_assert(off == 0, "indices of the batch"); if (g_calls) for (bool& b : seen) b = false; else vs_assert(k > 0, "shuffled before the first batch"); for (int i = 0; i < n; ++i) if (in[i]) { vs_assert(!seen[i], "no sample twice before the next shuffle"); seen[i] = true; } } }
	for (nc i = 0; i < (nc)cx.n; ++i) eqR(x.begin()[i], cx.v[i], "data stay"); for (nc i = 0; i < (nc)cy.n; ++i) eqR(y.begin()[i], cy.v[i], "labels stay"); h.deinit(); h.init(0, x); h.nextBatch(r, iM); vs_assert(&h.batchX() == &x, "reinitialized"); vs_reach("dh");
}
// ---- calls, ownership, tuples, options
static int g_live, g_runs, g_copies;
struct Cnt { int v; Cnt() : v(0) { ++g_live; } Cnt(const Cnt& o) : v(o.v) { ++g_live; } ~Cnt() { --g_live; } };
template<class C> static void useFw(C& c, R a, R k, const char* l) { R z = a; vs_assert((bool)c, "holds a call"); eqR(c(a, z), a * k + 1, l); eqR(z, a + k, "reference arguments are passed by reference"); }
struct Fat { R k, pad[8]; R operator()(R a, R& z) const { z += k; return a * k + 1; } };
struct NonTriv { R k; NonTriv(R x) : k(x) {} NonTriv(const NonTriv& o) : k(o.k) { ++g_copies; } ~NonTriv() {} R operator()(R a, R& z) const { z += k; return a * k + 1; } };
static R fnc(R a, R& z) { z += 3; return a * 3 + 1; }
template<class W> static void wraps(R a, R k) {
	typedef typename W::template call_tpl<R(R, R&)> C; auto lam = [k](R x, R& z) { z += k; return x * k + 1; };
	{ C c(W::wrap(lam)); useFw(c, a, k, "a small callable"); C d(c); useFw(d, a, k, "a copy"); C e(W::wrap([k](R x, R& z) { z += k + 1; return x * (k + 1) + 1; })); useFw(e, a, k + 1, "a temporary"); e = c; useFw(e, a, k, "an assigned copy"); C m(std::move(c)); useFw(m, a, k, "a moved one"); useFw(d, a, k, "the copy stays"); d = W::wrap([k](R x, R& z) { z += k + 2; return x * (k + 2) + 1; }); useFw(d, a, k + 2, "reassigned"); useFw(e, a, k, "others stay"); }
	{ Fat f{ k, {} }; C c(W::wrap(f)); useFw(c, a, k, "a large callable"); f.k = k + 1; useFw(c, a, k + 1, "is used by reference"); } { C c(W::wrap(fnc)); useFw(c, a, 3, "a function"); }
}
//@ prop=C25 entry=h_fw mode=real reach=fw
//@bounds callables with symbolic state: small (by value), larger than the storage and not trivially copyable (by reference), plain functions; both forwarders, the std::function wrapper; symbolic arguments; copy, move, reassignment, reset
extern "C" void h_fw() {
	int w = (int)vs_choose("wrapper", 4); R a = vs_num<R>("a"), k = vs_num<R>("k");
	if (w == 0) wraps<utils::forwarderWrapper<>>(a, k); else if (w == 1) wraps<utils::cmcforwarderWrapper<>>(a, k); else if (w == 2) wraps<utils::forwarderWrapper<8 * sizeof(void*)>>(a, k);
	else { typedef utils::simpleWrapper<std::function> W; typedef W::call_tpl<R(R, R&)> C; auto lam = [k](R x, R& z) { z += k; return x * k + 1; }; C c(W::wrap(lam)); useFw(c, a, k, "std::function"); NonTriv t(k); g_copies = 0; typedef utils::forwarderWrapper<> FW; FW::call_tpl<R(R, R&)> f(FW::wrap(t)); useFw(f, a, k, "not trivially copyable: by reference"); vs_assert(g_copies == 0, "not copied"); t.k = k + 1; useFw(f, a, k + 1, "sees the object"); }
	{ utils::cmcforwarder<R(R)> e; vs_assert(!e && e == nullptr && nullptr == e && !(e != nullptr), "empty"); e = [k](R x) { return x + k; }; vs_assert((bool)e && e != nullptr && !(nullptr == e), "not empty"); eqR(e(a), a + k, "assigned"); e.reset(); vs_assert(!e, "reset"); e.assign([k](R x) { return x - k; }); eqR(e(a), a - k, "assigned again"); e.assign(nullptr); vs_assert(!e, "null"); }
	{ utils::forwarder<R(R)> p([k](R x) { return x + k; }), q([k](R x) { return x - k; }); p.swap(q); eqR(p(a), a - k, "swapped"); eqR(q(a), a + k, "swapped"); } vs_reach("fw");
}
//@ prop=C25 entry=h_own reach=own
//@bounds owning and borrowing pointers, release at any point; scope exit of nested scopes with early return
extern "C" void h_own() {
	g_live = 0; auto h0 = vs_heap_live(); { utils::own_or_use_ptr<Cnt> p; vs_assert(g_live == 1 && !p.empty() && p.bOwning, "owns a new object"); p->v = 5; Cnt& r = p.get(); vs_assert(r.v == 5 && p.ptr() == &r && (Cnt*)p == &r, "access"); if (vs_choose("release", 2)) { p.release(); vs_assert(p.empty() && g_live == 0 && vs_heap_live() == h0, "released"); p.release(); vs_assert(g_live == 0, "only once"); } } vs_assert(g_live == 0 && vs_heap_live() == h0, "destroyed exactly once");
	{ Cnt c; { utils::own_or_use_ptr<Cnt*> p(&c); vs_assert(!p.bOwning && p.ptr() == &c && &p.get() == &c, "borrows"); if (vs_choose("release", 2)) { p.release(); vs_assert(p.empty() && g_live == 1, "released without destruction"); } } vs_assert(g_live == 1, "never destroys what it borrows"); } vs_assert(g_live == 0 && vs_heap_live() == h0, "nothing leaks");
	g_runs = 0; auto f = [](bool early) { utils::scope_exit a([] { g_runs = g_runs * 10 + 1; }); if (early) return; int loc = 2; utils::scope_exit b([&loc] { g_runs = g_runs * 10 + loc; }); loc = 3; vs_assert(g_runs == 0, "not before the end of the scope"); }; bool early = vs_choose("early", 2); f(early); vs_assert(g_runs == (early ? 1 : 31), "each exactly once, in reverse order"); vs_assert(vs_heap_live() == h0, "nothing leaks");
	int n = vs_pick("n", 0, 6); auto fact = utils::make_y_combinator([](auto&& self, int k) -> int { return k <= 1 ? 1 : k * self(k - 1); }); int e = 1; for (int i = 2; i <= n; ++i) e *= i; vs_assert(fact(n) == e, "recursion"); vs_reach("own");
}
template<size_t N> struct El { int v; static constexpr size_t id = N; };
struct Log { int ids[8], vals[8], n = 0; template<size_t N> void operator()(El<N>& e) { vs_assert(n < 8, "too many"); ids[n] = N; vals[n++] = e.v; e.v += 100; } };
template<class F> static void tup(F f, std::initializer_list<int> want, int a, int b, int c, int d) { std::tuple<El<0>, El<1>, El<2>, El<3>> t{ {a}, {b}, {c}, {d} }; int v[4] = { a, b, c, d }; Log l; f(t, l); vs_assert(l.n == (int)want.size(), "every element once"); int i = 0; bool hit[4] = {}; for (int w : want) { vs_assert(l.ids[i] == w && l.vals[i] == v[w], "in order"); hit[w] = true; ++i; } vs_assert(std::get<0>(t).v == a + 100 * hit[0] && std::get<1>(t).v == b + 100 * hit[1] && std::get<2>(t).v == c + 100 * hit[2] && std::get<3>(t).v == d + 100 * hit[3], "works on the elements themselves"); }
enum RootOpts { r0, r1, r2, opts_total };
struct MixA { static constexpr size_t opts_total = 2; }; struct MixB { static constexpr size_t opts_total = 0; }; struct MixC { static constexpr size_t opts_total = 3; };
struct BOE { enum E { a, b, c, total_options }; };
//@ prop=C25 entry=h_tup reach=tup
//@bounds tuples of 4 elements with symbolic values (1 and 2 elements for the shortest walks); option storages of 3+2+0+3 options, any two changes
extern "C" void h_tup() {
	using namespace tuple_utils; int a = vs_int("a", 0, 9), b = vs_int("b", 0, 9), c = vs_int("c", 0, 9), d = vs_int("d", 0, 9);
	tup([](auto& t, auto& l) { for_each_up(t, l); }, { 0, 1, 2, 3 }, a, b, c, d); tup([](auto& t, auto& l) { for_each_down(t, l); }, { 3, 2, 1, 0 }, a, b, c, d); tup([](auto& t, auto& l) { for_each_exc_first_up(t, l); }, { 1, 2, 3 }, a, b, c, d); tup([](auto& t, auto& l) { for_each_exc_last_up(t, l); }, { 0, 1, 2 }, a, b, c, d); tup([](auto& t, auto& l) { for_each_exc_first_down(t, l); }, { 3, 2, 1 }, a, b, c, d);
	{ std::tuple<El<0>, El<1>, El<2>> t{ {a}, {b}, {c} }; int n = 0; for_eachwp_up(t, [&](auto& cur, auto& prev, bool first) { typedef std::decay_t<decltype(cur)> C; typedef std::decay_t<decltype(prev)> P; vs_assert(C::id == (size_t)n + 1 && P::id == (size_t)n && first == (n == 0), "pairs in order"); cur.v += prev.v; ++n; }); vs_assert(n == 2 && std::get<1>(t).v == a + b && std::get<2>(t).v == a + b + c && std::get<0>(t).v == a, "each sees what the previous one left"); }
	{ std::tuple<El<0>> t{ {a} }; Log l, m; for_each_up(t, l); for_each_down(t, m); vs_assert(l.n == 1 && l.vals[0] == a && m.n == 1 && m.vals[0] == a + 100, "one element"); std::tuple<El<0>, El<1>> u{ {a}, {b} }; Log p, q; for_each_exc_first_up(u, p); for_each_exc_last_up(u, q); vs_assert(p.n == 1 && p.ids[0] == 1 && q.n == 1 && q.ids[0] == 0, "two elements"); }
	{ auto t = std::make_tuple(a, (short)1, 'c', b); auto s = subtuple_trim_tail<2>(t); static_assert(std::tuple_size<decltype(s)>::value == 2, ""); vs_assert(std::get<0>(s) == a && std::get<1>(s) == 1, "head of a tuple"); typedef std::tuple<int, char, short> T; vs_assert(tuple_element_idx_safe<short, T>::value == 2 && tuple_element_idx_safe<int, T>::value == 0 && tuple_element_idx_safe<long, T>::value == 3 && get_element_idx<char, int, char, short>() == 1, "index of a type"); static_assert(std::is_same<typename remove_last_n<1, int, char, short>::type, std::tuple<int, char>>::value && is_tuple<T>::value && !is_tuple<int>::value, ""); }
	{ using namespace utils::mixins; typedef ::boost::mpl::vector<MixA, MixB, MixC> Seq; typedef make_mixin_options_count_vec_c<Seq, 3> Cnts; typedef make_cumsum_vec_c<Cnts> Ofs; vs_assert(get_cumsum<Cnts>::value == 8, "total"); binary_options_storage<Ofs, get_cumsum<Cnts>::value> o; bool w[8] = {};
		auto put = [&](int k, bool v) { if (k < 3) o.template set<0>(k, v); else if (k < 5) o.template set<1>(k - 3, v); else o.template set<3>(k - 5, v); w[k] = v; }; auto chk = [&]() { for (int k = 0; k < 8; ++k) vs_assert((k < 3 ? o.template get<0>(k) : k < 5 ? o.template get<1>(k - 3) : o.template get<3>(k - 5)) == w[k], "options of different mixins do not overlap"); };
		for (int k = 0; k < 8; ++k) put(k, false); put((int)vs_choose("opt", 8), true); chk(); put((int)vs_choose("opt", 8), vs_choose("v", 2)); chk(); }
	{ struct S : utils::binary_options<BOE::E> {} s; struct N {} n; vs_assert(utils::binary_option<true>(n, 1) && !utils::binary_option<false>(n, 1), "the default where there are no options"); s.turn_on_all_options(); vs_assert(utils::binary_option<false>(s, BOE::a) && utils::binary_option<false>(s, BOE::c), "all on"); s.m_binary_options[BOE::b] = false; vs_assert(!utils::binary_option<true>(s, BOE::b) && utils::binary_option<true>(s, BOE::c), "one off"); s.turn_off_all_options(); vs_assert(!utils::binary_option<true>(s, BOE::a) && !utils::binary_option<true>(s, BOE::c), "all off"); } vs_reach("tup");
}
