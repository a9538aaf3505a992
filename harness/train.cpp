//@small
//@strings
// nnet::train(): which batches train the net, what is reported when, which loss, when it stops, what is left behind.
#include <chrono>
#define NET_RNG
#define NET_INSP Spy
#define NET_PRE struct Spy : inspector::_impl::_base<R> { void init_nnet(size_t, numel_cnt_t) const; void train_epochBegin(numel_cnt_t, numel_cnt_t) const; void train_epochEnd() const; void train_batchBegin(numel_cnt_t) const; void train_batchEnd() const; void train_preFprop(const realmtx_t&) const; template<class Y> void train_preBprop(const math::smatrix<Y>&) const; void train_preCalcError(data_set_id_t) const; void train_postCalcError() const; };
#include "netref.h"
#include <nntl/train_data/inmem_train_data.h>
typedef layer_output<activation::identity_quad_loss<R>, GWk> OI; typedef inmem_train_data<R, R> TD; typedef _nnet_errs::ErrorCode EC;
// what is expected, and the state of the reference
static struct Ref { T x[2], y[2], w; R lr, l2, thr; vl batch, fmax, n[2]; nc epochs; int divLast; bool full, onlyTime; const bool* cond; M* W; OI* out; // settings
	enum Ph { NONE, INIT, STARTED, REPORT, TRAIN, ENDED, CLOSED } ph; nc ep, nextReport, b; int set; vl pos; nc nb, rb; R sum, loss[2]; bool seen[8], needReport, diverged, stopped; int tests; T bx, by; int inits, deinits; bool insp, eval, any; int ic; vl alt, cur; } g;
static int nI(nc n, nc m) { return (int)((n + m - 1) / m); }
static R addendum() { if (g.l2 == 0 || !g.full) return 0; R s = 0; for (int j = 0; j + 1 < g.w.c; ++j) for (int i = 0; i < g.w.r; ++i) s += g.w[i][j] * g.w[i][j]; return g.l2 * .5 * s; }
static T row(const T& t, vl from, vl k) { T r((int)k, t.c); for (int i = 0; i < r.r; ++i) for (int j = 0; j < t.c; ++j) r[i][j] = t[(int)from + i][j]; return r; }
struct Obs : i_training_observer<R> {
	template<class D, class C> bool init(nc epochs, D&, const C& cd) { vs_assert(g.ph == Ref::NONE && epochs == g.epochs, "observer is told the number of epochs"); vs_assert(cd.input_training_batch_size() >= g.batch && cd.input_max_fprop_batch_size() >= g.fmax, "the net is initialised by then"); ++g.inits; g.ph = Ref::INIT; return g.ic != 1; }
	void deinit() { vs_assert(g.inits == 1 && g.deinits == 0, "deinitialised once"); ++g.deinits; g.ph = Ref::CLOSED; }
	template<class D> void on_training_start(const D&, vl bs, vl fs, nc params) { vs_assert(g.ph == Ref::INIT, "start follows initialisation"); vs_assert(bs == g.batch && fs == g.fmax && params == (nc)g.w.r * g.w.c, "sizes in force"); g.ph = Ref::STARTED; g.nextReport = -1; g.set = -1; }
	void report_results_begin(int id, nc batches) { vs_assert((g.ph == Ref::STARTED && g.nextReport == -1) || (g.ph == Ref::TRAIN && g.needReport), "a report is due"); vs_assert(id == g.set + 1, "training set first, then test set"); g.cur = batches == nI(g.n[id], g.fmax) ? g.fmax : g.alt; vs_assert(g.cur > 0 && batches == nI(g.n[id], g.cur), "number of batches"); g.set = id; g.pos = 0; g.sum = 0; g.rb = 0; }
	template<class Y, class C> void report_results(nc b, const M& a, const math::smatrix<Y>& y, const C& cd) { vs_assert(b == g.rb++, "batch number"); vl k = g.n[g.set] - g.pos < g.cur ? g.n[g.set] - g.pos : g.cur; vs_assert(!cd.is_training_mode(), "evaluation mode"); T X = row(g.x[g.set], g.pos, k), Y0 = row(g.y[g.set], g.pos, k), A = fwd(A_ID, g.w, X); same(a, A, "activations reported"); same(y, Y0, "labels of the same samples"); R s = 0; for (int j = 0; j < A.c; ++j) for (int i = 0; i < A.r; ++i) { R e = A[i][j] - Y0[i][j]; s += e * e; } g.sum += s / 2; g.pos += k; }
	void report_results_end(R l) { vs_assert(g.pos == g.n[g.set], "every sample was reported"); R e = g.sum / g.n[g.set] + addendum(); eqR(l, e, "mean loss over the set"); g.loss[g.set] = l; }
	void on_training_fragment_end(nc ep, R tr, R te, const std::chrono::nanoseconds& t) { vs_assert(g.set == 1 && ep == g.nextReport, "fragment of the last epoch"); eqR(tr, g.loss[0], "training loss"); eqR(te, g.loss[1], "test loss"); vs_assert(t.count() >= 0 && (ep >= 0 || t.count() == 0), "elapsed time"); if (g.ph == Ref::STARTED) { g.ph = Ref::TRAIN; g.ep = 0; g.insp = false; g.needReport = false; } else { g.needReport = false; g.diverged = g.nextReport < g.divLast && !(tr < g.thr); } g.set = -1; }
	void on_training_end(const std::chrono::nanoseconds& t) { vs_assert(g.ph == Ref::TRAIN && !g.onlyTime && t.count() >= 0, "end of the training"); vs_assert(!g.diverged && !g.insp && (g.ep == g.epochs || g.stopped), "all epochs done"); g.ph = Ref::ENDED; } };
void Spy::init_nnet(size_t n, numel_cnt_t e) const { if (g.any) return; vs_assert(g.eval || (nc)e == g.epochs, "inspector is told the number of epochs"); }
void Spy::train_epochBegin(numel_cnt_t e, numel_cnt_t n) const { if (g.any) return; vs_assert(g.ph == Ref::TRAIN && e == g.ep && e < g.epochs && !g.insp && !g.stopped && !g.diverged && !g.needReport, "next epoch"); vs_assert(n == g.n[0] / g.batch, "batches per epoch"); g.nb = n; g.b = 0; g.insp = true; for (auto& s : g.seen) s = false; }
void Spy::train_batchBegin(numel_cnt_t b) const { if (g.any) return; vs_assert(g.insp && b == g.b && b < g.nb, "next batch"); g.tests = 0; }
void Spy::train_preFprop(const realmtx_t& x) const { if (g.any) return; vs_assert((vl)x.batch_size() == g.batch, "batch size"); g.bx = tOf(x); }
template<class Y> void Spy::train_preBprop(const math::smatrix<Y>& y) const { if (g.any) return; g.by = tOf(y); }
void Spy::train_batchEnd() const { if (g.any) return; ++g.b;
	for (int i = 0; i < g.bx.r; ++i) { int k = 0; for (; k < g.n[0]; ++k) if (g.bx[i][0] == g.x[0][k][0]) break; vs_assert(k < g.n[0] && !g.seen[k], "samples of the training set, each at most once"); g.seen[k] = true; for (int j = 0; j < g.bx.c; ++j) eqR(g.bx[i][j], g.x[0][k][j], "features"); for (int j = 0; j < g.by.c; ++j) eqR(g.by[i][j], g.y[0][k][j], "labels of the same sample"); }
	T a = fwd(A_ID, g.w, g.bx), G = grad(dOut(A_ID, a, g.by), g.bx, g.w, (int)g.batch); if (g.l2 != 0) for (int j = 0; j + 1 < G.c; ++j) for (int i = 0; i < G.r; ++i) G[i][j] = G[i][j] + g.l2 * g.w[i][j]; same(*g.W, step(g.w, G, g.lr), "one step of gradient descent per batch"); symW(*g.W, "w"); g.w = wOf(*g.W); // goes on from any weights
	if (g.b == g.nb) { g.nextReport = g.ep; bool chk = g.ep < g.divLast; g.needReport = chk || (g.cond[g.ep] && !g.onlyTime); } }
void Spy::train_epochEnd() const { if (g.any) return; vs_assert(g.insp && g.b == g.nb && !g.needReport && !g.diverged, "epoch complete and reported"); g.insp = false; ++g.ep; }
void Spy::train_preCalcError(data_set_id_t d) const { if (g.any) return; vs_assert(d == g.set + 1, "error of the next set"); } void Spy::train_postCalcError() const {}
struct NanObs : i_training_observer<R> { static R loss; template<class D, class C> bool init(nc, D&, const C&) { return true; } void deinit() {} template<class D> void on_training_start(const D&, vl, vl, nc) {} void report_results_begin(int, nc) {} template<class Y, class C> void report_results(nc, const M&, const math::smatrix<Y>&, const C&) {} void report_results_end(R) {} void on_training_fragment_end(nc ep, R tr, R, const std::chrono::nanoseconds&) { if (ep == 0) loss = tr; } void on_training_end(const std::chrono::nanoseconds&) {} }; R NanObs::loss = 0;
static int zeroInt(int lo, int hi) { return lo + (hi - lo) / 2; } static int chooseInt(int lo, int hi) { return lo + (int)vs_choose("rng", (uint64_t)(hi - lo + 1)); }
static bool g_fixY; static void mkTd(TD& td, vl ntr, vl nte) { M* m[4]; smatrix_deform<R> a[4]; for (int i = 0; i < 2; ++i) { vl n = i ? nte : ntr; g.n[i] = n; a[2 * i].will_emulate_biases(); vs_assert(a[2 * i].resize_as_dataset(n, 1) && a[2 * i + 1].resize_as_dataset(n, 1), "memory"); a[2 * i].set_biases(); for (vl s = 0; s < n; ++s) { E(a[2 * i], s, 0) = i ? 20 + s : 1 + s * 2; E(a[2 * i + 1], s, 0) = g_fixY ? .5 * s - i : vs_num<R>("y"); } g.x[i] = tOf(a[2 * i]); g.y[i] = tOf(a[2 * i + 1]); } vs_assert(td.absorb(std::move(a[0]), std::move(a[1]), std::move(a[2]), std::move(a[3])), "coherent data"); (void)m; }
template<class N, class O> static EC go(N& nn, TD& td, O& opts, nc stopAt, EC cbr, const M* px = nullptr) { g.ph = Ref::NONE; g.inits = g.deinits = 0; g.diverged = g.stopped = g.needReport = g.insp = false; g.set = -1; g.onlyTime = opts.bReportOnlyTime(); g.full = opts.calcFullLossValue(); g.divLast = (int)opts.divergenceCheckLastEpoch(); g.epochs = opts.maxEpoch(); g.thr = opts.divergenceCheckThreshold(); int cbs = 0;
	EC ec = nn.template train<false>(td, opts, [&](nc e) { vs_assert(e == cbs++ && e + 1 == g.ep && !g.insp, "callback after each epoch"); g.stopped = e == stopAt; if (px && (vl)px->rows() <= g.fmax) { g.eval = true; vs_assert(nn.fprop(*px) == EC::Success, "evaluation between epochs"); same(g.out->get_activations(), fwd(A_ID, g.w, tOf(*px)), "evaluation between epochs"); g.eval = false; } return !g.stopped; }, [&]() { vs_assert(g.ph == Ref::NONE, "callback before the observer"); return cbr; });
	vs_assert(ec == nn.get_last_error(), "error code is kept"); same(*g.W, g.w, "weights are those of the last batch"); vs_assert(g.deinits == (g.inits && g.ic != 1), "observer closed"); if (ec == EC::Success) { vs_assert(!g.diverged && (g.stopped || g.ep == g.epochs) && cbs == g.ep, "trained to the end"); } else vs_assert(ec == (cbr != EC::Success ? cbr : g.ic == 1 ? EC::CantInitializeObserver : EC::NNDiverged) && (ec != EC::NNDiverged || g.diverged), "reason of the failure"); return ec; }
//@ prop=C30 entry=h_train mode=real reach=trained,diverged toassert=20000
//@bounds 2..3 training and 1, 3 test samples, a network of one identity neuron; training batches of 1..2 or the full set, evaluation batches of any size or unlimited; 2 epochs with any reporting schedule, divergence check over 0..2 epochs with any threshold, stop by callback, only time reported, L2 addendum counted or not; two trainings in a row; one order of samples
extern "C" void h_train() {
	vs_set_threads(2); Gen::irnd = zeroInt; vl ntr = vs_pick("train", 2, 3), nte = vs_choose("test", 2) * 2 + 1; int var = (int)vs_choose("variant", 4); R lr = vs_num<R>("lr"); vs_assume(lr > 0); layer_input<NI> inp(1); OI out(1, lr); R l2 = var == 1 ? 0.5 : 0.; if (l2 != 0) out.get_gradWorks().L2(l2); auto lp = make_layers(inp, out); nnet<decltype(lp)> nn(lp); T w = setW(out, 1, "w"); memset(&g, 0, sizeof g); g.lr = lr; g.l2 = l2; g.w = w; g.W = &out.get_weights(); g.out = &out; TD td; mkTd(td, ntr, nte);
	bool cond[2] = { (bool)vs_choose("e0", 2), (bool)vs_choose("e1", 2) }; g.cond = cond; nnet_train_opts<R, Obs> opts((nc)2); for (nc e = 0; e < 2; ++e) opts.getCondEpochEval().set(e, cond[e]); g.batch = vs_pick("batch", 0, 2); g.fmax = g.batch ? (vl)vs_choose("fmax", 2) * g.batch : 0; opts.batchSize(g.batch).maxFpropSize(g.fmax); g.batch = g.batch ? g.batch : ntr; g.fmax = g.fmax ? g.fmax : ntr > nte ? ntr : nte;
	R thr = vs_num<R>("thr"); int dl = var == 0 ? (int)vs_choose("dl", 3) : 0; if (dl) opts.divergenceCheckLastEpoch(dl).divergenceCheckThreshold(thr); else opts.noDivergenceCheck(); if (var == 1) opts.calcFullLossValue(vs_choose("full", 2)); if (var == 2) opts.bReportOnlyTime(true); nc stop = var == 3 ? 0 : -1; if (var == 3) opts.ImmediatelyDeinit(true);
	EC ec = go(nn, td, opts, stop, EC::Success); if (ec == EC::Success) vs_reach("trained"); else vs_reach("diverged");
}
//@ prop=C30 entry=h_again mode=real reach=again,late toassert=60000
//@bounds two trainings of one network in a row, each with batches of 1..3 of 3 samples and any evaluation batches, with and without deinitialisation or forced reinitialisation in between (data sets not reinitialised may go on with the evaluation batches they have); an evaluation of up to that many samples between the epochs; any order of the samples in the last training
extern "C" void h_again() {
	vs_set_threads(2); Gen::irnd = zeroInt; R lr = vs_num<R>("lr"); vs_assume(lr > 0); layer_input<NI> inp(1); OI out(1, lr); auto lp = make_layers(inp, out); nnet<decltype(lp)> nn(lp); T w = setW(out, 1, "w"); memset(&g, 0, sizeof g); g.lr = lr; g.w = w; g.W = &out.get_weights(); g.out = &out; TD td; mkTd(td, 3, 1); static const bool cond[2] = { true, true }; g.cond = cond; int var = (int)vs_choose("variant", 4); M X((vl)vs_pick("n", 1, var ? 1 : 3), 1, true); sym(X, "px");
	for (int k = 0; k < 2; ++k) { nnet_train_opts<R, Obs> opts((nc)(k ? 1 : 2)); if (var == 2) g.alt = g.fmax; g.batch = vs_pick("batch", 1, 3); g.fmax = vs_pick("fmax", g.batch, 3); opts.batchSize(g.batch).maxFpropSize(g.fmax).noDivergenceCheck(); if (var == 1) opts.ImmediatelyDeinit(true); if (var == 2) opts.bForceReinitTD(false); if (k && var == 3) { nn.require_reinit(); Gen::irnd = chooseInt; } vs_assert(go(nn, td, opts, -1, EC::Success, var == 1 ? nullptr : &X) == EC::Success, "trains"); if (k && g.fmax > 1) vs_reach("late"); }
	g.eval = true; vs_assert(nn.fprop(X) == EC::Success, "inference"); same(out.get_activations(), fwd(A_ID, g.w, tOf(X)), "inference after the training"); vs_reach("again");
}
//@ prop=C30 entry=h_refuse mode=real reach=refused toassert=60000
//@bounds data sets without samples, of the wrong input or output width; initialisation callback or observer that refuse; training batches above the evaluation limit of the data set
extern "C" void h_refuse() {
	vs_set_threads(2); Gen::irnd = zeroInt; int how = (int)vs_choose("how", 5); layer_input<NI> inp(how == 1 ? 2 : 1); OI out(how == 2 ? 2 : 1, 1.); auto lp = make_layers(inp, out); nnet<decltype(lp)> nn(lp); T w = setW(out, how == 1 ? 2 : 1, "w"); memset(&g, 0, sizeof g); g.lr = 1; g.w = w; g.W = &out.get_weights(); g.out = &out; TD td; if (how) mkTd(td, 2, 1); static const bool cond[1] = { true }; g.cond = cond; nnet_train_opts<R, Obs> opts((nc)1); opts.noDivergenceCheck(); opts.batchSize(1); opts.ImmediatelyDeinit(vs_choose("deinit", 2)); g.batch = 1; g.fmax = 2; g.epochs = 1;
	if (how < 3) { EC ec = nn.train<false>(td, opts, [](nc) { vs_assert(false, "nothing is trained"); return true; }, []() { vs_assert(false, "nothing is initialised"); return EC::Success; }); vs_assert(ec == (how == 0 ? EC::InvalidTD : how == 1 ? EC::InvalidInputLayerNeuronsCount : EC::InvalidOutputLayerNeuronsCount) && nn.get_last_error() == ec, "reason"); same(*g.W, g.w, "weights untouched"); vs_assert(g.inits == 0, "observer untouched"); }
	else { g.ic = how == 4; vs_assert(go(nn, td, opts, -1, how == 3 ? EC::PostInitStopFromCallback : EC::Success) == (how == 3 ? EC::PostInitStopFromCallback : EC::CantInitializeObserver), "refused"); g.ic = 0; vs_assert(go(nn, td, opts, -1, EC::Success) == EC::Success, "can be trained afterwards"); }
	vs_reach("refused");
}
//@ prop=C30 entry=h_nan reach=fine,diverged toassert=60000
//@bounds IEEE arithmetic: one training sample whose label is any double including NaN and infinities, so that the loss is anything; divergence check with a threshold of 1e5
extern "C" void h_nan() {
	vs_set_threads(2); Gen::irnd = zeroInt; layer_input<NI> inp(1); OI out(1, 1.); auto lp = make_layers(inp, out); nnet<decltype(lp)> nn(lp); M w(1, 2); E(w, 0, 0) = E(w, 0, 1) = 0; vs_assert(out.set_weights(std::move(w)), "weights accepted"); TD td; smatrix_deform<R> a[4]; for (int i = 0; i < 4; ++i) { if (!(i & 1)) a[i].will_emulate_biases(); vs_assert(a[i].resize_as_dataset(1, 1), "memory"); if (!(i & 1)) a[i].set_biases(); E(a[i], 0, 0) = i == 1 ? vs_f64_any("y") : 1.; } vs_assert(td.absorb(std::move(a[0]), std::move(a[1]), std::move(a[2]), std::move(a[3])), "coherent data");
	nnet_train_opts<R, NanObs> opts((nc)1); opts.divergenceCheckLastEpoch(1).divergenceCheckThreshold(1e5); g.any = true; EC ec = nn.train<false>(td, opts); bool fine = NanObs::loss < 1e5; vs_assert(ec == (fine ? EC::Success : EC::NNDiverged), "stops exactly when the loss is not below the threshold"); if (fine) vs_reach("fine"); else vs_reach("diverged");
}
typedef loss_addendum::L2<R, false, false> Pen; typedef LFC_PA<std::tuple<Pen>, activation::identity<R>, GWk> PL;
static struct { PL* f; OI* out; R s, lr; bool full; int reports; } pa;
struct PaObs : i_training_observer<R> { template<class D, class C> bool init(nc, D&, const C&) { return true; } void deinit() {} template<class D> void on_training_start(const D&, vl, vl, nc) {} void report_results_begin(int, nc) {} template<class Y, class C> void report_results(nc, const M&, const math::smatrix<Y>&, const C&) {} void report_results_end(R) {} void on_training_end(const std::chrono::nanoseconds&) {}
	void on_training_fragment_end(nc, R tr, R te, const std::chrono::nanoseconds&) { ++pa.reports; for (int k = 0; k < 2; ++k) { T a0 = fwd(A_ID, wOf(pa.f->get_weights()), g.x[k]), a1 = fwd(A_ID, wOf(pa.out->get_weights()), a0); R s = 0, q = 0; for (int i = 0; i < a1.r; ++i) { R e = a1[i][0] - g.y[k][i][0]; s += e * e; q += a0[i][0] * a0[i][0]; } s = s / 2; s = s / a1.r; if (pa.full) s = s + pa.s * .5 * q; eqR(k ? te : tr, s, "loss with the penalty on the activations of the same samples"); } } };
//@ prop=C30 entry=h_penalty mode=real reach=penalty toassert=60000
//@bounds a layer of one neuron with an L2 penalty on its activations below a layer of one neuron, any value of a weight, others and the labels fixed; 1..3 training, 1..2 test samples evaluated in one batch; training batches of one sample, 1..2 epochs, the penalty counted or not
extern "C" void h_penalty() {
	vs_set_threads(2); Gen::irnd = zeroInt; g.any = true; R lr = .5; layer_input<NI> inp(1); PL f(1, lr); pa.s = .5; f.template addendum<Pen>().scale(pa.s); OI out(1, lr); auto lp = make_layers(inp, f, out); nnet<decltype(lp)> nn(lp); int foc = (int)vs_choose("focus", 3); M w0(1, 2), w1(1, 2); E(w0, 0, 0) = foc == 0 ? vs_num<R>("w") : .25; E(w0, 0, 1) = foc == 1 ? vs_num<R>("w") : -1.; E(w1, 0, 0) = -.5; E(w1, 0, 1) = foc == 2 ? vs_num<R>("w") : .125; vs_assert(f.set_weights(std::move(w0)) && out.set_weights(std::move(w1)), "weights accepted"); pa.f = &f; pa.out = &out; TD td; vl ntr = vs_pick("train", 1, 3), nte = vs_pick("test", 1, 2); g_fixY = true; mkTd(td, ntr, nte); nc ne = 1;
	nnet_train_opts<R, PaObs> opts(ne, ne); pa.full = vs_choose("full", 2); opts.noDivergenceCheck(); opts.batchSize(1).calcFullLossValue(pa.full); vs_assert(nn.train<false>(td, opts) == EC::Success, "trains"); vs_assert(pa.reports == 2, "reports before and after"); vs_reach("penalty");
}
