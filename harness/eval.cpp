//@small
//@strings
// Evaluators and the reporting observer: how many predictions are right, on which data set, over any batches.
#define NET_RNG
#include "netref.h"
#include <nntl/train_data/inmem_train_data.h>
#include <nntl/training_observer.h>
typedef layer_output<activation::identity_quad_loss<R>, GWk> OI; typedef _nnet_errs::ErrorCode EC;
static struct { T x[2], y[2]; M* W; R thr; int reports, cls; bool sub, bin, third, done; vl batch, fmax; } g;
struct TD final : _inmem_train_data<TD, R, R> { data_set_id_t datasets_count() const noexcept { return g.third ? 3 : 2; } }; // a third set is known to the observer only
static int chooseInt(int lo, int hi) { return lo + (int)vs_choose("rng", (uint64_t)(hi - lo + 1)); }
static int best(const T& t, int i) { int b = 0; for (int j = 1; j < t.c; ++j) if (t[i][j] > t[i][b]) b = j; return b; }
static nc rightOf(const T& a, const T& y) { nc n = 0; for (int i = 0; i < a.r; ++i) if (g.bin) { for (int j = 0; j < a.c; ++j) n += (a[i][j] > g.thr) == (y[i][j] > g.thr); } else n += best(a, i) == best(y, i); return n; }
static void toM(M& m, const T& t, int from, int k) { vs_assert(m.resize((vl)k, (vl)t.c), "memory"); for (int i = 0; i < k; ++i) for (int j = 0; j < t.c; ++j) E(m, i, j) = t[from + i][j]; }
static T symT(int r, int c, const char* n) { T t(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) t[i][j] = vs_num<R>(n); return t; }
template<class Ev> struct Obs : training_observer_stdcout<R, Ev> { typedef training_observer_stdcout<R, Ev> B;
	template<class D, class C> bool init(nc epochs, D& td, const C& cd) { setThr(this->m_evaluator, 0); g.third = g.sub && vs_choose("third", 2); vs_assert(B::init(epochs, td, cd), "observer initialises"); if (g.sub) { if (g.third) extra(cd); else direct(td, cd); } g.third = false; return !g.sub; }
	static void setThr(eval_classification_binary_cached<R>& e, int) { e.set_threshold(g.thr); vs_assert(e.threshold() == g.thr, "threshold is kept"); } template<class X> static void setThr(X&, long) {}
	template<class C> void extra(const C& cd) { int n = vs_pick("n", 1, 3), bs = vs_pick("bs", 1, (int)g.fmax), pos = 0, k; T A = symT(n, 2, "a"), y = symT(n, 2, "l"); this->report_results_begin(2, (n + bs - 1) / bs); for (nc b = 0; pos < n; pos += k, ++b) { k = n - pos < bs ? n - pos : bs; M a, t; toM(a, A, pos, k); toM(t, y, pos, k); T a0 = tOf(a), t0 = tOf(t); this->report_results(b, a, t, cd); same(a, a0, "predictions are not changed"); same(t, t0, "labels are not changed"); } vs_assert(this->m_classifRes[2].totalElements == (nc)n * (g.bin ? 2 : 1), "everything is counted"); vs_assert(this->m_classifRes[2].correctlyClassif == rightOf(A, y), "right predictions of a further set are counted"); vs_reach("third"); }
	template<class D, class C> void direct(D& td, const C& cd) { auto& iM = cd.iMath(); static const int ORD[4][2] = { { 0, 1 }, { 1, 0 }, { 0, 0 }, { 1, 1 } }; int o = (int)vs_choose("order", 4);
		for (int q = 0; q < 2; ++q) { int set = ORD[o][q]; const T& y = g.y[set]; int bs = vs_pick("bs", 1, (int)g.fmax), pos = 0, k; nc sum = 0, all = 0; T A = q ? g.y[set] : symT(y.r, y.c, "a"); if (q) A[0][0] = vs_num<R>("a"); this->report_results_begin(set, (y.r + bs - 1) / bs); bool part = q == 0 && vs_choose("abandoned", 2); // a walk may be given up
			for (nc b = 0; pos < y.r; pos += k, ++b) { k = y.r - pos < bs ? y.r - pos : bs; M a, t; toM(a, A, pos, k); toM(t, y, pos, k); T a0 = tOf(a); this->report_results(b, a, t, cd); same(a, a0, "predictions are not changed"); if (part) break; }
			if (part) continue; this->report_results_end(0); all = (nc)y.r * (g.bin ? y.c : 1); sum = rightOf(A, y); vs_assert(this->m_classifRes[set].totalElements == all, "everything is counted"); vs_assert(this->m_classifRes[set].correctlyClassif == sum, "right predictions are counted"); g.done = true; } }
	template<class D> void on_training_start(const D&, vl, vl, nc) {} void on_training_end(const std::chrono::nanoseconds&) {}
	void on_training_fragment_end(nc ep, R tr, R te, const std::chrono::nanoseconds& t) { T w = wOf(*g.W); for (int s = 0; s < 2; ++s) { T a = fwd(A_ID, w, g.x[s]); vs_assert(this->m_classifRes[s].totalElements == (nc)a.r * (g.bin ? a.c : 1), "the whole set is counted"); vs_assert(this->m_classifRes[s].correctlyClassif == rightOf(a, g.y[s]), "right predictions of the network in force"); } B::on_training_fragment_end(ep, tr, te, t); vs_assert(this->m_lastTrainErr == tr && this->m_lastTestErr == te, "losses are kept"); ++g.reports; if (ep < 0) { symW(*g.W, "w"); } } };
static void mkTd(TD& td, vl ntr, vl nte, int yw, bool symY) { smatrix_deform<R> a[4]; for (int i = 0; i < 2; ++i) { vl n = i ? nte : ntr; a[2 * i].will_emulate_biases(); vs_assert(a[2 * i].resize_as_dataset(n, 1) && a[2 * i + 1].resize_as_dataset(n, (vl)yw), "memory"); a[2 * i].set_biases(); for (vl s = 0; s < n; ++s) { E(a[2 * i], s, 0) = i ? 1.5 + s : s - 0.5; for (int j = 0; j < yw; ++j) E(a[2 * i + 1], s, j) = symY && (g.bin || !i || !s) ? vs_num<R>("y") : (R)((s + i + j) % 2); } g.x[i] = tOf(a[2 * i]); g.y[i] = tOf(a[2 * i + 1]); } vs_assert(td.absorb(std::move(a[0]), std::move(a[1]), std::move(a[2]), std::move(a[3])), "coherent data"); }
template<class Ev> static void run(bool sub, int yw, vl ntr, vl nte, nc epochs) {
	vs_set_threads(2); Gen::irnd = chooseInt; g.sub = sub; g.reports = 0; g.done = false; layer_input<NI> inp(1); OI out((vl)yw, 0.25); auto lp = make_layers(inp, out); nnet<decltype(lp)> nn(lp); setW(out, 1, "w"); g.W = &out.get_weights(); TD td; mkTd(td, ntr, nte, yw, sub); g.batch = sub ? 1 : (vl)vs_pick("batch", 1, 2); g.fmax = (vl)vs_pick("fmax", (int)g.batch, 3); nnet_train_opts<R, Obs<Ev>> opts(epochs); opts.batchSize(g.batch).maxFpropSize(g.fmax).noDivergenceCheck();
	EC ec = nn.train(td, opts, [](nc) { return true; }); if (sub) vs_assert(ec == EC::CantInitializeObserver, "ends with the observer"); else vs_assert(ec == EC::Success && g.reports == epochs + 1, "every epoch is reported"); }
typedef eval_classification_one_hot_cached<R> E1; typedef eval_classification_binary_cached<R> EB;
//@ prop=C37 entry=h_onehot mode=real reach=done,third
//@bounds 3 training and 2 test samples of 2 classes with any labels (one of the test labels fixed) and predictions; both sets in any order, reset in between or given up after a batch; or a further set of 1..3 samples; batches of 1..3
extern "C" void h_onehot() { auto h0 = vs_heap_live(); g.bin = false; run<E1>(true, 2, 3, 2, 1); if (g.done) vs_reach("done"); (void)h0; }
//@ prop=C37 entry=h_binary mode=real reach=done,third
//@bounds 3 training and 2 test samples of 2 labels, any labels, predictions and threshold; or a further set of 1..3 samples; batches of 1..3
extern "C" void h_binary() { g.bin = true; g.thr = vs_num<R>("thr"); run<EB>(true, 2, 3, 2, 1); if (g.done) vs_reach("done"); }
//@ prop=C37 entry=h_report mode=real reach=trained
//@bounds both evaluators inside nnet::train with the reporting observer: 3 training and 1..2 test samples, 2 outputs, any weights before and after the first report, training batches of 1..2, evaluation batches of 1..3, any shuffle, 1 epoch
extern "C" void h_report() { g.bin = vs_choose("binary", 2); g.thr = 0.25; vl nt = (vl)vs_pick("test", 1, 2); if (g.bin) run<EB>(false, 2, 3, nt, 1); else run<E1>(false, 2, 3, nt, 1); vs_reach("trained"); }
