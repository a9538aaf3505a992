//@small
// Training data: storage rules, walking, training epochs, (re)initialization, normalization.
#include "kern.h"
#include "blas.h"
#include <nntl/nntl.h>
#include <nntl/train_data/inmem_train_data.h>
#include <nntl/train_data/transf_train_data.h>
typedef inmem_train_data<R, R> TD; typedef inmem_train_data_stor<R, R> ST; typedef smatrix_deform<R> MD; typedef _nnet_errs::ErrorCode EC;
static bool g_any = true;
struct Rng { int operator()(int n) const { vs_assert(n > 0, "a proper limit"); return n == 1 ? 0 : g_any ? (int)vs_choose("rng", (uint64_t)n) : n / 2; } auto operator()(ptrdiff_t n) const { return (*this)((int)n); } };
struct CD { IM& m; vl bs; Rng r; IM& iMath() const { return m; } IM& get_iMath() const { return m; } auto& get_iThreads() const { return m.ithreads(); } vl input_batch_size() const { return bs; } const Rng& iRng() const { return r; } };
// sample s, feature f of a dataset of either layout
static R& S(M& m, vl s, vl f) { return m.bBatchInRow() ? E(m, f, s) : E(m, s, f); }
static const R& S(const M& m, vl s, vl f) { return m.bBatchInRow() ? E(m, f, s) : E(m, s, f); }
static void mk(MD& m, vl n, vl w, bool bias, bool bir, const char* nm, R id) {
	if (bias) m.will_emulate_biases(); else m.dont_emulate_biases(); m.set_batchInRow(bir); vs_assert(m.resize_as_dataset(n, w), "memory"); if (bias) m.set_biases();
	for (vl s = 0; s < n; ++s) for (vl f = 0; f < w; ++f) S(m, s, f) = f ? vs_num<R>(nm) : id + s;
}
struct Data { MD x[2], y[2]; Data(vl ntr, vl nte, vl wx, vl wy, bool bx, bool by) { for (int i = 0; i < 2; ++i) { mk(x[i], i ? nte : ntr, wx, true, bx, "x", i ? 200 : 100); mk(y[i], i ? nte : ntr, wy, false, by, "y", i ? 400 : 300); } } };
// a batch is what was asked for and is made of the samples idx(0..)
template<class F> static void chkBatch(const M* bx, const M* by, const M& x, const M& y, vl n, F idx) {
	if (bx) { vs_assert(bx->batch_size() == n && bx->sample_size() == x.sample_size() && bx->emulatesBiases() && bx->bBatchInRow() == x.bBatchInRow(), "form of the X batch"); for (vl s = 0; s < n; ++s) { for (vl f = 0; f < x.sample_size(); ++f) eqR(S(*bx, s, f), S(x, idx(s), f), "X of the sample"); eqR(S(*bx, s, x.sample_size()), 1, "bias of the sample"); } }
	if (by) { vs_assert(by->batch_size() == n && by->sample_size() == y.sample_size() && !by->emulatesBiases() && by->bBatchInRow() == y.bBatchInRow(), "form of the Y batch"); for (vl s = 0; s < n; ++s) for (vl f = 0; f < y.sample_size(); ++f) eqR(S(*by, s, f), S(y, idx(s), f), "Y of the sample"); }
}
static void walk(TD& td, const CD& cd, int set, vl bs, vl eff, unsigned ex, const Data& d) {
	const M &x = d.x[set], &y = d.y[set]; vl n = x.batch_size(), pos = 0; if (eff > n) eff = n; nc cnt = td.walk_over_set(set, cd, bs, ex); vs_assert(cnt > 0, "something to walk");
	for (nc b = 0; b < cnt; ++b) { td.next_subset(b, cd); vl k = pos + eff <= n ? eff : n - pos; vs_assert(k > 0, "no more batches than samples"); vl p0 = pos; chkBatch(ex == TD::flag_exclude_dataX ? nullptr : &td.batchX(), ex == TD::flag_exclude_dataY ? nullptr : &td.batchY(), x, y, k, [p0](vl s) { return p0 + s; }); pos += k; }
	vs_assert(pos == n, "every sample of the set was returned");
}
static void same(const MD& a, const MD& b, const char* l) { vs_assert(a.rows() == b.rows() && a.cols() == b.cols() && a.bBatchInRow() == b.bBatchInRow() && a.emulatesBiases() == b.emulatesBiases(), l); for (nc i = 0; i < (nc)a.numel(); ++i) eqR(a.begin()[i], b.begin()[i], l); }
static void put(TD& td, const Data& d) { MD a, b, c, e; vs_assert(d.x[0].clone_to(a) && d.y[0].clone_to(b) && d.x[1].clone_to(c) && d.y[1].clone_to(e), "copies"); vs_assert(td.absorb(std::move(a), std::move(b), std::move(c), std::move(e)), "coherent data are accepted"); }
static void still(const TD& td, const Data& d) { for (int i = 0; i < 2; ++i) { same(td.X(i), d.x[i], "X set untouched"); same(td.Y(i), d.y[i], "Y set untouched"); } }
//@ prop=C22 entry=h_walk reach=walked
//@bounds train sets of 1..5 samples, test sets of 1..3, any fprop limit and batch size up to the set size, both layouts for X and Y, both sets, exclusion flags; two walks in a row; features symbolic
extern "C" void h_walk() {
	vs_set_threads(3); IM iM; vl ntr = vs_pick("train", 1, 5), nte = vs_pick("test", 1, 2) * 2 - 1; bool bx = vs_choose("x-layout", 2), by = vs_choose("y-layout", 2); Data d(ntr, nte, 2, bx ? 1 : 2, bx, by); TD td; CD cd{ iM, 1, {} }; put(td, d);
	vl big = ntr > nte ? ntr : nte, mf = vs_pick("max", 0, big), want = mf ? mf : big; vs_assert(td.init4inference(iM, mf) == EC::Success && mf == want, "largest batch"); vl q = 0; vs_assert(td.is_initialized4inference(q) && q == mf, "initialized"); q = mf + 1; vs_assert(!td.is_initialized4inference(q) && q == mf + 1, "not for larger batches");
	int set = (int)vs_choose("set", 2); vl bs = vs_pick("bs", -1, mf); vl eff = bs < 0 ? mf : bs == 0 ? cd.bs : bs; vl q2 = eff; if (!td.is_initialized4inference(q2)) return; vs_assert(q2 == eff, "the size asked for");
	walk(td, cd, set, bs, eff, (unsigned)vs_choose("exclude", 3), d); walk(td, cd, 1 - set, -1, mf, 0, d); still(td, d); vs_reach("walked");
}
static void epoch(TD& td, const CD& cd, nc ep, vl bs, vl eff, const Data& d) {
	vl n = d.x[0].batch_size(); bool seen[8] = {}; nc cnt = td.on_next_epoch(ep, cd, bs); vs_assert(cnt == n / eff, "as many batches as fit");
	for (nc b = 0; b < cnt; ++b) { td.on_next_batch(b, cd); const M &x = td.batchX(), &y = td.batchY(); vs_assert(x.batch_size() == eff && y.batch_size() == eff, "full batches only"); vl ix[8];
		for (vl s = 0; s < eff; ++s) { R v = S(x, s, 0) - 100; int k = 0; for (; k < n; ++k) if (v == k) break; vs_assert(k < n, "a sample of the set"); vs_assert(!seen[k], "no sample twice in an epoch"); seen[k] = true; ix[s] = k; }
		chkBatch(&x, &y, d.x[0], d.y[0], eff, [&ix](vl s) { return ix[s]; }); }
}
//@ prop=C22 entry=h_epoch time=300 reach=epoch
//@bounds train sets of 1..4 samples, test sets of 1 and 5, any training batch size and fprop limit, any outcome of the shuffling, both layouts of X and Y; two epochs with a walk over a set in between; features symbolic
extern "C" void h_epoch() {
	vs_set_threads(3); IM iM; vl ntr = vs_pick("train", 1, 4), nte = vs_choose("test", 2) * 4 + 1; bool bx = vs_choose("x-layout", 2), by = vs_choose("y-layout", 2); Data d(ntr, nte, 2, 2, bx, by); TD td; CD cd{ iM, 1, {} }; put(td, d);
	vl big = ntr > nte ? ntr : nte, mf = vs_choose("mf", 2) ? 0 : vs_pick("max", 1, ntr), mb = vs_pick("batch", 0, ntr); vl wf = mf ? mf : big, wb = mb ? mb : ntr; bool mini = false; auto ec = td.init4train(iM, mf, mb, &mini); if (wb > wf) { vs_assert(ec == EC::InvalidBatchSize2MaxFPropSizeRelation, "training batches do not exceed fprop ones"); return; }
	vs_assert(ec == EC::Success && mf == wf && mb == wb && mini == (wb < ntr), "sizes and mode"); vl bs = vs_pick("bs", -1, mb), eff = bs < 0 ? mb : bs == 0 ? cd.bs : bs; vl f2 = 0, b2 = eff; bool m2 = !mini; if (!td.is_initialized4train(f2, b2, m2)) { vs_assert(f2 == 0 && b2 == eff && m2 == !mini, "the arguments stay on failure"); return; }
	vs_assert(f2 == mf && b2 == eff && m2 == mini, "the mode it is in"); if (eff < ntr) vs_assert(mini, "smaller batches need minibatch mode");
	bool one = ntr > 3; epoch(td, cd, 0, bs, eff, d); int w = (int)vs_choose("walk", 3); if (w) { vl wbs = one ? -1 : vs_choose("wbs", 2) ? -1 : 1, q = wbs < 0 ? mf : wbs; if (td.is_initialized4inference(q)) walk(td, cd, w - 1, wbs, q, 0, d); } if (!one) epoch(td, cd, 1, bs, eff, d); still(td, d); vs_reach("epoch");
}
//@ prop=C22 entry=h_reinit reach=reinit
//@bounds train sets of 2..4 samples, test sets of 1 and 5, any two pairs of initialization sizes; both layouts; one order of the samples
extern "C" void h_reinit() {
	g_any = false; vs_set_threads(3); IM iM; vl ntr = vs_pick("train", 2, 4), nte = vs_choose("test", 2) * 4 + 1; bool bx = vs_choose("layout", 2); Data d(ntr, nte, 2, 1, bx, bx); TD td; CD cd{ iM, 1, {} }; put(td, d); vl q = 0, q1 = 0; bool m = true; vs_assert(!td.is_initialized4inference(q) && q == 0 && !td.is_initialized4train(q, q1, m) && q == 0 && q1 == 0 && m, "not initialized yet");
	vl f = vs_pick("f0", 0, ntr), b = vs_pick("b0", 0, ntr); if ((b ? b : ntr) > (f ? f : 99)) return; vs_assert(td.init4train(iM, f, b, nullptr) == EC::Success, "first initialization"); epoch(td, cd, 0, -1, b, d);
	vl f1 = vs_pick("f1", 0, ntr), b1 = vs_pick("b1", 0, ntr); if ((b1 ? b1 : ntr) > (f1 ? f1 : 99)) return; vl ff = f1, bb = b1; if (!td.is_initialized4train(ff, bb, m)) { vs_assert(ff == f1 && bb == b1, "arguments of a failed query stay"); vs_assert(td.init4train(iM, ff, bb, &m) == EC::Success && ff == (f1 ? f1 : ntr > nte ? ntr : nte) && bb == (b1 ? b1 : ntr) && m == (bb < ntr), "second initialization"); }
	else vs_assert(ff == (f1 ? f1 : f) && bb == (b1 ? b1 : b) && m == (b < ntr), "what it is initialized to"); epoch(td, cd, 0, bb, bb, d); walk(td, cd, 1, ff, ff, 0, d); td.deinit4all(); q = q1 = 0; vs_assert(!td.is_initialized4inference(q) && !td.is_initialized4train(q, q1, m), "deinitialized"); vs_reach("reinit");
}
//@ prop=C22 entry=h_stor reach=accept,refuse
//@bounds sets of 1..2 samples with 1..2 features, every combination of layouts, biases and storage ownership; mismatch in any one size
extern "C" void h_stor() {
	IM* none = nullptr; (void)none; MD x[2], y[2]; vl n[4], w[4]; bool bir[4], bias[4]; MD* p[4] = { x, x + 1, y, y + 1 }; int bad = (int)vs_choose("defect", 13); bool bx = vs_choose("x-layout", 2), by = vs_choose("y-layout", 2); vl ntr = vs_pick("train", 1, 2), nte = vs_pick("test", 1, 2), wx = vs_pick("wx", 1, 2), wy = vs_pick("wy", 1, 2);
	for (int i = 0; i < 4; ++i) { n[i] = i & 1 ? nte : ntr; w[i] = i < 2 ? wx : wy; bir[i] = i < 2 ? bx : by; bias[i] = i < 2; }
	if (bad >= 1 && bad <= 4) n[bad - 1] += 1; if (bad >= 5 && bad <= 8) w[bad - 5] += 1; if (bad >= 9) bias[bad - 9] = !bias[bad - 9]; 
	for (int i = 0; i < 4; ++i) mk(*p[i], n[i], w[i], bias[i], bir[i], "v", 10 * i); Cp c0(x[0]), c1(x[1]), c2(y[0]), c3(y[1]); Cp* cp[4] = { &c0, &c1, &c2, &c3 };
	ST st; bool ok = st.absorb(std::move(x[0]), std::move(y[0]), std::move(x[1]), std::move(y[1])); vs_assert(ok == (bad == 0), "accepted if and only if the sets fit together"); vs_assert(st.empty() == !ok, "empty until something is accepted"); if (!ok) { for (int i = 0; i < 4; ++i) { vs_assert(p[i]->batch_size() == n[i], "refused data stay with the caller"); for (nc k = 0; k < (nc)p[i]->numel(); ++k) eqR(p[i]->begin()[k], cp[i]->v[k], "refused data stay"); } vs_reach("refuse"); return; }
	for (int i = 0; i < 4; ++i) { vs_assert(p[i]->empty(), "moved"); const MD& m = i < 2 ? st.X(i) : st.Y(i - 2); for (nc k = 0; k < (nc)m.numel(); ++k) eqR(m.begin()[k], cp[i]->v[k], "stored data"); }
	ST o; int op = (int)vs_choose("op", 6); auto has = [&](const ST& s, bool tr) { for (int i = 0; i < 4; ++i) { const MD& m = i < 2 ? s.X(i) : s.Y(i - 2); bool br = bir[i] != tr; vs_assert(m.batch_size() == n[i] && m.sample_size() == w[i] && m.bBatchInRow() == br && m.emulatesBiases() == (i < 2), "form"); for (vl s2 = 0; s2 < n[i]; ++s2) for (vl f = 0; f < w[i] + (i < 2); ++f) eqR(S(m, s2, f), bir[i] ? cp[i]->v[s2 * (w[i] + (i < 2)) + f] : cp[i]->v[f * n[i] + s2], "contents"); } };
	if (op == 0) { vs_assert(st.dupe(o), "duplicate"); has(o, false); has(st, false); vs_assert(o == st, "equal"); S(o.train_y_mutable(), 0, 0) = -1; vs_assert(!(o == st), "independent"); has(st, false); }
	else if (op == 1) { o = std::move(st); has(o, false); vs_assert(st.empty(), "moved"); } else if (op == 2) { st.transpose<IM>(); has(st, true); vs_assert(st.dupe(o), "transposed data are still coherent"); has(o, true); st.transpose<IM>(); has(st, false); }
	else if (op == 3) { MD a, b, c, d; st.extract(a, b, c, d); vs_assert(st.empty() && a.batch_size() == ntr && d.batch_size() == nte, "extracted"); vs_assert(st.absorb(std::move(a), std::move(b), std::move(c), std::move(d)), "and back"); has(st, false); }
	else if (op == 4) { bool nby = vs_choose("new-layout", 2); int bd = (int)vs_choose("bad", 5); MD a, b; vl nw = vs_pick("new-width", 1, 2); mk(a, ntr + (bd == 1), nw, bd == 4, nby, "na", 50); mk(b, nte + (bd == 2), nw + (bd == 3), false, nby, "nb", 60); Cp ca(a), cb(b); bool r = st.replace_Y(std::move(a), std::move(b)); vs_assert(r == (bd == 0), "labels are replaced if and only if they fit"); if (!r) has(st, false); else { vs_assert(st.train_y().sample_size() == nw && st.train_y().batch_size() == ntr && st.test_y().batch_size() == nte, "new labels"); for (size_t i = 0; i < ca.n; ++i) eqR(st.train_y().begin()[i], ca.v[i], "new labels"); for (size_t i = 0; i < cb.n; ++i) eqR(st.test_y().begin()[i], cb.v[i], "new labels"); } }
	else { st.clear(); vs_assert(st.empty(), "cleared"); } vs_reach("accept");
}
// a transformer that makes K samples of every stored one and records what it was asked for
struct Trf : public _i_td_transformer<R, R> {
	vl K, initBs = 0, bb = 0, ofs = -1, cnt = 0; bool live = false; x_mtxdef_t bx; y_mtxdef_t by; const vl* pIdx = nullptr; vl idx[8]; unsigned ex = 0; int ds = -1;
	Trf(vl k) : K(k) {} vl samplesInBaseSample() const { return K; } vl xWidth(const_TD_stor_t& t) const { return t.train_x().sample_size(); } vl yWidth(const_TD_stor_t& t) const { return t.train_y().sample_size(); } numel_cnt_t base_dataset_samples_count(const_TD_stor_t& t, data_set_id_t i) const { return t.X(i).batch_size(); }
	void deinit() { live = false; bx.clear(); by.clear(); } template<class T> bool init(T&, const_TD_stor_t& t, vl n) { vs_assert(!live, "deinitialized first"); live = true; initBs = n; bx.will_emulate_biases(); return bx.resize_as_dataset(n * K, xWidth(t)) && by.resize_as_dataset(n * K, yWidth(t)); }
	template<class C> void next_epoch(const_TD_stor_t& t, numel_cnt_t, const C&, vl n, x_mtx_t** px, y_mtx_t** py) { vs_assert(live && n > 0 && n <= initBs, "batch fits"); bx.deform_batch_size_with_biases(n * K); by.deform_batch_size(n * K); *px = &bx; *py = &by; bb = n; }
	template<class C> void next_batch(const_TD_stor_t& t, numel_cnt_t, const C&, const vl* p, vl n) { vs_assert(n == bb, "the epoch's batch size"); for (vl i = 0; i < n; ++i) { idx[i] = p[i]; fill(t.X(0), t.Y(0), p[i], i); } }
	template<class C> void walk(const_TD_stor_t& t, data_set_id_t, const C& c, vl n, unsigned e, x_mtx_t** px, y_mtx_t** py) { next_epoch(t, 0, c, n, px, py); ex = e; if (exclude_dataX(e)) *px = nullptr; if (exclude_dataY(e)) *py = nullptr; }
	template<class C> void walk_next(const_TD_stor_t& t, data_set_id_t d, numel_cnt_t, const C&, vl n, vl o, unsigned e) { vs_assert(n > 0 && n <= bb && e == ex && o >= 0 && o + n <= t.X(d).batch_size(), "a part of the set"); ds = d; ofs = o; cnt = n; bx.deform_batch_size_with_biases(n * K); by.deform_batch_size(n * K); for (vl i = 0; i < n; ++i) fill(t.X(d), t.Y(d), o + i, i); }
	void fill(const M& x, const M& y, vl s, vl i) { for (vl k = 0; k < K; ++k) { for (vl f = 0; f < x.sample_size(); ++f) S(bx, i * K + k, f) = S(x, s, f); for (vl f = 0; f < y.sample_size(); ++f) S(by, i * K + k, f) = S(y, s, f); } }
};
typedef transf_train_data<Trf> TT;
static void ttWalk(TT& tt, Trf& f, const CD& cd, const Data& d, int set, vl bs, vl eff, unsigned ex) {
	vl n = d.x[set].batch_size(), pos = 0, K = f.K; if (eff > n * K) eff = n * K; nc cnt = tt.walk_over_set(set, cd, bs, ex);
	for (nc b = 0; b < cnt; ++b) { tt.next_subset(b, cd); vl k = pos + eff / K <= n ? eff / K : n - pos; vs_assert(f.ds == set && f.ofs == pos && f.cnt == k, "the next part of the set"); vl p0 = pos; chkBatch(ex == TT::flag_exclude_dataX ? nullptr : &tt.batchX(), ex == TT::flag_exclude_dataY ? nullptr : &tt.batchY(), d.x[set], d.y[set], k * K, [p0, K](vl s) { return p0 + s / K; }); pos += k; }
	vs_assert(pos == n, "every stored sample was offered");
}
//@ prop=C22 entry=h_transf time=300 reach=transf
//@bounds 1..4 training and 1, 3 test samples, one or two derived samples per stored one, any batch and fprop sizes, any outcome of the shuffling; epoch, walk over both sets, exclusion flags, second initialization
extern "C" void h_transf() {
	vs_set_threads(3); IM iM; vl ntr = vs_pick("train", 1, 4), nte = vs_choose("test", 2) * 2 + 1; Data d(ntr, nte, 2, 2, false, false); TD td; put(td, d); vl K = vs_pick("derived", 1, 2); Trf f(K); TT tt(f, td); CD cd{ iM, K, {} }; vl big = ntr > nte ? ntr : nte, q = 0, q1 = 0; bool m = false; vs_assert(!tt.is_initialized4inference(q) && !tt.is_initialized4train(q, q1, m), "not initialized yet"); vs_assert(tt.dataset_samples_count(0) == K * ntr && tt.dataset_samples_count(1) == K * nte && tt.trainset_samples_count() == K * ntr && tt.testset_samples_count() == K * nte, "sizes of the derived sets");
	int part = (int)vs_choose("part", 4); g_any = part == 0; if (part == 0 && ntr == 4 && nte == 3) return; vl mf = vs_pick("max", 0, ntr) * K, mb = vs_pick("batch", 0, ntr) * K, wf = mf ? mf : big * K, wb = mb ? mb : ntr * K; auto ec = tt.init4train(iM, mf, mb, &m); if (wb > wf) { vs_assert(ec == EC::InvalidBatchSize2MaxFPropSizeRelation, "training batches do not exceed fprop ones"); return; } vs_assert(ec == EC::Success && mf == wf && mb == wb && m == (wb < ntr * K), "sizes and mode");
	if (part == 3) { if (K > 1) { vl bad = 1; vs_assert(tt.init4inference(iM, bad) != EC::Success && bad == 1, "sizes are multiples of the derived count"); } q = 0; q1 = ntr * K + 1; m = false; vs_assert(!tt.is_initialized4train(q, q1, m) && q == 0 && q1 == ntr * K + 1 && !m, "arguments of a failed query stay"); return; }
	if (part < 2) { vl bs = vs_choose("default", 2) ? -1 : vs_pick("bs", 0, mb / K) * K, eff = bs < 0 ? mb : bs == 0 ? cd.bs : bs; bool seen[8] = {}; nc cnt = tt.on_next_epoch(0, cd, bs); vs_assert(cnt == ntr * K / eff, "as many batches as fit"); for (nc b = 0; b < cnt; ++b) { tt.on_next_batch(b, cd); for (vl i = 0; i < eff / K; ++i) { vl s = f.idx[i]; vs_assert(s >= 0 && s < ntr && !seen[s], "every stored sample at most once in an epoch"); seen[s] = true; } chkBatch(&tt.batchX(), &tt.batchY(), d.x[0], d.y[0], eff, [&f, K](vl s) { return f.idx[s / K]; }); } if (part == 0) { vs_reach("transf"); return; } }
	vl bs = vs_pick("wbs", -1, mf / K) * K; if (bs < 0) bs = -1; ttWalk(tt, f, cd, d, (int)vs_choose("set", 2), bs, bs < 0 ? mf : bs == 0 ? cd.bs : bs, (unsigned)vs_choose("exclude", 3)); vl i2 = 0; vs_assert(tt.init4inference(iM, i2) == EC::Success && i2 == big * K, "reinitialization"); ttWalk(tt, f, cd, d, 1, -1, i2, 0); still(td, d); vs_reach("transf");
}
// ------------------------------------------------------------------------------------------------ C23: normalization
namespace mn = utils::mtx2Normal;
static R g_sc[8], g_ce[8]; static bool g_sp[8]; static int g_n; static bool g_few;
// statistics are any numbers whatsoever; what is done with them is the real thing
struct SymStats : public mn::_FNorm_stats_var_mean_base {
	template<class A> static R get_scale(const A& a, bool& sp) { vs_assert(g_n < 8, "no more statistics than tries"); R v = vs_num<R>("scale"); sp = g_sp[g_n] = g_few && (g_n == 0 || g_n == 3) ? false : vs_choose("special", 2); if (sp) v = 0; else vs_assume(v > 0); g_sc[g_n] = v; return v; }
	template<class A> static R get_central(const A& a) { R v = vs_num<R>("central"); g_ce[g_n++] = v; return v; }
};
struct Aff { R s = 1, o = 0; bool any = false, ok = false; };
static R ab(R x) { return x < 0 ? -x : x; }
template<class T> static void setts(T& st) { st.targetScale = vs_num<R>("target scale"); st.targetCentral = vs_num<R>("target central"); vs_assume(st.targetScale > 0); st.maxTries = vs_pick("tries", 1, 2); st.bScaleNormalize = vs_choose("scale?", 2); st.bCentralNormalize = vs_choose("central?", 2); st.bVerbose = false; st.bSayIfScaleSpecial = false; }
// what one try does to a column (or to everything), given the statistics number k
template<class T> static void step(Aff& a, const T& st, int k) {
	R sc = g_sc[k], ce = g_ce[k]; bool ds = st.bScaleNormalize && !g_sp[k] && !(ab(sc - st.targetScale) < st.ScaleTolerance), dc = st.bCentralNormalize && !(ab(ce - st.targetCentral) < st.CentralTolerance);
	if (!ds && !dc) { a.ok = true; return; } R m = ds ? st.targetScale / sc : 1.; a.s *= m; a.o *= m; if (dc) a.o += (st.targetCentral - ce) * m; a.any = true;
}
static void raw(Data& d) { for (int i = 0; i < 2; ++i) for (vl s = 0; s < d.x[i].batch_size(); ++s) S(d.x[i], s, 0) = vs_num<R>("x0"); }
static void rest(const TD& td, const Data& d) { for (int i = 0; i < 2; ++i) { same(td.Y(i), d.y[i], "labels untouched"); for (vl s = 0; s < d.x[i].batch_size(); ++s) eqR(S(td.X(i), s, d.x[i].sample_size()), 1, "biases untouched"); } }
//@ prop=C23 entry=h_whole mode=real reach=done,gave-up
//@bounds 2 training and 1 test samples of 1..2 features, up to 2 tries, any sequence of statistics including zero scale, any targets, scale and offset normalization on and off
extern "C" void h_whole() {
	vs_set_threads(3); IM iM; Data d(2, 1, vs_pick("w", 1, 2), 1, false, false); raw(d); TD td; put(td, d); CD cd{ iM, 1, {} }; TDNormSettings<R, R> st; setts(st); st.batchSize = vs_choose("walk", 2) ? -1 : 1; st.bColumnwise = false; vl W = d.x[0].sample_size();
	g_n = 0; bool r = td.normalize_data<R, CD, SymStats>(cd, st); int tries = g_n; Aff a; bool none = !(st.bScaleNormalize || st.bCentralNormalize);
	for (int t = 0; t < tries && !a.ok; ++t) { step(a, st, t); if (a.ok) vs_assert(t == tries - 1, "stops when the statistics are right"); }
	if (none) vs_assert(r && tries == 0, "nothing to do"); else if (!a.ok) { vs_assert(!r && tries == (int)st.maxTries, "gives up after the allowed number of tries"); vs_reach("gave-up"); } else if (a.any) vs_assert(r, "done");
	for (vl s = 0; s < 2; ++s) for (vl f = 0; f < W; ++f) eqR(S(td.X(0), s, f), a.s * S(d.x[0], s, f) + a.o, "training set"); R ts = r ? a.s : 1, to = r ? a.o : 0; for (vl f = 0; f < W; ++f) eqR(S(td.X(1), 0, f), ts * S(d.x[1], 0, f) + to, "test set gets the same map"); rest(td, d); if (r && a.any) vs_reach("done");
}
//@ prop=C23 entry=h_cw mode=real reach=done,gave-up
//@bounds 2 training and 1 test samples of 1..2 features, up to 2 tries, any sequence of statistics of the columns including zero scale, any targets, scale and offset normalization on and off
extern "C" void h_cw() {
	vs_set_threads(3); IM iM; Data d(2, 1, vs_pick("w", 1, 2), 1, false, false); raw(d); TD td; put(td, d); CD cd{ iM, 1, {} }; TDNormSettings<R, R> st; setts(st); st.batchSize = vs_choose("walk", 2) ? -1 : 1; st.bColumnwise = true; vl W = d.x[0].sample_size(); g_few = W > 1 && st.maxTries > 1; if (g_few && st.batchSize == 1) return;
	g_n = 0; bool r = td.normalize_data<R, CD, SymStats>(cd, st); int tries = g_n / W; Aff a[2]; bool none = !(st.bScaleNormalize || st.bCentralNormalize), ok = false, any = false;
	for (int t = 0; t < tries; ++t) { vs_assert(!ok, "stops when the statistics are right"); ok = true; for (vl c = 0; c < W; ++c) { if (!a[c].ok) step(a[c], st, t * W + c); ok = ok && a[c].ok; any = any || a[c].any; } }
	if (none) vs_assert(r && tries == 0, "nothing to do"); else if (!ok) { vs_assert(!r && tries == (int)st.maxTries, "gives up after the allowed number of tries"); vs_reach("gave-up"); } else if (any) vs_assert(r, "done");
	for (vl f = 0; f < W; ++f) { for (vl s = 0; s < 2; ++s) eqR(S(td.X(0), s, f), a[f].s * S(d.x[0], s, f) + a[f].o, "training set, column by column"); eqR(S(td.X(1), 0, f), (r ? a[f].s : 1) * S(d.x[1], 0, f) + (r ? a[f].o : 0), "test set gets the same map"); } rest(td, d); if (r && any) vs_reach("done");
}
//@ prop=C23 entry=h_lazy mode=real reach=lazy
//@bounds transformed data: 2 training and 1 test samples of 1..2 features, one derived sample each, up to 2 tries, any statistics, whole-set and column-wise
extern "C" void h_lazy() {
	vs_set_threads(3); IM iM; Data d(2, 1, vs_pick("w", 1, 2), 1, false, false); raw(d); TD td; put(td, d); CD cd{ iM, 1, {} }; Trf f(1); typedef transf_train_data<Trf, SymStats> T2; T2 tt(f, td); TDNormSettings<R, R> st; setts(st); st.bColumnwise = vs_choose("columnwise", 2); st.batchSize = -1; vl W = d.x[0].sample_size(); if (!st.bScaleNormalize && !st.bCentralNormalize) return; if (W > 1 && st.maxTries > 1 && st.bColumnwise) return;
	int per = st.bColumnwise ? (int)W : 1; g_n = 0; bool r = tt.normalize_data<R>(cd, st); int tries = g_n / per; Aff a[2]; bool any = false; for (int t = 0; t < tries; ++t) for (int c = 0; c < per; ++c) { if (!a[c].ok) step(a[c], st, t * per + c); any = any || a[c].any; } if (per == 1) a[1] = a[0]; if (!r) return; still(td, d);
	vl mf = 0, mb = vs_pick("batch", 1, 2); vs_assert(tt.init4train(iM, mf, mb, nullptr) == EC::Success, "init"); int set = (int)vs_choose("set", 3); if (set < 2) { tt.walk_over_set(set, cd, -1); tt.next_subset(0, cd); } else { tt.on_next_epoch(0, cd, mb); tt.on_next_batch(0, cd); }
	const M& b = tt.batchX(); const M& x = d.x[set == 1]; for (vl s = 0; s < b.batch_size(); ++s) { vl q = set < 2 ? s : f.idx[s]; for (vl k = 0; k < W; ++k) eqR(S(b, s, k), a[k].s * S(x, q, k) + a[k].o, "batches are normalized on the fly"); eqR(S(b, s, W), 1, "biases untouched"); } still(td, d); vs_reach("lazy");
}
//@ prop=C23 entry=h_stat mode=real reach=stat
//@bounds 2, 3, 5 samples (2 features with 2 samples), any values, batches of 1, 2 and 5: mean and (un)biased standard deviation gathered batch by batch, whole set and per column
struct Rec { int n; R sc[2], ce[2]; bool sp[2]; vl cols; const M* m; vl bs; M part; };
template<bool B> struct FW : public mn::_FNorm_whole_base<FW<B>, R, mn::_FNorm_stats_var_mean<B>, R> { Rec* c; FW(Rec* p) : c(p) {} numel_cnt_t prepareToWalk() { return (c->m->rows() + c->bs - 1) / c->bs; } const M* walk(numel_cnt_t b) { vl o = (vl)b * c->bs, k = c->m->rows() - o < c->bs ? c->m->rows() - o : c->bs; c->part.clear(); c->part.will_emulate_biases(); c->part.resize(k, c->cols); for (vl i = 0; i < k; ++i) for (vl j = 0; j < c->cols; ++j) E(c->part, i, j) = E(*c->m, o + i, j); return &c->part; } void normalize_whole(R s, R k, bool, bool) { c->sc[0] = s; c->ce[0] = k; ++c->n; } };
template<bool B> struct FC : public mn::_FNorm_cw_base<FC<B>, R, mn::_FNorm_stats_var_mean<B>, R> { Rec* c; IM& im; FC(Rec* p, IM& i) : c(p), im(i) {} numel_cnt_t prepareToWalk() { return (c->m->rows() + c->bs - 1) / c->bs; } const M* walk(numel_cnt_t b) { FW<B> w(c); return w.walk(b); } vl total_cols() const { return c->cols; } template<class...A> void iThreads_run(A&&...a) { im.ithreads().run(std::forward<A>(a)...); } void normalize_cw(vl k, R s, R e, bool, bool) { c->sc[k] = s; c->ce[k] = e; ++c->n; } };
template<bool B> static void stat(IM& iM, M& x, bool cw, vl bs) {
	Rec rec; rec.n = 0; rec.m = &x; rec.cols = x.cols(); rec.bs = bs; for (int i = 0; i < 2; ++i) rec.sc[i] = rec.ce[i] = 0; mn::Settings<R, R> st; st.maxTries = 1; st.bVerbose = false; st.bSayIfScaleSpecial = false; st.ScaleTolerance = 0; st.CentralTolerance = 0; st.bOnBadStatsBreak = true; bool r = false; if (cw) { FC<B> f(&rec, iM); r = mn::normalize_cw(st, f); } else { FW<B> f(&rec); r = mn::normalize_whole(st, f); } vs_assert(!r, "zero tolerance is never reached"); int per = cw ? (int)x.cols() : 1; vs_assert(rec.n == per, "statistics were delivered");
	for (int c = 0; c < per; ++c) { R s = 0, q = 0; int n = 0; for (vl j = cw ? c : 0; j < (cw ? c + 1 : x.cols()); ++j) for (vl i = 0; i < x.rows(); ++i) s += E(x, i, j), q += E(x, i, j) * E(x, i, j), ++n; R m = s / n, v = q / n - m * m; if (B) v = v * n / (n - 1); eqR(rec.ce[c], m, "mean"); vs_assert(rec.sc[c] >= 0, "scale is not negative"); eqR(rec.sc[c] * rec.sc[c], v, "standard deviation"); } vs_reach("stat");
}
extern "C" void h_stat() { vs_set_threads(3); IM iM; vl n = vs_pick("n", 2, 4), w = n > 2 ? 1 : vs_pick("w", 1, 2); if (n == 4) n = 5; bool cw = vs_choose("cw", 2), un = vs_choose("unbiased", 2); if (n * w == 4 && !cw && un) return; M x(n, w); sym(x, "x"); vl bs = vs_pick("bs", 1, n); if (bs == 3 || bs == 4) return; if (un) stat<true>(iM, x, cw, bs); else stat<false>(iM, x, cw, bs); }
//@ prop=C23 entry=h_aff mode=real reach=aff
//@bounds any two maps composed, any argument; matrices 2x2, whole and column-wise application, with and without biases
extern "C" void h_aff() {
	vs_set_threads(3); IM iM; typedef mn::ScaleCentralData<R> SC; R s0 = vs_num<R>("s0"), o0 = vs_num<R>("o0"), s1 = vs_num<R>("s1"), o1 = vs_num<R>("o1"); int f0 = (int)vs_choose("f0", 4), f1 = (int)vs_choose("f1", 4); SC a; vs_assert(!a.bScale && !a.bOffset && a.sc == 1 && a.ofs == 0, "identity"); if (f0 & 1) a._upd_scale(s0); if (f0 & 2) a._upd_ofs(o0); R S = f0 & 1 ? s0 : 1, O = f0 & 2 ? o0 : 0; bool bS = f0 & 1, bO = f0 & 2; int how = (int)vs_choose("how", 4); if (how == 3 && f1 != 3) return; if (how == 0) { if (f1 & 1) a._upd_scale(s1); if (f1 & 2) a._upd_ofs(o1); } else if (how == 1) a._upd_all_typed(SC(s1, o1, f1 & 1, f1 & 2)); else if (how == 2) a._upd_all_typed<R>(s1, o1, f1 & 1, f1 & 2); else a._upd_both(s1, o1); R S2 = f1 & 1 ? s1 : 1, O2 = f1 & 2 ? o1 : 0;
	eqR(a.sc, S * S2, "scales multiply"); eqR(a.ofs, O * S2 + O2, "offset of the composition"); vs_assert(a.bScale == (bS || (f1 & 1)) && a.bOffset == (bO || (f1 & 2)), "what is present"); 
	M m(2, 2, vs_choose("bias", 2)); sym(m, "m"); Cp c(m); SC w = a; if (vs_choose("cw", 2)) { std::vector<SC> v(2); v[1] = w; mn::upd_mtx_scale_central::batchwise(iM, m, v); for (vl i = 0; i < 2; ++i) { eqR(E(m, i, 0), c(i, 0), "column with the identity"); eqR(E(m, i, 1), (w.bScale ? w.sc : 1) * c(i, 1) + (w.bOffset ? w.ofs : 0), "column"); } } else { mn::upd_mtx_scale_central::whole(iM, m, w); for (vl j = 0; j < 2; ++j) for (vl i = 0; i < 2; ++i) eqR(E(m, i, j), (w.bScale ? w.sc : 1) * c(i, j) + (w.bOffset ? w.ofs : 0), "everything"); } if (m.cols() > 2) for (vl i = 0; i < 2; ++i) eqR(E(m, i, 2), 1, "biases"); a.reset(); vs_assert(!a.bScale && !a.bOffset && a.sc == 1 && a.ofs == 0, "identity again"); vs_reach("aff");
}
