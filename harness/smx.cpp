// Matrix storage, layout and bias bookkeeping.
#include "vs.h"
#include <nntl/math.h>
#include <nntl/interfaces.h>
using namespace nntl; using namespace nntl::math;
typedef float T; typedef smatrix<T> M; typedef smatrix_deform<T> D; typedef vec_len_t vl;
#define MAXD VS_BOUND(3, 4)
static T* at(M& m, vl r, vl c) { return m.begin() + (size_t)c * (size_t)m.rows() + (size_t)r; }
// the declared shape: data rows x data cols, bias column (or row when samples are columns)
static void shape(M& m, vl r, vl c, bool bias, bool bir, const char*) {
	vl tr = r + (bias && bir), tc = c + (bias && !bir);
	vs_assert(m.rows() == tr && m.cols() == tc, "stored size = data size plus one bias vector iff biases are emulated");
	vs_assert(m.rows_no_bias() == r && m.cols_no_bias() == c, "size without bias is the requested size");
	vs_assert(m.rows(true) == r && m.cols(true) == c && m.rows(false) == tr && m.cols(false) == tc, "rows(b)/cols(b) agree with the bias flag");
	vs_assert(m.numel() == (numel_cnt_t)tr * tc && m.numel_no_bias_sBiR() == (numel_cnt_t)r * c && m.numel_sBiR(true) == (numel_cnt_t)r * c && m.numel_sBiR(false) == (numel_cnt_t)tr * tc, "element counts");
	vs_assert(m.byte_size() == (numel_cnt_t)tr * tc * (numel_cnt_t)sizeof(T), "byte size");
	vs_assert(m.emulatesBiases() == bias && m.bBatchInRow() == bir && m.bBatchInColumn() == !bir && m.bSampleInRow() == !bir && m.bSampleInColumn() == bir, "mode flags");
	vs_assert(m.sample_size() == (bir ? r : c) && m.batch_size() == (bir ? tc : tr), "sample and batch sizes follow the data schema");
	vs_assert(m.has_bias_row() == (bias && bir) && m.has_bias_column() == (bias && !bir), "bias row/column presence");
	vs_assert(m.size().first == tr && m.size().second == tc && m.size_no_bias().first == r && m.size_no_bias().second == c, "size pairs");
	vs_assert(m.transposed_size().first == tc && m.transposed_size().second == tr && m.transposed_size_no_bias().first == c && m.transposed_size_no_bias().second == r, "transposed size pairs");
	vs_assert(m.dataset_size().first == (bir ? c : r) && m.dataset_size().second == (bir ? r : c), "dataset size is (batch, sample)");
	vs_assert(m.ldim() == (ptrdiff_t)tr && m.ldimAsVecLen() == tr, "leading dimension");
	if (!m.empty()) {
		vs_assert(m.end() == m.begin() + (size_t)tr * tc, "end");
		vs_assert(m.end_sBiR(true) == m.begin() + (size_t)r * c && m.end_sBiR(false) == m.end() && m.end_no_bias_sBiR() == m.begin() + (size_t)r * c, "end without bias");
		if (!bir) vs_assert(m.end(true) == m.begin() + (size_t)r * c && m.end(false) == m.end() && m.end_no_bias() == m.begin() + (size_t)r * c && m.numel_no_bias() == (numel_cnt_t)r * c && m.numel(true) == m.numel_no_bias() && m.numel(false) == m.numel() && m.byte_size_no_bias() == (numel_cnt_t)r * c * (numel_cnt_t)sizeof(T), "ranges without bias");
		if (bias && !bir) vs_assert(m.bias_column() == m.begin() + (size_t)r * c, "bias column is the last column");
		for (vl j = 0; j <= m.cols(); ++j) vs_assert(m.colDataAsVec(j) == m.begin() + (size_t)j * m.rows(), "columns are contiguous, in order");
		vs_assert(m._universal_range_BiR_aware(true) == (bias && bir ? (numel_cnt_t)tc : bir ? (numel_cnt_t)tr * tc : (numel_cnt_t)r * c) && m._universal_range_BiR_aware(false) == (numel_cnt_t)tr * tc, "processing range");
	}
}
static void biasOnes(M& m) {
	if (!m.emulatesBiases()) return;
	if (m.bBatchInRow()) for (vl j = 0; j < m.cols(); ++j) vs_assert(*at(m, m.rows() - 1, j) == T(1), "every bias is one"); else for (vl i = 0; i < m.rows(); ++i) vs_assert(*at(m, i, m.cols() - 1) == T(1), "every bias is one");
	vs_assert(!m.hasHoleyBiases(), "fresh biases are not holey"); vs_assert(m.test_biases_ok() && m.test_biases_strict() && m.if_biases_test_strict(), "bias test accepts all-one biases");
}
static void fillSym(M& m, const char* n) { for (vl j = 0; j < m.cols_no_bias(); ++j) for (vl i = 0; i < m.rows_no_bias(); ++i) *at(m, i, j) = vs_num<T>(n); }
struct Snap { T v[64]; vl r, c; bool e, h, b; Snap(const M& m) : r(m.rows()), c(m.cols()), e(m.emulatesBiases()), h(m.empty() ? false : m.hasHoleyBiases()), b(m.bBatchInRow()) { for (size_t i = 0; i < (size_t)r * c; ++i) v[i] = m.begin()[i]; } };
static bool same(T a, T b) { return a == b; }

//@ prop=C01 entry=h_ctor reach=ctor
//@bounds data rows, data columns in 1..3 (1..4 thorough), every combination of bias emulation and batch layout, element type float with symbolic contents
extern "C" void h_ctor() {
	vl r = vs_pick("r", 1, MAXD), c = vs_pick("c", 1, MAXD); bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2); int how = (int)vs_choose("how", 6);
	uint64_t h0 = vs_heap_live();
	{
		M a(r, c, bias, bir); M b(bir, bir ? c : r, bir ? r : c, bias); M d(smatrix_td::mtx_size_t(r, c), bias, bir); M e; 
		if (how == 0) { shape(a, r, c, bias, bir, "ctor"); biasOnes(a); }
		else if (how == 1) { shape(b, r, c, bias, bir, "ctor"); biasOnes(b); }
		else if (how == 2) { shape(d, r, c, bias, bir, "ctor"); biasOnes(d); }
		else if (how == 3) { vs_assert(e.empty() && e.rows() == 0 && e.cols() == 0 && !e.emulatesBiases() && e.bOwnStorage() && !e.bDontManageStorage(), "a default matrix is empty"); bool ok = e.useInternalStorage(r, c, bias, bir); vs_assert(ok, "allocation reported"); shape(e, r, c, bias, bir, "internal"); biasOnes(e); }
		else if (how == 4) { e.emulate_biases(bias); e.set_batchInRow(bir); bool ok = e.resize(r, c); vs_assert(ok && !e.isAllocationFailed(), "resize succeeds"); shape(e, r, c, bias, bir, "resize"); biasOnes(e); }
		else { e.emulate_biases(bias); e.set_batchInRow(bir); bool ok = e.resize_as_dataset(bir ? c : r, bir ? r : c); vs_assert(ok, "resize succeeds"); shape(e, r, c, bias, bir, "dataset"); biasOnes(e); }
		M& m = how == 0 ? a : how == 1 ? b : how == 2 ? d : e;
		// every element has one place: writing one through the API changes that place only
		fillSym(m, "v"); Snap s(m); vl i = vs_int("i", 0, m.rows() - 1), j = vs_int("j", 0, m.cols() - 1); T nv = vs_num<T>("nv");
		const M& cm = m; vs_assert(&cm.get(i, j) == at(m, i, j) && &m.get(i, j) == at(m, i, j) && &m.get(smatrix_td::mtx_coords_t(i, j)) == at(m, i, j), "element address is column-major");
		m.set(i, j, nv);
		for (vl y = 0; y < m.cols(); ++y) for (vl x = 0; x < m.rows(); ++x) vs_assert(same(*at(m, x, y), (x == i && y == j) ? nv : s.v[y * m.rows() + x]), "set changes exactly one element");
		vs_reach("ctor");
	}
	vs_assert(vs_heap_live() == h0, "no storage is leaked");
}
//@ prop=C01 entry=h_resize reach=resize
//@bounds two successive resizes of an owning matrix and a reuse after clear, sizes 1..3, both layouts, with and without biases
extern "C" void h_resize() {
	bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2), deform = vs_choose("deform", 2); uint64_t h0 = vs_heap_live();
	{
		M m0(1, 1, bias, bir); D d0(1, 1, bias, bir); M& m = deform ? (M&)d0 : m0;
		for (int k = 0; k < 2; ++k) {
			vl r = vs_pick("r", 1, MAXD), c = vs_pick("c", 1, MAXD); 
			if (bias) { m.holey_biases(vs_choose("hol", 2)); if (!bir) *m.bias_column() = 0; else *at(m, m.rows() - 1, 0) = 0; }
			bool ok = deform ? d0.resize(r, c) : m0.resize(r, c); vs_assert(ok, "resize succeeds"); shape(m, r, c, bias, bir, "resize"); biasOnes(m); fillSym(m, "v");
		}
		M other(2, 3, bias, bir); bool ok = deform ? d0.resize((const M&)other) : m0.resize(other); vs_assert(ok, "resize like another matrix succeeds"); shape(m, 2, 3, bias, bir, "like"); biasOnes(m);
		if (deform) d0.clear(); else m0.clear();
		vs_assert(m.empty() && m.rows() == 0 && m.cols() == 0 && m.emulatesBiases() == bias && !m.bBatchInRow() && m.bOwnStorage(), "clear frees the data, keeps the bias mode and restores the default layout");
		vs_assert(vs_heap_live() == h0 + (deform ? 1 : 1) + 1, "clear frees exactly the storage");
		ok = m.resize(2, 2); vs_assert(ok, "a cleared matrix can be resized"); shape(m, 2, 2, bias, false, "after clear"); biasOnes(m);
		bool ok2 = m.resize(3, 2, smatrix_td::tag_noBias()); vs_assert(ok2, "no-bias resize"); shape(m, 3, 2, false, false, "nobias");
		vs_reach("resize");
	}
	vs_assert(vs_heap_live() == h0, "no storage is leaked");
}
//@ prop=C01 entry=h_fill reach=fill
//@bounds sizes 1..3, symbolic contents, every filler
extern "C" void h_fill() {
	vl r = vs_pick("r", 1, MAXD), c = vs_pick("c", 1, MAXD); bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2); int op = (int)vs_choose("op", 8);
	M m(r, c, bias, bir); fillSym(m, "v"); Snap s(m); T v = vs_num<T>("x"); vl R = m.rows(), C = m.cols();
	auto isB = [&](vl i, vl j) { return bias && (bir ? i == R - 1 : j == C - 1); };
	if (op == 0) { m.fill(v); for (size_t i = 0; i < (size_t)R * C; ++i) vs_assert(same(m.begin()[i], v), "fill sets every element"); }
	else if (op == 1) { m.zeros(); for (vl j = 0; j < C; ++j) for (vl i = 0; i < R; ++i) vs_assert(*at(m, i, j) == (isB(i, j) ? T(1) : T(0)), "zeros clears the data and keeps the biases"); }
	else if (op == 2) { m.ones(); for (size_t i = 0; i < (size_t)R * C; ++i) vs_assert(m.begin()[i] == T(1), "ones sets every element"); }
	else if (op == 3) { vl k = vs_int("k", 0, C - 1); if (bias && bir) return; m.fill_column_with(k, v); for (vl j = 0; j < C; ++j) for (vl i = 0; i < R; ++i) vs_assert(same(*at(m, i, j), j == k ? v : s.v[j * R + i]), "fill_column touches its column only"); }
	else if (op == 4) { vl k = vs_int("k", 0, R - 1); if (bias && !bir) return; m.fill_row_with(k, v); for (vl j = 0; j < C; ++j) for (vl i = 0; i < R; ++i) vs_assert(same(*at(m, i, j), i == k ? v : s.v[j * R + i]), "fill_row touches its row only"); }
	else if (op == 5) { if (!bias) return; if (bir) *at(m, R - 1, 0) = 0; else *m.bias_column() = 0; m.holey_biases(true); m.set_biases(); biasOnes(m); for (vl j = 0; j < C; ++j) for (vl i = 0; i < R; ++i) if (!isB(i, j)) vs_assert(same(*at(m, i, j), s.v[j * R + i]), "set_biases leaves the data alone"); }
	else if (op == 6) { if (bir) return; T src[16]; for (int i = 0; i < (int)(r * c); ++i) src[i] = vs_num<T>("s"); m.fill_from_array_no_bias(src); for (int i = 0; i < (int)(r * c); ++i) vs_assert(same(m.begin()[i], src[i]), "fill_from_array copies in order"); biasOnes(m); }
	else { if (bir) return; int src[16]; for (int i = 0; i < (int)(r * c); ++i) src[i] = vs_int("s", -1000, 1000); m.fill_from_array_no_bias(src); for (int i = 0; i < (int)(r * c); ++i) vs_assert(m.begin()[i] == (T)src[i], "fill_from_array converts in order"); biasOnes(m); }
	vs_reach("fill");
}
// ------------------------------------------------------------------------------------------------ C02
static void sameAs(M& d, const Snap& s, const char*) {
	vs_assert(d.rows() == s.r && d.cols() == s.c, "copy has the size of the source"); vs_assert(d.emulatesBiases() == s.e, "copy has the bias mode of the source"); vs_assert(d.bBatchInRow() == s.b, "copy has the layout of the source");
	vs_assert(d.hasHoleyBiases() == s.h, "copy has the bias state of the source");
	for (size_t i = 0; i < (size_t)s.r * s.c; ++i) vs_assert(same(d.begin()[i], s.v[i]), "copy has the data of the source");
}
//@ prop=C02 entry=h_clone reach=clone
//@bounds source and destination data sizes 1..2 (1..3 thorough), every bias/layout/holey combination, destination owning or external, symbolic contents
extern "C" void h_clone() {
	vl r = vs_pick("r", 1, VS_BOUND(2, 3)), c = vs_pick("c", 1, VS_BOUND(2, 3)); bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2), hol = bias && vs_choose("hol", 2);
	M src(r, c, bias, bir); fillSym(src, "v"); if (hol) { src.holey_biases(true); if (bir) *at(src, src.rows() - 1, 0) = 0; else *src.bias_column() = 0; }
	Snap s(src); int kind = (int)vs_choose("dest", 4); bool db = vs_choose("dbias", 2), dl = vs_choose("dbir", 2);
	if (kind == 0) { M d; d.emulate_biases(db); d.set_batchInRow(dl); bool ok = src.clone_to(d); vs_assert(ok, "clone into an empty matrix"); sameAs(d, s, "clone"); vs_assert(d.bOwnStorage() && d.begin() != src.begin(), "clone owns its own storage"); vs_assert(d == src && !(d != src), "a clone compares equal"); }
	else if (kind == 1) { M d(vs_pick("dr", 1, 2), vs_pick("dc", 1, 2), db, dl); bool ok = src.clone_to(d); vs_assert(ok, "clone into an owning matrix"); sameAs(d, s, "clone"); }
	else if (kind == 2) { T buf[32]; vl dr = vs_pick("dr", 1, 3), dc = vs_pick("dc", 1, 3); M d(buf, dr, dc, db, false, dl); bool fits = dr == src.rows() && dc == src.cols(); bool ok = src.clone_to(d); vs_assert(ok == fits, "clone into external storage succeeds iff sizes match"); if (ok) { sameAs(d, s, "clone"); vs_assert(d.begin() == buf && d.bDontManageStorage(), "external storage is kept"); } }
	else { D d(2, 1, db, dl); bool ok = d.cloneFrom(src); vs_assert(ok, "cloneFrom"); sameAs(d, s, "clone"); }
	sameAs(src, s, "source unchanged"); vs_reach("clone");
}
//@ prop=C02 entry=h_clone_nb reach=nb
//@bounds as above, samples in rows when biases are emulated (the documented domain)
extern "C" void h_clone_nb() {
	vl r = vs_pick("r", 1, VS_BOUND(2, 3)), c = vs_pick("c", 1, VS_BOUND(2, 3)); bool bias = vs_choose("bias", 2), bir = !bias && vs_choose("bir", 2);
	M src(r, c, bias, bir); fillSym(src, "v"); Snap s(src); int kind = (int)vs_choose("dest", 3); bool db = vs_choose("dbias", 2);
	T buf[32]; M d; bool ok; 
	if (kind == 0) { d.useInternalStorage(vs_pick("dr", 1, 2), vs_pick("dc", 1, 2), db, false); ok = src.clone_to_no_bias(d); vs_assert(ok, "clone without bias into an owning matrix"); }
	else if (kind == 1) { vl dr = vs_pick("dr", 1, 3), dc = vs_pick("dc", 1, 3); d.useExternalStorage(buf, dr, dc, db, false, false); ok = src.clone_to_no_bias(d); vs_assert(ok == (dr == r && dc == c), "clone without bias into external storage succeeds iff sizes match"); }
	else {
		vl dr = vs_pick("dr", 1, 2), dc = vs_pick("dc", 1, 2); d.useInternalStorage(dr, dc, db, false); ok = src.copy_data_skip_bias(d); vs_assert(ok == (dr == r && dc == c), "copy skipping biases succeeds iff data sizes match");
		if (ok) { vs_assert(d.emulatesBiases() == db && d.rows() == r && d.cols() == c + db, "copy skipping biases keeps the destination mode"); for (size_t i = 0; i < (size_t)r * c; ++i) vs_assert(same(d.begin()[i], s.v[i]), "data copied"); for (vl i = 0; db && i < r; ++i) vs_assert(d.bias_column()[i] == T(1), "destination biases kept"); }
		vs_reach("nb"); return;
	}
	if (ok) { vs_assert(d.rows() == r && d.cols() == c && !d.emulatesBiases() && d.bBatchInRow() == bir && d.rows_no_bias() == r && d.cols_no_bias() == c && !d.hasHoleyBiases(), "the clone has exactly the data part of the source"); for (size_t i = 0; i < (size_t)r * c; ++i) vs_assert(same(d.begin()[i], s.v[i]), "data copied"); }
	sameAs(src, s, "source unchanged"); vs_reach("nb");
}
//@ prop=C02 entry=h_copy reach=copy
//@bounds copy_to between every pair of sizes 1..2 x 1..2 and flags
extern "C" void h_copy() {
	vl r = vs_pick("r", 1, 2), c = vs_pick("c", 1, 3); bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2), hol = bias && vs_choose("hol", 2);
	M src(r, c, bias, bir); fillSym(src, "v"); if (hol) src.holey_biases(true); Snap s(src); bool db = vs_choose("dbias", 2), dl = vs_choose("dbir", 2); M d(vs_pick("dr", 1, 3), vs_pick("dc", 1, 2), db, dl); fillSym(d, "w"); Snap t(d);
	bool fits = d.numel() == src.numel() && db == bias; bool ok = src.copy_to(d); vs_assert(ok == fits, "copy succeeds iff element counts and bias modes agree"); if (ok) sameAs(d, s, "copy"); else { for (size_t i = 0; i < (size_t)t.r * t.c; ++i) vs_assert(same(d.begin()[i], t.v[i]) && d.rows() == t.r && d.cols() == t.c, "a refused copy changes nothing"); }
	vs_reach("copy");
}
//@ prop=C02 entry=h_move reach=move
//@bounds sizes 1..2, every flag combination, owning and external sources, construction and assignment, plain and deformable matrices
extern "C" void h_move() {
	uint64_t h0 = vs_heap_live(); bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2), ext = vs_choose("ext", 2), hol = bias && vs_choose("hol", 2); int how = (int)vs_choose("how", 6); vl r = vs_pick("r", 1, 2), c = vs_pick("c", 1, 2); T buf[32];
	{
		D sd(1, 1); M sm(1, 1); bool useD = how >= 3; 
		if (ext) { if (useD) sd.useExternalStorage(buf, r + (bias && bir), c + (bias && !bir), bias, hol, bir); else sm.useExternalStorage(buf, r + (bias && bir), c + (bias && !bir), bias, hol, bir); M& q = useD ? (M&)sd : sm; for (size_t i = 0; i < (size_t)q.numel(); ++i) q.begin()[i] = vs_num<T>("v"); }
		else { bool o1 = (useD ? (M&)sd : sm).useInternalStorage(r, c, bias, bir); vs_assert(o1, "alloc"); fillSym(useD ? (M&)sd : sm, "v"); if (hol) (useD ? (M&)sd : sm).holey_biases(true); }
		M& src = useD ? (M&)sd : sm; Snap s(src); T* p = src.begin(); 
		auto chk = [&](M& d) { sameAs(d, s, "moved"); vs_assert(d.begin() == p && d.bDontManageStorage() == ext, "a move hands over the storage"); vs_assert(src.empty() && src.rows() == 0 && src.cols() == 0, "the moved-from matrix is empty"); };
		if (how == 0) { M d(::std::move(sm)); chk(d); } else if (how == 1) { M d(2, 2, true); d = ::std::move(sm); chk(d); } else if (how == 2) { D d(::std::move(sm)); chk(d); }
		else if (how == 3) { D d(::std::move(sd)); chk(d); } else if (how == 4) { D d(2, 1, true, true); d = ::std::move(sd); chk(d); } else { M d(::std::move((M&)sd)); chk(d); }
		vs_reach("move");
	}
	vs_assert(vs_heap_live() == h0, "storage is freed exactly once");
}
//@ prop=C02 entry=h_equal reach=equal
//@bounds two matrices of up to 2x2 with symbolic contents that are not NaN and no signed zeros
extern "C" void h_equal() {
	bool b1 = vs_choose("b1", 2), b2 = vs_choose("b2", 2), l1 = vs_choose("l1", 2), l2 = vs_choose("l2", 2); M a(vs_pick("r1", 1, 2), vs_pick("c1", 1, 2), b1, l1), b(vs_pick("r2", 1, 2), vs_pick("c2", 1, 2), b2, l2); 
	auto fl = [](M& m, const char* n) { for (vl j = 0; j < m.cols_no_bias(); ++j) for (vl i = 0; i < m.rows_no_bias(); ++i) { T v = vs_num<T>(n); vs_assume(v != 0); *at(m, i, j) = v; } }; fl(a, "a"); fl(b, "b");
	bool eq = b1 == b2 && l1 == l2 && a.rows() == b.rows() && a.cols() == b.cols(); if (eq) for (size_t i = 0; i < (size_t)a.numel(); ++i) eq = eq & (a.begin()[i] == b.begin()[i]);
	vs_assert((a == b) == eq && (a != b) == !eq, "matrices are equal iff shape, mode and all elements are"); vs_reach("equal");
}
// ------------------------------------------------------------------------------------------------ C03
//@ prop=C03 entry=h_external reach=ext
//@bounds sizes 1..2 over a buffer of 16 floats with guard cells, every way to attach external storage
extern "C" void h_external() {
	uint64_t h0 = vs_heap_live(); T buf[16]; for (auto& x : buf) x = vs_num<T>("b"); T cp[16]; for (int i = 0; i < 16; ++i) cp[i] = buf[i];
	vl r = vs_pick("r", 1, 2), c = vs_pick("c", 1, 3); bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2), hol = vs_choose("hol", 2); int how = (int)vs_choose("how", 9);
	vl tr = r + (bias && bir), tc = c + (bias && !bir); T* p = buf + 2; bool expHol = hol && bias;
	{
		M like(r, c, bias, bir); if (expHol) like.holey_biases(true); M m(2, 2, true); bool b2 = bias; vl er = r, ec = c; bool el = bir;
		if (how == 0) m.useExternalStorage(p, tr, tc, bias, hol, bir); else if (how == 1) m.useExternalStorage(p, smatrix_td::mtx_size_t(tr, tc), bias, hol, bir); else if (how == 2) m.useExternalStorage(p, (const M&)like, hol);
		else if (how == 3) m.useExternalStorage(bir, p, bir ? tc : tr, bir ? tr : tc, bias, hol); else if (how == 4) { m.set_batchInRow(bir); m.useExternalStorage(bir ? tc : tr, bir ? tr : tc, p, bias, hol); }
		else if (how == 5) { if (bias && bir) return; m.useExternalStorage_no_bias(p, (const M&)like); b2 = false; expHol = false; }
		else if (how == 6) { M o(p, tr, tc, bias, hol, bir); m.useExternalStorage(o); } else if (how == 7) { if (bias && bir) return; M o(p, tr, tc, bias, hol, bir); m.useExternalStorage_no_bias(o); b2 = false; expHol = false; }
		else { if (bias && bir) return; M o(p, tr, tc, bias, hol, bir); vl cb = vs_pick("cb", 0, c - 1), n = vs_pick("n", 1, c - cb); m.useExternalStorage_no_bias(o, cb, n); vs_assert(m.begin() == p + (size_t)cb * tr && m.rows() == tr && m.cols() == n && !m.emulatesBiases() && m.bBatchInRow() == bir, "a column window starts at its first column"); 
			M sub = o.submatrix_cols_no_bias(cb, n); vs_assert(sub.begin() == p + (size_t)cb * tr && sub.rows() == tr && sub.cols() == n && !sub.emulatesBiases() && sub.bBatchInRow() == bir && sub.bDontManageStorage(), "submatrix views its columns"); D od(p, tr, tc, bias, hol, bir); D sd = od.submatrix_cols_no_bias(cb, n); vs_assert(sd.begin() == p + (size_t)cb * tr && sd.rows() == tr && sd.cols() == n && !sd.emulatesBiases() && sd.bBatchInRow() == bir && sd.bDontManageStorage(), "deformable submatrix views its columns"); goto fin; }
		shape(m, er, ec, b2, el, "external"); vs_assert(m.begin() == p && m.bDontManageStorage() && m.hasHoleyBiases() == expHol, "external storage is used in place with the requested flags");
		fin: vs_assert(!m.bOwnStorage(), "external storage is not owned"); m.clear(); vs_assert(m.empty() && m.bOwnStorage(), "clear detaches"); vs_reach("ext");
	}
	for (int i = 0; i < 16; ++i) vs_assert(same(buf[i], cp[i]), "attaching and detaching never touches external data");
	vs_assert(vs_heap_live() == h0, "previous storage is freed, external storage is not");
}
//@ prop=C03 entry=h_ext_ctor reach=extctor
//@bounds sizes 1..2, every flag combination
extern "C" void h_ext_ctor() {
	T buf[16]; for (auto& x : buf) x = 7; vl r = vs_pick("r", 1, 2), c = vs_pick("c", 1, 2); bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2), hol = vs_choose("hol", 2); vl tr = r + (bias && bir), tc = c + (bias && !bir); int how = (int)vs_choose("how", 7);
	M like(r, c, bias, bir); if (bias && hol) like.holey_biases(true); D likeD(r, c, bias, bir); if (bias && hol) likeD.holey_biases(true); bool h = hol && bias;
	auto chk = [&](M& m, bool b, bool hh) { shape(m, r, c, b, bir, "ext"); vs_assert(m.begin() == buf && m.bDontManageStorage() && m.hasHoleyBiases() == hh, "external constructor uses the pointer and flags"); };
	if (how == 0) { M m(buf, (const M&)like); chk(m, bias, h); } else if (how == 1) { M m(buf, smatrix_td::mtx_size_t(tr, tc), bias, hol, bir); chk(m, bias, h); } else if (how == 2) { M m(buf, tr, tc, bias, hol, bir); chk(m, bias, h); }
	else if (how == 3) { if (bias && bir) return; M m(buf, (const M&)like, smatrix_td::tag_noBias()); chk(m, false, false); } else if (how == 4) { D m(buf, tr, tc, bias, hol, bir); chk(m, bias, h); } else if (how == 5) { D m(buf, (const D&)likeD); chk(m, bias, h); } else { smatrix<double> ld(r, c, bias, bir); if (h) ld.holey_biases(true); D m(buf, ld); chk(m, bias, h); }
	for (auto& x : buf) vs_assert(x == 7, "external data untouched"); vs_reach("extctor");
}
//@ prop=C03 entry=h_deform reach=deform
//@bounds storage of 4x4 elements, target sizes 1..3, one deformation and its inverse, both layouts, with and without biases
extern "C" void h_deform() {
	bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2); int op = (int)vs_choose("op", 11); D d((numel_cnt_t)20, bias, false, bir); T* p;
	d.deform(3 + (bias && bir), 3 + (bias && !bir)); p = d.begin(); if (bias) d.set_biases(); fillSym(d, "v"); Snap s(d); vl R = d.rows(), C = d.cols(); vs_assert(d.bOwnStorage(), "sized by element count owns its storage"); shape(d, 3, 3, bias, bir, "deform");
	vl n = vs_pick("n", 1, 2);
	if (op == 0) { vl o = d.deform_cols(n); vs_assert(o == C && d.cols() == n && d.rows() == R, "deform_cols"); o = d.deform_cols(C); vs_assert(o == n, "deform_cols returns the previous count"); sameAs(d, s, "restored"); }
	else if (op == 1) { vl o = d.deform_rows(n); vs_assert(o == R && d.rows() == n && d.cols() == C, "deform_rows"); o = d.deform_rows(R); vs_assert(o == n, "deform_rows returns the previous count"); sameAs(d, s, "restored"); }
	else if (op == 2) { if (bir) return; bool b = d.hide_biases(); vs_assert(b == bias && !d.emulatesBiases() && d.cols() == 3 && d.rows() == 3, "hide_biases leaves exactly the data"); for (int i = 0; i < 9; ++i) vs_assert(same(d.begin()[i], s.v[i]), "data unchanged"); d.restore_biases(b); sameAs(d, s, "restored"); }
	else if (op == 3) { bool b = d.hide_last_n_cols(n); vs_assert(b == (bias && !bir), "biases dropped iff they were a column"); vs_assert(d.cols_no_bias() == 3 - n && d.rows() == R && d.has_bias_column() == false, "n data columns hidden"); d.restore_last_n_cols(b, n); sameAs(d, s, "restored"); }
	else if (op == 4) { d.hide_last_col(); vs_assert(d.cols() == C - 1 && d.rows() == R, "one column hidden"); d.restore_last_col(); sameAs(d, s, "restored"); }
	else if (op == 5) { vl o = d.deform_batch_size(n); vs_assert(o == 3 && d.batch_size() == n && d.sample_size() == 3, "batch size deformed, sample size kept"); vl q = d.deform_batch_size(3); vs_assert(q == n, "old batch size returned"); sameAs(d, s, "restored"); }
	else if (op == 6) { d.deform_batch_size_with_biases(n); shape(d, bir ? 3 : n, bir ? n : 3, bias, bir, "batch"); biasOnes(d); vs_assert(d.begin() == p, "storage reused"); }
	else if (op == 7) { vl o = d.deform_sample_size(n + bias); vs_assert(o == 3 + (vl)bias && d.sample_size() == n && d.batch_size() == 3, "sample size deformed, batch size kept"); }
	else if (op == 8) { vl m = vs_pick("m", 1, 3); d.deform_dataset(m, n + bias); shape(d, bir ? n : m, bir ? m : n, bias, bir, "dataset"); biasOnes(d); }
	else if (op == 9) { bool b2 = vs_choose("lb", 2); M like(n, 2, b2, !bir); if (vs_choose("nb", 2)) { d.deform_like_no_bias(like); vs_assert(d.rows() == n && d.cols() == 2 && d.bBatchInRow() == !bir && d.emulatesBiases() == bias, "deform_like_no_bias takes data size and layout"); } else { d.deform_like(like); vs_assert(d.rows() == like.rows() && d.cols() == like.cols() && d.bBatchInRow() == !bir && d.emulatesBiases() == bias, "deform_like takes size and layout"); } }
	else { d.on_transposition(); vs_assert(d.rows() == C && d.cols() == R && d.bBatchInRow() == !bir && d.emulatesBiases() == bias && d.sample_size() == 3 && d.batch_size() == 3, "transposition swaps sizes and layout, so sample and batch sizes stay"); d.on_transposition(); sameAs(d, s, "restored"); }
	vs_assert(d.begin() == p && d.bOwnStorage(), "deformation never moves the storage"); vs_reach("deform");
}
//@ prop=C03 entry=h_biascopy reach=biascopy
//@bounds up to 3 rows, any binary biases
extern "C" void h_biascopy() {
	vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 2); M m(r, c, true), o(r, 1, true); fillSym(m, "v"); Snap s(m); T b[3]; vl nz = 0; for (vl i = 0; i < r; ++i) { int k = vs_int("bit", 0, 1); b[i] = (T)k; nz += k; }
	nz = vs_concretize(nz);
	if (vs_choose("how", 2)) { m.copy_biases_from(b, nz); } else { for (vl i = 0; i < r; ++i) o.bias_column()[i] = b[i]; o.holey_biases(nz != r); m.copy_biases_from(o); }
	for (vl i = 0; i < r; ++i) vs_assert(m.bias_column()[i] == b[i], "biases are copied"); vs_assert(m.isHoleyBiases() == (nz != r), "biases are holey iff some is zero"); vs_assert(m.test_biases_ok(), "bias test accepts binary biases");
	for (size_t i = 0; i < (size_t)r * c; ++i) vs_assert(same(m.begin()[i], s.v[i]), "data unchanged"); vs_reach("biascopy");
}
