// Bias / binary / NaN predicates, triangular indexing, element ranges.
#include "vs.h"
#include <nntl/math.h>
#include <nntl/interfaces.h>
using namespace nntl; using namespace nntl::math;
typedef vec_len_t vl;
template<class T> static T* at(smatrix<T>& m, vl r, vl c) { return m.begin() + (size_t)c * (size_t)m.rows() + (size_t)r; }
static uint32_t bits(float v) { uint32_t r; memcpy(&r, &v, 4); return r; }
static uint64_t bits(double v) { uint64_t r; memcpy(&r, &v, 8); return r; }
static bool isB(float v) { uint32_t b = bits(v); return (b == 0x3f800000u) | (b == 0) | (b == 0x80000000u); }
static bool isBs(float v) { uint32_t b = bits(v); return (b == 0x3f800000u) | (b == 0); }
static bool isB(double v) { uint64_t b = bits(v); return (b == 0x3ff0000000000000ull) | (b == 0) | (b == 0x8000000000000000ull); }
static bool isBs(double v) { uint64_t b = bits(v); return (b == 0x3ff0000000000000ull) | (b == 0); }
static bool isB(int v) { return (v == 0) | (v == 1); } static bool isBs(int v) { return (v == 0) | (v == 1); }
template<class T> struct any_ { static T g(const char* n) { return vs_num_<T>::anyn(n); } }; template<> struct any_<int> { static int g(const char* n) { return vs_int(n, -3, 3); } };
template<class T> static void binary(vl r, vl c, bool bias) {
	smatrix<T> m(r, c, bias); bool b = true, bs = true, bsn = true; 
	for (vl j = 0; j < m.cols(); ++j) for (vl i = 0; i < r; ++i) { T v = any_<T>::g("v"); *at(m, i, j) = v; b = b & isB(v); bs = bs & isBs(v); if (j < c) bsn = bsn & isBs(v); }
	vs_assert(m._isBinary(true) == b, "a matrix is binary iff every element is 0 or 1"); vs_assert(m._isBinaryStrict(true) == bs, "strictly binary excludes negative zero"); vs_assert(m._isBinaryStrictNoBias(true) == bsn, "the no-bias test looks at data only");
	vs_reach("binary");
}
//@ prop=C04 entry=h_binary reach=binary
//@bounds matrices of up to 2x2 elements plus biases, float/double/int; every bit pattern including NaN, infinities, signed zeros
extern "C" void h_binary() { int t = (int)vs_choose("type", 3); vl r = vs_pick("r", 1, 2), c = vs_pick("c", 1, 2); bool bias = vs_choose("bias", 2); if (t == 0) binary<float>(r, c, bias); else if (t == 1) binary<double>(r, c, bias); else binary<int>(r, c, bias); }
template<class T> static void strided(int n, int ld) {
	T buf[12]; bool b = true, bs = true; for (int i = 0; i < 12; ++i) { buf[i] = any_<T>::g("v"); } int o = vs_pick("ofs", 0, 1);
	for (int i = 0; i < n; ++i) { b = b & isB(buf[o + i * ld]); bs = bs & isBs(buf[o + i * ld]); }
	// storage that ends right after the last element that belongs to the vector
	int len = o + (n - 1) * ld + 1; T* p = (T*)malloc(sizeof(T) * (size_t)len); for (int i = 0; i < len; ++i) p[i] = buf[i];
	vs_assert(smatrix_td::_isBinaryVecWLd(p + o, n, ld, true) == b && smatrix_td::_isBinaryStrictVecWLd(p + o, n, ld, true) == bs, "a strided vector is binary iff each of its own elements is"); free(p);
	vs_reach("strided");
}
//@ prop=C04 entry=h_strided reach=strided
//@bounds vectors of 1..3 elements with stride 1..3, float/double/int, every bit pattern
extern "C" void h_strided() { int t = (int)vs_choose("type", 3), n = vs_pick("n", 1, 3), ld = vs_pick("ld", 1, 3); if (t == 0) strided<float>(n, ld); else if (t == 1) strided<double>(n, ld); else strided<int>(n, ld); }
//@ prop=C04 entry=h_bias reach=bias
//@bounds up to 3x2 samples in both layouts, biases with any bit pattern
extern "C" void h_bias() {
	vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 2); bool bir = vs_choose("bir", 2), hol = vs_choose("hol", 2); smatrix<float> m(r, c, true, bir); bool ones = true, bin = true;
	for (vl j = 0; j < m.cols(); ++j) for (vl i = 0; i < m.rows(); ++i) { float v = vs_f32_any("v"); *at(m, i, j) = v; if (bir ? i + 1 == m.rows() : j + 1 == m.cols()) { ones = ones & (v == 1.f); bin = bin & isB(v); } }
	if (hol) { m.holey_biases(true); vs_assert(m.isHoleyBiases(), "holey flag"); vs_assert(m.test_biases_ok() == bin, "holey biases are fine iff each is 0 or 1"); }
	else { vs_assert(m.test_biases_strict() == ones && m.test_biases_ok() == ones && m.if_biases_test_strict() == ones, "strict biases are fine iff each is 1"); }
	vs_reach("bias");
}
//@ prop=C04 entry=h_nan reach=nan
//@bounds up to 2x3 elements, every bit pattern
extern "C" void h_nan() {
	vl r = vs_pick("r", 1, 2), c = vs_pick("c", 1, 3); bool bias = vs_choose("bias", 2); smatrix<float> m(r, c, bias); bool nn = true; for (vl j = 0; j < m.cols(); ++j) for (vl i = 0; i < r; ++i) { float v = vs_f32_any("v"); *at(m, i, j) = v; nn = nn & (v == v); }
	vs_assert(m.test_noNaNs() == nn, "the NaN test accepts exactly matrices without NaN");
	vs_reach("nan");
}
//@ prop=C04 entry=h_almost reach=almost
//@bounds up to 2 elements, every bit pattern, eps in [1e-8,0.25]
extern "C" void h_almost() {
	vl r = vs_pick("r", 1, 2); smatrix<float> m(r, 1, false); for (vl i = 0; i < r; ++i) m.begin()[i] = vs_f32_any("v"); 
	bool ab = true; float eps = vs_num<float>("eps", 1e-8f, .25f); for (vl i = 0; i < r; ++i) { float v = m.begin()[i], w = v - 1.f; ab = ab & (((v > -eps) & (v < eps)) | ((w < eps) & (w > -eps))); }
	vs_assert(m._isAlmostBinary(eps) == ab, "almost-binary means every element within eps of 0 or 1"); vs_reach("almost");
}
// ------------------------------------------------------------------------------------------------ C05
//@ prop=C05 entry=h_tri_up cost=9 reach=tri
//@bounds upper triangle, every column up to 10 (40 thorough), any row in it (symbolic), IEEE doubles
extern "C" void h_tri_up() {
	vl ci = vs_pick("ci", 1, VS_BOUND(10, 40)), n = ci + 1 + vs_pick("n", 0, 1), ri = vs_int("ri", 0, ci - 1), r = 99, c = 99; numel_cnt_t k = (numel_cnt_t)ci * (ci - 1) / 2 + ri;
	smatrix<float>::sTrianglCoordsFromIdx<false>(n, k, r, c); vs_assert(r == ri && c == ci, "index and coordinates of the upper triangle correspond one to one"); vs_reach("tri");
}
//@ prop=C05 entry=h_tri_lo cost=9 reach=tri
//@bounds lower triangle of size up to 8 (30 thorough), every column, any row in it (symbolic), IEEE doubles
extern "C" void h_tri_lo() {
	vl n = vs_pick("n", 2, VS_BOUND(8, 30)), ci = vs_pick("ci", 0, n - 2), ri = vs_int("ri", ci + 1, n - 1), r = 99, c = 99; numel_cnt_t k = (numel_cnt_t)ci * n - (numel_cnt_t)ci * (ci + 1) / 2 + (ri - ci - 1);
	smatrix<float>::sTrianglCoordsFromIdx<true>(n, k, r, c); vs_assert(r == ri && c == ci, "index and coordinates of the lower triangle correspond one to one"); vs_reach("tri");
}
//@ prop=C05 entry=h_tri_big cost=9 reach=tri
//@bounds matrices of size 1000, 65536 and 10^6: the elements of the first, a middle and the last column that are within 3 of either end of the column
extern "C" void h_tri_big() {
	vl n = vs_choose("n", 3) ? vs_choose("n2", 2) ? 65536 : 1000000 : 1000; int w = (int)vs_choose("col", 3); bool lo = vs_choose("lower", 2), low = vs_choose("end", 2); int d = vs_int("d", 0, 2); vl r = 99, c = 99;
	if (!lo) { vl ci = w == 0 ? 3 : w == 1 ? n / 2 : n - 1; vl ri = low ? d : ci - 1 - d; numel_cnt_t k = (numel_cnt_t)ci * (ci - 1) / 2 + ri; smatrix<float>::sTrianglCoordsFromIdx<false>(n, k, r, c); vs_assert(r == ri && c == ci, "large upper triangles map one to one too"); }
	else { vl ci = w == 0 ? 0 : w == 1 ? n / 2 : n - 4; vl ri = low ? ci + 1 + d : n - 1 - d; numel_cnt_t k = (numel_cnt_t)ci * n - (numel_cnt_t)ci * (ci + 1) / 2 + (ri - ci - 1); smatrix<float>::sTrianglCoordsFromIdx<true>(n, k, r, c); vs_assert(r == ri && c == ci, "large lower triangles map one to one too"); }
	vs_reach("tri");
}
//@ prop=C05 entry=h_tri_cnt reach=cnt
//@bounds any matrix size up to 2^31-1; one-past-the-end position for sizes up to 12
extern "C" void h_tri_cnt() {
	vl n = vs_int("n", 1, 0x7fffffff); numel_cnt_t w = smatrix<float>::sNumelTriangl(n); vs_assert(w == (numel_cnt_t)n * ((numel_cnt_t)n - 1) / 2, "a triangle has n(n-1)/2 elements");
	vl m = vs_pick("m", 2, 12), r = 99, c = 99; smatrix<float> A(m, m, false); vs_assert(A.numel_triangl() == (numel_cnt_t)m * (m - 1) / 2, "count of a matrix");
	A.triangl_coords_from_idx<false>(A.numel_triangl(), r, c); vs_assert(r == 0 && c == m, "end of the upper triangle"); A.triangl_coords_from_idx<true>(A.numel_triangl(), r, c); vs_assert(r == 0 && c == m - 1, "end of the lower triangle"); vs_reach("cnt");
}
//@ prop=C05 entry=h_ranges reach=ranges
//@bounds matrices up to 3x3 with every flag; symbolic range ends below 2^30 (a vector index has 31 bits)
extern "C" void h_ranges() {
	vl r = vs_pick("r", 1, 3), c = vs_pick("c", 1, 3); bool bias = vs_choose("bias", 2), bir = vs_choose("bir", 2), ib = vs_choose("ib", 2); smatrix<float> m(r, c, bias, bir); numel_cnt_t b = vs_i64("b", 0, 1 << 29), n = vs_i64("n", 1, 1 << 29);
	s_elems_range e(m); vs_assert(e.elmBegin == 0 && e.elmEnd == m.numel() && e.totalElements() == m.numel(), "the whole matrix"); if (!bir) { s_elems_range e2(m, tag_noBias()); vs_assert(e2.elmBegin == 0 && e2.elmEnd == (numel_cnt_t)r * c, "the data part"); }
	threads::parallel_range<numel_cnt_t> pr(b, n, 3); s_elems_range e3(pr); vs_assert(e3.elmBegin == b && e3.elmEnd == b + n && e3.totalElements() == n && pr.offset() == b && pr.cnt() == n && pr.end() == b + n && pr.tid() == 3, "a work range keeps its bounds");
	s_vec_range v(pr); vs_assert((numel_cnt_t)v.elmBegin == b && (numel_cnt_t)v.elmEnd == b + n, "vector range"); auto e4 = e3 + (numel_cnt_t)7; vs_assert(e4.elmBegin == b + 7 && e4.elmEnd == b + n + 7, "shifted range"); s_elems_range e5(n); vs_assert(e5.elmBegin == 0 && e5.elmEnd == n, "prefix range"); s_elems_range e6(b, b + n); vs_assert(e6.elmBegin == b && e6.elmEnd == b + n, "explicit range");
	s_rowcol_range w(m); vs_assert(w.rowBegin == 0 && w.colBegin == 0 && w.rowEnd == m.rows() && w.colEnd == m.cols() && w.totalRows() == m.rows() && w.totalCols() == m.cols() && w.can_apply(m), "row/column range of a matrix"); s_rowcol_range w2(m, tag_noBias()); vs_assert(w2.rowEnd == r && w2.colEnd == c && w2.rowBegin == 0 && w2.colBegin == 0, "row/column range of the data"); s_rowcol_range w3(m, ib); vs_assert(w3.rowEnd == m.rows(ib) && w3.colEnd == m.cols(ib), "row/column range with a bias switch");
	vl x = vs_int("x", 0, 3), y = vs_int("y", 0, 5); vs_assume(x <= y); s_rowcol_range q(x, y, m), q2(x, y, m, ib), q3(m, x, y), q4(m, x, y, ib); vs_assert(q.rowBegin == x && q.rowEnd == y && q.colBegin == 0 && q.colEnd == m.cols() && q2.rowBegin == x && q2.rowEnd == y && q2.colBegin == 0 && q2.colEnd == m.cols(ib), "row window"); vs_assert(q3.colBegin == x && q3.colEnd == y && q3.rowBegin == 0 && q3.rowEnd == m.rows() && q4.colBegin == x && q4.colEnd == y && q4.rowBegin == 0 && q4.rowEnd == m.rows(ib), "column window");
	vs_assert(q.can_apply(m) == (x < m.rows() && y <= m.rows()) && q3.can_apply(m) == (x < m.cols() && y <= m.cols()), "a window fits iff it lies inside the matrix"); vs_reach("ranges");
}
