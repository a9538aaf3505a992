// Common part of the kernel harnesses: the real math interface over the real worker pool.
#pragma once
#include "vs.h"
#include <nntl/math.h>
#include <nntl/interfaces.h>
using namespace nntl; using namespace nntl::math;
typedef vec_len_t vl; typedef double R; typedef smatrix<R> M; typedef numel_cnt_t nc;
typedef d_int_nI<R>::iMath_t IM;
static R& E(M& m, vl r, vl c) { return m.begin()[(size_t)c * (size_t)m.rows() + (size_t)r]; }
static const R& E(const M& m, vl r, vl c) { return m.begin()[(size_t)c * (size_t)m.rows() + (size_t)r]; }
struct Cp { R v[64]; vl r, c; size_t n; Cp(const M& m) : r(m.rows()), c(m.cols()), n((size_t)m.rows() * m.cols()) { for (size_t i = 0; i < n; ++i) v[i] = m.begin()[i]; } R operator()(vl i, vl j) const { return v[(size_t)j * r + i]; } };
// symbolic data (biases stay)
static void sym(M& m, const char* n) { for (vl j = 0; j < m.cols_no_bias(); ++j) for (vl i = 0; i < m.rows(); ++i) E(m, i, j) = vs_num<R>(n); }
static void sym(M& m, const char* n, R lo, R hi) { for (vl j = 0; j < m.cols_no_bias(); ++j) for (vl i = 0; i < m.rows(); ++i) E(m, i, j) = vs_num<R>(n, lo, hi); }
static bool sameBits(R a, R b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static void eqR(R a, R b, const char* l) { vs_assert_eq(a, b, l); }
// what libc does
extern "C" div_t div(int a, int b) noexcept { div_t d; d.quot = a / b; d.rem = a % b; return d; }
extern "C" ldiv_t ldiv(long a, long b) noexcept { ldiv_t d; d.quot = a / b; d.rem = a % b; return d; }
extern "C" lldiv_t lldiv(long long a, long long b) noexcept { lldiv_t d; d.quot = a / b; d.rem = a % b; return d; }
