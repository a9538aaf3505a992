// Reference neural network: textbook forward pass and back propagation over plain arrays (samples in rows).
#pragma once
#include "kern.h"
#include "blas.h"
#include "stdimpl.h"
#include <nntl/nntl.h>
#ifdef NET_PRE
NET_PRE
#endif
#ifdef NET_RNG // a generator whose (arbitrary) draws are known to the harness
#include <nntl/interface/rng/afrand_mt.h>
struct Gen { static R d[64]; static int n; Gen(int) {} void RandomInit(int) {} void RandomInitByArray(const int*, int) {} uint32_t BRandom() { return vp_rng_bits(); }
	template<class T> T FPRandom() { R x = vs_num<R>("draw"); vs_assume(x >= 0 && x < 1); if (n < 64) d[n] = x; ++n; return (T)x; } R Random() { return FPRandom<R>(); } int IRandomX(int lo, int hi) { return irnd(lo, hi); } static int (*irnd)(int, int); };
static int anyInt(int lo, int hi) { return vs_int("irnd", lo, hi); } int (*Gen::irnd)(int, int) = anyInt;
R Gen::d[64]; int Gen::n = 0;
namespace nntl { namespace rng { namespace _impl { template<> struct AFRAND_MT_THR<Gen, R> { static constexpr size_t bnd_gen_vector = 999, bnd_gen_vector_gtz = 999, bnd_gen_vector_norm = 999, bnd_bernoulli_vector = 999, bnd_normal_vector = 999; }; } } }
#ifndef NET_INSP
#define NET_INSP inspector::dummy<R>
#endif
struct NI : public d_int_nI<R> { typedef NET_INSP iInspect_t; typedef rng::AFRand_mt<R, Gen, d_int_nI<R>::iThreads_t> iRng_t; };
#else
struct NI : public d_int_nI<R> { typedef inspector::dummy<R> iInspect_t; };
#endif
typedef grad_works<NI> GWk;
enum { A_ID, A_SIGM, A_RELU, A_SSGN };
struct T { R v[6][8]; int r, c; T(int r_ = 0, int c_ = 0) : r(r_), c(c_) {} R* operator[](int i) { return v[i]; } const R* operator[](int i) const { return v[i]; } };
static R f(int k, R z) { return k == A_ID ? z : k == A_SIGM ? 1 / (1 + std::exp(-z)) : k == A_RELU ? (z <= 0 ? 0. : z) : z / (1 + (z < 0 ? -z : z)); }
static R df(int k, R a) { R b = 1 - (a < 0 ? -a : a); return k == A_ID ? 1. : k == A_SIGM ? a * (1 - a) : k == A_RELU ? (a <= 0 ? 0. : 1.) : b * b; } // by the value of the function
static T tOf(const M& m) { T t((int)m.rows(), (int)m.cols_no_bias()); for (int i = 0; i < t.r; ++i) for (int j = 0; j < t.c; ++j) t[i][j] = E(m, i, j); return t; }
static T wOf(const M& m) { T t((int)m.rows(), (int)m.cols()); for (int i = 0; i < t.r; ++i) for (int j = 0; j < t.c; ++j) t[i][j] = E(m, i, j); return t; }
static T cols(const T& x, int o, int n) { T t(x.r, n); for (int i = 0; i < x.r; ++i) for (int j = 0; j < n; ++j) t[i][j] = x[i][o + j]; return t; }
static T lin(const T& w, const T& x) { T t(x.r, w.r); for (int i = 0; i < x.r; ++i) for (int n = 0; n < w.r; ++n) { R s = 0; for (int j = 0; j < x.c; ++j) s += x[i][j] * w[n][j]; s += w[n][x.c]; t[i][n] = s; } return t; }
static T fwd(int k, const T& w, const T& x) { T t = lin(w, x); for (int i = 0; i < t.r; ++i) for (int n = 0; n < t.c; ++n) t[i][n] = f(k, t[i][n]); return t; }
static T mulD(int k, const T& a, const T& dA) { T t(a.r, a.c); for (int i = 0; i < a.r; ++i) for (int n = 0; n < a.c; ++n) t[i][n] = df(k, a[i][n]) * dA[i][n]; return t; } // dL/dZ
static T down(const T& dZ, const T& w) { T t(dZ.r, w.c - 1); for (int i = 0; i < dZ.r; ++i) for (int j = 0; j + 1 < w.c; ++j) { R s = 0; for (int n = 0; n < w.r; ++n) s += dZ[i][n] * w[n][j]; t[i][j] = s; } return t; } // dL/dAprev
static T grad(const T& dZ, const T& x, const T& w, int bs) { T t(w.r, w.c); for (int n = 0; n < w.r; ++n) for (int j = 0; j < w.c; ++j) { R s = 0; for (int i = 0; i < dZ.r; ++i) s += dZ[i][n] * (j < x.c ? x[i][j] : 1.); t[n][j] = s * (1. / (R)bs); } return t; } // the gradient of the mean loss
static T step(const T& w, const T& g, R lr) { T t(w.r, w.c); for (int n = 0; n < w.r; ++n) for (int j = 0; j < w.c; ++j) t[n][j] = w[n][j] - lr * g[n][j]; return t; }
static T dOut(int k, const T& a, const T& y) { T t(a.r, a.c); for (int i = 0; i < a.r; ++i) for (int n = 0; n < a.c; ++n) t[i][n] = k < 0 ? a[i][n] - y[i][n] : (a[i][n] - y[i][n]) * df(k, a[i][n]); return t; } // k < 0: cross-entropy
static void same(const M& m, const T& t, const char* l) { vs_assert((int)m.rows() == t.r && (int)m.cols_no_bias() >= t.c, "shape"); for (int i = 0; i < t.r; ++i) for (int j = 0; j < t.c; ++j) eqR(E(m, i, j), t[i][j], l); }
static void symW(M& m, const char* n) { for (vl j = 0; j < m.cols(); ++j) for (vl i = 0; i < m.rows(); ++i) E(m, i, j) = vs_num<R>(n); }
template<class L> static T setW(L& l, vl inc, const char* n) { M w((vl)l.get_neurons_cnt(), inc + 1); symW(w, n); T t = wOf(w); vs_assert(l.set_weights(std::move(w)), "weights accepted"); return t; }
template<class L> static T newW(L& l, const char* n) { symW(l.get_weights(), n); return wOf(l.get_weights()); }
template<class L> static void biasOk(const L& l) { const M& a = l.get_activations(); vs_assert(a.emulatesBiases(), "biases are there"); for (vl i = 0; i < a.rows(); ++i) eqR(E(a, i, a.cols() - 1), 1., "bias column holds ones"); }
template<class N> static void mode(N& nn, bool train, vl bs) { auto& cd = nn.___get_common_data(); if (cd.set_mode_and_batch_size(train, bs)) nn.get_layer_pack().on_batch_size_change(bs); }
