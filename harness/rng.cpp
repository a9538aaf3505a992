// Random number interfaces: ranges, coverage, seeding, distributions. The base generator (a separate package) is replaced by an arbitrary one.
#include "kern.h"
#include <nntl/interface/rng/cstd.h>
#include <nntl/interface/rng/afrand.h>
#include <nntl/interface/rng/afrand_mt.h>
#include <nntl/interface/rng/distr_normal_naive.h>
struct Gen;
static Gen* g_gen[8]; static int g_ngen = 0; static bool g_sym = true;
struct Gen { // an arbitrary generator: every draw is any value of [0,1); it remembers what it was seeded with
	R d[16]; int cnt = 0, seed[4], ns = 0, inits = 0, bits = 0; uint32_t st = 1;
	Gen(int s) { if (g_ngen < 8) g_gen[g_ngen++] = this; RandomInit(s); } Gen(const Gen&) = delete; Gen(Gen&& o) : cnt(o.cnt), ns(o.ns), inits(o.inits), st(o.st) { vs_assert(false, "generators are not moved"); }
	void RandomInit(int s) { seed[0] = s; ns = 1; ++inits; st = (uint32_t)s * 2654435761u + 1; } void RandomInitByArray(const int* s, int n) { ns = n < 4 ? n : 4; st = 1; for (int i = 0; i < ns; ++i) seed[i] = s[i], st = st * 31 + (uint32_t)s[i] * 2654435761u; ++inits; }
	uint32_t BRandom() { ++bits; st = st * 1664525u + 1013904223u; return st ^ (st >> 15); }
	template<class T> T FPRandom() { if (!g_sym) return (T)(BRandom() >> 5) / (T)(1 << 27); R x = vs_num<R>("draw"); vs_assume(x >= 0 && x < 1); if (cnt < 16) d[cnt] = x; ++cnt; return (T)x; }
	R Random() { return FPRandom<R>(); }
	int IRandomX(int lo, int hi) { vs_assert(lo <= hi, "a proper interval is asked for"); return vs_int("irnd", lo, hi); }
};
namespace nntl { namespace rng { namespace _impl { template<> struct AFRAND_MT_THR<Gen, R> { static constexpr size_t bnd_gen_vector = 5, bnd_gen_vector_gtz = 5, bnd_gen_vector_norm = 5, bnd_bernoulli_vector = 5, bnd_normal_vector = 5; }; } } }
typedef d_int_nI<R>::iThreads_t Th; typedef rng::AFRand<R, Gen> R1; typedef rng::AFRand_mt<R, Gen, Th> R2; typedef rng::CStd<R> R0;
static R g_r[16]; static int g_nr = 0; static bool g_rsym = true; static uint32_t g_rst = 1;
extern "C" int rand() noexcept { if (!g_rsym) { g_rst = g_rst * 1664525u + 1013904223u; return (int)((g_rst ^ (g_rst >> 15)) & 0x7fffffffu); } int v; if (vs_real_mode()) { int k = (int)vs_choose("rand", 3); v = k == 0 ? 0 : k == 1 ? 0x2468ace : RAND_MAX; } else v = vs_int("rand", 0, RAND_MAX); if (g_nr < 16) g_r[g_nr] = (R)v / (R)RAND_MAX; ++g_nr; return v; }
extern "C" void srand(unsigned s) noexcept { g_rst = s * 2654435761u + 1; }
// what the generators delivered: number and sum of the draws
static void draws(R& s, int& n) { s = 0; n = 0; for (int g = 0; g < g_ngen; ++g) for (int i = 0; i < g_gen[g]->cnt && i < 16; ++i) s += g_gen[g]->d[i], ++n; for (int i = 0; i < g_nr && i < 16; ++i) s += g_r[i], ++n; }
template<class T> static void ranges(T& rg, bool two, bool mt) {
	R buf[9]; for (auto& b : buf) b = 99; int n = mt ? (int)vs_pick("n", 5, 7) : std::is_same<T, R0>::value ? 2 : (int)vs_pick("n", 1, 3); R a = vs_num<R>("a"), lo = vs_num<R>("lo"), hi = vs_num<R>("hi"); vs_assume(a > 0 && lo < hi); int op = (int)vs_choose("op", 5); R l = -a, h = a;
	if (op == 1 && !two) op = 0;
	if (op == 0) rg.gen_vector(buf, n, a); else if (op == 1) { l = lo; h = hi; } else if (op == 2) { l = 0; h = 1; rg.gen_vector_norm(buf, n); } else if (op == 3) { l = 0; rg.template gen_vector_gtz<R>(buf, n, a); } else { for (int i = 0; i < n; ++i) buf[i] = rg.gen_f(a); l = 0; }
	if constexpr (!std::is_same<T, R0>::value) if (op == 1) rg.gen_vector(buf, n, lo, hi);
	R s, sum = 0; int k; draws(s, k); for (int i = 0; i < n; ++i) { vs_assert(buf[i] >= l && buf[i] <= h, "inside of the requested range"); sum += buf[i]; } vs_assert(k == n, "one draw per element"); eqR(sum, (R)n * l + s * (h - l), "the values are the draws mapped onto the range"); for (int i = n; i < 9; ++i) eqR(buf[i], 99, "nothing written past the vector"); vs_reach("ranges");
}
//@ prop=C19 entry=h_ranges mode=real reach=ranges
//@bounds vectors of 1..3 (5..7 multi-threaded, 3 threads) elements, any draws of [0,1) (three values for rand()), any real bounds, three generator classes
extern "C" void h_ranges() { vs_set_threads(3); int c = (int)vs_choose("class", 4); vs_race_check(1); if (c == 0) { R0 r(5); ranges(r, false, false); } else if (c == 1) { R1 r(5); ranges(r, true, false); } else { Th t; R2 r(t, 5); ranges(r, true, c == 3); } }
template<class T> static void bern(T& rg, bool mt) {
	int n = mt ? 6 : 2; M A(n == 6 ? 3 : 1, 2); A.fill(99); R p = vs_num<R>("p"), pv = vs_num<R>("pos"), nv = vs_num<R>("neg"); vs_assume(p > 0 && p < 1 && pv > nv); int op = (int)vs_choose("op", 4); if (op == 0) rg.bernoulli_vector(A.begin(), n, p, pv, nv); else if (op == 1) rg.bernoulli_matrix(A, p, pv, nv); else { pv = 1; nv = 0; if (op == 2) rg.binary_vector(A.begin(), n, p); else rg.binary_matrix(A, p); }
	int yes = 0, k = 0, pos = 0; for (int g = 0; g < g_ngen; ++g) for (int i = 0; i < g_gen[g]->cnt; ++i) yes += g_gen[g]->d[i] < p, ++k; for (int i = 0; i < g_nr; ++i) yes += g_r[i] < p, ++k;
	vs_assert(k == n, "one draw per element"); for (int i = 0; i < n; ++i) { vs_assert(A.begin()[i] == pv || A.begin()[i] == nv, "one of the two values"); pos += A.begin()[i] == pv; } vs_assert(pos == yes, "the positive value with exactly the given probability"); if (!mt && n == 2) { R d0 = g_ngen ? g_gen[0]->d[0] : g_r[0]; vs_assert((A.begin()[0] == pv) == (d0 < p), "decided by its own draw"); } vs_reach("bern");
}
//@ prop=C19 entry=h_bern mode=real reach=bern
//@bounds 2 elements (6 multi-threaded), any draws, probability and values
extern "C" void h_bern() { vs_set_threads(3); int c = (int)vs_choose("class", 4); vs_race_check(1); if (c == 0) { R0 r(5); bern(r, false); } else if (c == 1) { R1 r(5); bern(r, false); } else { Th t; R2 r(t, 5); bern(r, c == 3); } }
template<class T> static void mats(T& rg) {
	bool bias = vs_choose("bias", 2), sic = vs_choose("columns", 2); int op = (int)vs_choose("op", 7); if (op < 3 || sic) bias = bias && op == 6; if (op != 6) sic = false; M A(2, 2, bias, sic); for (nc i = 0; i < A.numel(); ++i) A.begin()[i] = 1; if (bias) { if (sic) A.fill_bias_row(); else A.fill_bias_column(); } R a = vs_num<R>("a"); vs_assume(a > 1);
	switch (op) { case 0: rg.gen_matrix(A, a); break; case 1: rg.gen_matrix_norm(A); break; case 2: rg.gen_matrix_gtz(A, a); break; case 3: rg.gen_matrix_no_bias(A, a); break; case 4: rg.gen_matrix_no_bias_norm(A); break; case 5: rg.gen_matrix_no_bias_gtz(A, a); break; default: rg.gen_matrixAny(A, a); }
	R l = op == 0 || op == 3 || op == 6 ? -a : 0., h = op == 1 || op == 4 ? 1. : a, s, sum = 0; int k; draws(s, k); int n = 0;
	for (vl c = 0; c < A.cols(); ++c) for (vl r = 0; r < A.rows(); ++r) { bool b = bias && (sic ? r + 1 == A.rows() : c + 1 == A.cols()); R x = E(A, r, c); if (b) eqR(x, 1, "biases stay"); else { vs_assert(x >= l && x <= h, "inside of the range"); sum += x; ++n; } } if (!(bias && sic)) { vs_assert(k == n, "one draw per element"); eqR(sum, (R)n * l + s * (h - l), "the values are the draws mapped onto the range"); } vs_reach("mats");
}
//@ prop=C19 entry=h_mats mode=real reach=mats
//@bounds 2x2 matrices with and without biases, both layouts, any draws
extern "C" void h_mats() { vs_set_threads(3); int c = (int)vs_choose("class", 3); if (c == 0) { R0 r(5); mats(r); } else if (c == 1) { R1 r(5); mats(r); } else { Th t; R2 r(t, 5); mats(r); } }
//@ prop=C19 entry=h_ints reach=ints
//@bounds any limit 1..2^31-1 (six limits for the generator built on rand()), any draw
extern "C" void h_ints() {
	vs_set_threads(3); int c = (int)vs_choose("class", 3), via = (int)vs_choose("via", 2); int64_t n = vs_i64("n", 1, INT32_MAX), v = -1; if (c == 0) { static const int64_t T[] = { 1, 2, 3, 1000, 65536, INT32_MAX }; n = T[vs_choose("limit", 6)]; R0 r(5); v = via ? r(n) : r.gen_i(n); int g = r.gen_int(); vs_assert(g >= R0::min() && g <= R0::max(), "integers lie between min() and max()"); vs_assert(R0::min() == 0 && R0::max() == RAND_MAX, "the range is the range of rand()"); } else if (c == 1) { R1 r(5); v = via ? r(n) : r.gen_i(n); } else { Th t; R2 r(t, 5); v = via ? r(n) : r.gen_i(n); }
	vs_assert(v >= 0 && v < n, "index below the limit"); vs_assert(R1::min() == 0 && R1::max() == UINT32_MAX && R2::min() == 0 && R2::max() == UINT32_MAX, "full range"); vs_reach("ints");
}
//@ prop=C19 entry=h_seed reach=seed
//@bounds any seed, 2..4 threads
extern "C" void h_seed() {
	int hw = vs_pick("threads", 2, 4); vs_set_threads(hw); int s = vs_int("seed", INT32_MIN, INT32_MAX), s0 = vs_int("seed0", -1000, 1000), how = (int)vs_choose("how", 4); Th t; R2 a(t, s0); vs_assert(g_ngen == hw, "one generator per thread"); for (int i = 0; i < hw; ++i) for (int j = 0; j < i; ++j) vs_assert(g_gen[i]->seed[0] != g_gen[j]->seed[0], "the threads start from different seeds");
	if (how == 0) a.seed(s); else if (how == 1) { a.seed64((uint64_t)(uint32_t)s); } else if (how == 2) { a.seed(s); a.reseed(); } else { a.seed64(((uint64_t)(uint32_t)s) << 32); }
	for (int i = 0; i < hw; ++i) { Gen* g = g_gen[i]; vs_assert(g->inits == (how == 2 ? 3 : 2), "every generator is seeded, once per call"); bool has = false; for (int k = 0; k < g->ns; ++k) has |= g->seed[k] == s; vs_assert(has, "from the given seed"); for (int j = 0; j < i; ++j) { bool diff = g->ns != g_gen[j]->ns; for (int k = 0; k < g->ns; ++k) diff |= g->seed[k] != g_gen[j]->seed[k]; vs_assert(diff, "no two threads share a stream"); } }
	{ g_ngen = 0; R1 b(s0); b.seed(s); vs_assert(g_ngen == 1 && g_gen[0]->inits == 2 && g_gen[0]->seed[0] == s, "the single-threaded generator is seeded"); } { g_ngen = 0; R2 d; vs_assert(d.init_ithreads(t, s) && g_ngen == hw && &d.ithreads() == &t && !d.init_ithreads(t, s), "late initialization, once"); } vs_reach("seed");
}
template<class T> static void norm(T& x, T& y, bool mt) {
	R m = vs_num<R>("mean"), sd = vs_num<R>("dev"); vs_assume(sd > 0); int op = (int)vs_choose("op", 3), n = mt ? 6 : 3; M A(1, n, op == 2), B(1, n, op == 2); x.seed(7);
	if (op == 0) { x.normal_vector(A.begin(), n, 0., 1.); y.seed(7); y.normal_vector(B.begin(), n, m, sd); } else if (op == 1) { x.normal_matrix(A); y.seed(7); y.normal_matrix(B, m, sd); } else { rng::distr_normal_naive<T> d(x), e(y, m, sd); int v = (int)vs_choose("via", 2); if (v) { d.gen_matrix_no_bias(A); y.seed(7); e.gen_matrix_no_bias(B); } else { M C(1, n), D(1, n); d.gen_matrix(C); y.seed(7); e.gen_matrix(D); for (int i = 0; i < n; ++i) A.begin()[i] = C.begin()[i], B.begin()[i] = D.begin()[i]; } eqR(B.begin()[n], 1, "biases stay"); }
	for (int i = 0; i < n; ++i) { eqR(B.begin()[i], m + sd * A.begin()[i], "mean plus standard deviation times the standard normal draw"); } int b = 0; for (int g = 0; g < g_ngen; ++g) b += g_gen[g]->bits; vs_assert(!g_ngen || b >= 2 * n, "bits are drawn for every element"); vs_reach("norm");
}
//@ prop=C19 entry=h_norm mode=real reach=norm
//@bounds 3 elements (6 multi-threaded) from a fixed stream of bits, any mean and standard deviation
extern "C" void h_norm() { vs_set_threads(3); g_sym = g_rsym = false; int c = (int)vs_choose("class", 4); if (c == 0) { R0 r(5), q(5); norm(r, r, false); } else if (c == 1) { R1 r(5), q(5); norm(r, q, false); } else { Th t; R2 r(t, 5), q(t, 5); norm(r, q, c == 3); } }
