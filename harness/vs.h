// Harness interface. Under nsym every vs_* call is interpreted by the symbolic executor;
// in a native build (replay) the definitions of rt/native.cpp feed recorded inputs.
#pragma once
#include <cstdint>
extern "C" {
	int64_t vs_i64(const char* name, int64_t lo, int64_t hi);   // any integer in [lo,hi]
	double vs_f64(const char* name);                            // any finite double
	float vs_f32(const char* name);                             // any finite float
	double vs_f64_any(const char* name);                        // any double incl. NaN/inf
	float vs_f32_any(const char* name);
	uint64_t vs_choose(const char* name, uint64_t n);           // 0..n-1, one path each
	void vs_assume(bool c);
	void vs_assert(bool c, const char* label);
	void vs_assert_eq(double a, double b, const char* label);   // equal as real numbers
	void vs_assert_near(double a, double b, double tol, const char* label);
	void vs_reach(const char* label);
	int64_t vs_concretize(int64_t v);
	uint64_t vs_heap_live();
	bool vs_real_mode();
	bool vs_symbolic_run();
	void vs_malloc_may_fail(int on);
	void vs_set_threads(int n);
	void vs_explore_schedules(int n);
	void vs_race_check(int on);
	uint32_t vp_rng_bits();
	double vp_rng_real();
	void vp_yield();
}
template<class T> struct vs_num_; 
template<> struct vs_num_<double> { static double any(const char* n) { return vs_f64(n); } static double anyn(const char* n) { return vs_f64_any(n); } };
template<> struct vs_num_<float> { static float any(const char* n) { return vs_f32(n); } static float anyn(const char* n) { return vs_f32_any(n); } };
// any finite value of type T
template<class T> inline T vs_num(const char* n) { return vs_num_<T>::any(n); }
// any finite value of type T inside [lo,hi]
template<class T> inline T vs_num(const char* n, T lo, T hi) { T v = vs_num_<T>::any(n); vs_assume(v >= lo); vs_assume(v <= hi); return v; }
inline int vs_int(const char* n, int lo, int hi) { return (int)vs_i64(n, lo, hi); }
// a value chosen by forking: the path sees a concrete number
inline int vs_pick(const char* n, int lo, int hi) { return lo + (int)vs_choose(n, (uint64_t)(hi - lo + 1)); }
#ifndef VS_BOUND
#define VS_BOUND(q, t) (VS_THOROUGH ? (t) : (q))
#endif
#ifndef VS_THOROUGH
#define VS_THOROUGH 0
#endif
#define ENTRY(name, opts) extern "C" void name()
