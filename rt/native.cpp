// Native side of the harness interface: replays one counterexample against the real code.
// argv: entry-inputs file, lines "name kind value" in the order of the symbolic path.
#include "../harness/vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <unistd.h>
struct Rec { char kind; std::string val; };
static std::map<std::string, std::deque<Rec>> Q;
static double g_tol = 1e-3; static bool g_real = false; static double g_jitter = 0; static unsigned g_seed = 1;
static std::string g_want; // only this label counts ("" = any)
static int bad = 0;
static double rnd() { g_seed = g_seed * 1664525u + 1013904223u; return (g_seed >> 8) / 16777216.0; }
static thread_local int in_rt = 0; struct InRt { InRt() { ++in_rt; } ~InRt() { --in_rt; } };
static bool take(const char* n, Rec& r) { InRt irt; std::string k(n); for (auto& ch : k) if (ch == ' ') ch = '_'; auto& q = Q[k]; if (q.empty()) return false; r = q.front(); q.pop_front(); return true; }
static double num(const char* n, int w) {
	Rec r; if (!take(n, r)) return 0.5;
	if (r.val.compare(0, 2, "0x") == 0) { uint64_t u = strtoull(r.val.c_str(), 0, 16); if (w == 32) { float f; uint32_t x = (uint32_t)u; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &u, 8); return d; }
	double d; auto sl = r.val.find('/'); if (sl != std::string::npos) d = strtod(r.val.c_str(), 0) / strtod(r.val.c_str() + sl + 1, 0); else d = strtod(r.val.c_str(), 0);
	if (g_jitter > 0) d += (d == 0 ? 1 : fabs(d)) * g_jitter * (rnd() * 2 - 1);
	return w == 32 ? (double)(float)d : d;
}
[[noreturn]] static void quit(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static void viol(const char* label, const char* fmt = "", double a = 0, double b = 0) {
	printf("REPLAY-VIOLATION %s", label); if (*fmt) printf(fmt, a, b); printf("\n"); fflush(stdout); bad = 1; quit(42);
}
extern "C" {
	int64_t vs_i64(const char* n, int64_t lo, int64_t hi) { Rec r; if (!take(n, r)) return lo; int64_t v = (int64_t)strtoull(r.val.c_str(), 0, 16); if (v < lo || v > hi) { printf("REPLAY-RANGE %s\n", n); v = lo; } return v; }
	double vs_f64(const char* n) { return num(n, 64); }
	float vs_f32(const char* n) { return (float)num(n, 32); }
	double vs_f64_any(const char* n) { return num(n, 64); }
	float vs_f32_any(const char* n) { return (float)num(n, 32); }
	uint64_t vs_choose(const char* n, uint64_t k) { Rec r; if (!take(n, r)) return 0; uint64_t v = strtoull(r.val.c_str(), 0, 16); return v < k ? v : 0; }
	void vs_assume(bool c) { if (!c) { printf("REPLAY-ASSUME-FAILED\n"); quit(43); } }
	void vs_assert(bool c, const char* label) { if (!c) viol(label); }
	void vs_assert_eq(double a, double b, const char* label) {
		if (std::isnan(a) && std::isnan(b)) return; if (a == b) return;
		if (g_real) { double s = fmax(1.0, fmax(fabs(a), fabs(b))); if (fabs(a - b) <= g_tol * s) return; }
		viol(label, " (%.9g vs %.9g)", a, b);
	}
	void vs_assert_near(double a, double b, double tol, const char* label) { if (!(fabs(a - b) <= tol + (g_real ? g_tol * fmax(1.0, fmax(fabs(a), fabs(b))) : 0))) viol(label, " (%.9g vs %.9g)", a, b); }
	void vs_reach(const char*) {}
	int64_t vs_concretize(int64_t v) { return v; }
	bool vs_real_mode() { return g_real; }
	bool vs_symbolic_run() { return false; }
	uint32_t vp_rng_bits() { Rec r; if (!take("rng_bits", r)) return 0x9E3779B9u; return (uint32_t)strtoull(r.val.c_str(), 0, 16); }
	double vp_rng_real() { double d = num("rng_real", 64); if (d < 0) d = 0; if (d >= 1) d = 0x1.fffffffffffffp-1; return d; }
	extern void VP_ENTRY();
}
#include "sched.inc"
#include <new>
static long g_live = 0; static bool g_mfail = false;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static void onM(const volatile void*, size_t) { if (!in_rt) ++g_live; } static void onF(const volatile void* p) { if (!in_rt && p) --g_live; }
extern "C" uint64_t vs_heap_live() { return __sanitizer_install_malloc_and_free_hooks ? (uint64_t)g_live : 0; }
extern "C" void vs_malloc_may_fail(int on) { g_mfail = on; }
static bool failNow() { if (!g_mfail) return false; Rec r; return take("malloc_fails", r) && strtoull(r.val.c_str(), 0, 16); }
#ifndef VP_TSAN
void* operator new(size_t n, const std::nothrow_t&) noexcept { return failNow() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return failNow() ? nullptr : malloc(n ? n : 1); }
void* operator new(size_t n) { return malloc(n ? n : 1); } void* operator new[](size_t n) { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
int main(int argc, char** argv) {
	for (int i = 2; i < argc; ++i) { if (!strcmp(argv[i], "--real")) g_real = true; else if (!strncmp(argv[i], "--jitter=", 9)) g_jitter = atof(argv[i] + 9); else if (!strncmp(argv[i], "--seed=", 7)) g_seed = atoi(argv[i] + 7); }
	FILE* f = fopen(argv[1], "r"); if (!f) return 3; char ln[4096];
	while (fgets(ln, sizeof ln, f)) {
		char n[512], k[8], v[2048]; if (sscanf(ln, "%511s %7s %2047s", n, k, v) != 3) continue;
		if (!strcmp(n, "@sched")) { g_sched.push_back(atoi(v)); continue; }
		Q[n].push_back({ k[0], v });
	}
	fclose(f); alarm(60);
	if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(onM, onF);
	VP_ENTRY(); printf("REPLAY-OK\n"); quit(0);
}
