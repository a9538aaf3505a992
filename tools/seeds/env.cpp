// Win32 slim locks / condition variables over one pthread mutex, a naive CBLAS and a PRNG: the environment of the demonstrations.
#include <pthread.h>
#include <stdint.h>
#include <stddef.h>
#include <time.h>
#include <map>
struct SRWLOCK { void* Ptr; }; struct CONDITION_VARIABLE { void* Ptr; };
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t LC = PTHREAD_COND_INITIALIZER;
struct LS { int readers = 0; bool writer = false; }; struct CS { uint64_t seq = 0; uint64_t tickets = 0; pthread_cond_t c = PTHREAD_COND_INITIALIZER; };
static LS& L(SRWLOCK* l) { if (!l->Ptr) l->Ptr = new LS; return *(LS*)l->Ptr; }
static CS& C(CONDITION_VARIABLE* l) { if (!l->Ptr) l->Ptr = new CS; return *(CS*)l->Ptr; }
static void lk(SRWLOCK* l, bool sh) { LS& s = L(l); while (s.writer || (!sh && s.readers)) pthread_cond_wait(&LC, &G); if (sh) ++s.readers; else s.writer = true; }
static void ulk(SRWLOCK* l, bool sh) { LS& s = L(l); if (sh) --s.readers; else s.writer = false; pthread_cond_broadcast(&LC); }
struct GL { GL() { pthread_mutex_lock(&G); } ~GL() { pthread_mutex_unlock(&G); } };
extern "C" {
void vp_srw_init(SRWLOCK* l) { GL g; l->Ptr = nullptr; }
void vp_srw_lock_ex(SRWLOCK* l) { GL g; lk(l, false); } void vp_srw_unlock_ex(SRWLOCK* l) { GL g; ulk(l, false); }
void vp_srw_lock_sh(SRWLOCK* l) { GL g; lk(l, true); } void vp_srw_unlock_sh(SRWLOCK* l) { GL g; ulk(l, true); }
void vp_cv_init(CONDITION_VARIABLE* c) { GL g; c->Ptr = nullptr; }
int vp_cv_wait(CONDITION_VARIABLE* c, SRWLOCK* l, unsigned ms, unsigned shared) { GL g; CS& s = C(c); ulk(l, shared & 1); int ok = 1; if (ms == 0xffffffffu) pthread_cond_wait(&s.c, &G); else { timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += (ms % 1000) * 1000000l; t.tv_sec += ms / 1000 + t.tv_nsec / 1000000000l; t.tv_nsec %= 1000000000l; ok = pthread_cond_timedwait(&s.c, &G, &t) == 0; } lk(l, shared & 1); return ok; }
void vp_cv_wake_one(CONDITION_VARIABLE* c) { GL g; pthread_cond_signal(&C(c).c); }
void vp_cv_wake_all(CONDITION_VARIABLE* c) { GL g; pthread_cond_broadcast(&C(c).c); }
static uint64_t rs = 88172645463325252ull;
uint32_t vp_rng_bits() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
double vp_rng_real() { return vp_rng_bits() / 4294967296.0; }
}
