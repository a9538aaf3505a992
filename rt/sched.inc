// Threads of the native replay.
// Default: a cooperative scheduler that hands control over exactly as the symbolic run did (g_sched).
// VP_TSAN: the same, under ThreadSanitizer, to confirm a reported data race.
#include <thread>
#include <pthread.h>
#include <set>
static std::deque<int> g_sched; static int g_hwc = 3; static bool g_fork = false;
#ifdef VP_TSAN
// the scheduler's own synchronisation is hidden from ThreadSanitizer; the modelled locks are declared to it
extern "C" { void AnnotateIgnoreSyncBegin(const char*, int); void AnnotateIgnoreSyncEnd(const char*, int); void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int); void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int); void __tsan_acquire(void*); void __tsan_release(void*); }
#define IGN_B AnnotateIgnoreSyncBegin("", 0), AnnotateIgnoreReadsBegin("", 0), AnnotateIgnoreWritesBegin("", 0)
#define IGN_E AnnotateIgnoreWritesEnd("", 0), AnnotateIgnoreReadsEnd("", 0), AnnotateIgnoreSyncEnd("", 0)
#define ACQ(p) __tsan_acquire((void*)(p))
#define REL(p) __tsan_release((void*)(p))
#else
#define IGN_B (void)0
#define IGN_E (void)0
#define ACQ(p) (void)0
#define REL(p) (void)0
#endif
namespace {
enum TS { RUN, BEX, BSH, BCV, BJOIN, DONE };
struct Th { TS ts = RUN; void *a = 0, *b = 0; int j = 0; bool timed = false, timedOut = false, sh = false; uint64_t seq = 0; };
uint64_t g_timeouts = 0, g_seq = 0; std::deque<Th> TH(1); thread_local int me = 0; int cur = 0; pthread_mutex_t gm = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t gc = PTHREAD_COND_INITIALIZER;
struct Lk { int ex = -1, sh = 0; }; std::map<void*, Lk> L;
bool canRun(int i) { Th& t = TH[i]; switch (t.ts) { case RUN: return true; case BEX: return L[t.a].ex < 0 && !L[t.a].sh; case BSH: return L[t.a].ex < 0; case BCV: return t.timed; case BJOIN: return TH[t.j].ts == DONE; default: return false; } }
void resume(int i) { cur = i; Th& t = TH[i]; if (t.ts == BCV) { t.timedOut = true; ++g_timeouts; } t.ts = RUN; pthread_cond_broadcast(&gc); }
void waitTurn() { while (cur != me) pthread_cond_wait(&gc, &gm); }
int popS() { if (g_sched.empty()) return -1; int s = g_sched.front(); g_sched.pop_front(); return s; }
void pickNext() {
	int n = (int)TH.size(); std::vector<int> r; for (int k = 1; k <= n; ++k) { int i = (cur + k) % n; if (TH[i].ts != BCV && canRun(i)) r.push_back(i); }
	if (r.empty()) { int b = -1; for (int i = 0; i < n; ++i) if (canRun(i) && (b < 0 || TH[i].seq < TH[b].seq)) b = i; if (b >= 0) r.push_back(b); }
	if (r.empty()) viol("deadlock: no thread can make progress");
	int s = popS(); bool ok = false; for (int x : r) ok |= x == s; resume(ok ? s : r[0]);
}
void block() { pickNext(); waitTurn(); }
void yield_() { if (!g_fork || TH.size() < 2) return; int s = popS(); static int same = 0, last = -1; if (s < 0) { if (last != me) same = 0; last = me; if (++same > 1000) { same = 0; for (int k = 1; k < (int)TH.size() && s < 0; ++k) { int i = (me + k) % (int)TH.size(); if (TH[i].ts == RUN) s = i; } } } if (s < 0 || s == me || s >= (int)TH.size() || !canRun(s)) return; resume(s); waitTurn(); }
struct G { G() { IGN_B; pthread_mutex_lock(&gm); } ~G() { pthread_mutex_unlock(&gm); IGN_E; } };
char g_jn[64];
void lockIt(void* p, bool sh, bool y) { for (;;) { if (y) yield_(); Lk& l = L[p]; if (l.ex == me) viol("deadlock: thread locks again a lock it holds"); if (l.ex < 0 && (sh || !l.sh)) { if (sh) l.sh++; else l.ex = me; return; } TH[me].ts = sh ? BSH : BEX; TH[me].a = p; block(); } }
void unlockIt(void* p, bool sh) { Lk& l = L[p]; if (sh ? l.sh <= 0 : l.ex != me) viol("unlock of a lock not held"); if (sh) l.sh--; else l.ex = -1; }
void wakeIt(void* cv, bool all) { for (auto& t : TH) if (t.ts == BCV && t.a == cv) { t.ts = t.sh ? BSH : BEX; t.a = t.b; if (!all) return; } }
void* tmain(void* p) { auto* a = (std::pair<int, std::thread::_State*>*)p; { G g; me = a->first; waitTurn(); } ACQ(a); a->second->_M_run(); delete a->second; REL(g_jn + me % 64); { G g; TH[me].ts = DONE; pickNext(); } return 0; }
}
extern "C" {
	void vp_srw_init(void*) {} void vp_cv_init(void*) {} void vp_yield() { G g; yield_(); }
	void vp_srw_lock_ex(void* p) { { G g; lockIt(p, false, true); } ACQ(p); ACQ((char*)p + 1); } void vp_srw_unlock_ex(void* p) { { G g; yield_(); } REL(p); { G g; unlockIt(p, false); } }
	void vp_srw_lock_sh(void* p) { { G g; lockIt(p, true, true); } ACQ(p); } void vp_srw_unlock_sh(void* p) { { G g; yield_(); } REL((char*)p + 1); { G g; unlockIt(p, true); } }
	int vp_cv_wait(void* p, void* l, unsigned ms, unsigned sh) { { G g; yield_(); } REL((char*)l + (sh ? 1 : 0)); bool ok; { G g; unlockIt(l, sh); Th& t = TH[me]; t.ts = BCV; t.a = p; t.b = l; t.timed = ms != 0xffffffffu; t.timedOut = false; t.sh = sh; t.seq = ++g_seq; block(); lockIt(l, sh, false); ok = !TH[me].timedOut; } ACQ(l); if (!sh) ACQ((char*)l + 1); return ok; }
	void vp_cv_wake_one(void* p) { G g; yield_(); wakeIt(p, false); } void vp_cv_wake_all(void* p) { G g; yield_(); wakeIt(p, true); }
	void vs_set_threads(int n) { g_hwc = n; } void vs_explore_schedules(int n) { g_fork = n != 0; } void vs_race_check(int) {}
}
unsigned std::thread::hardware_concurrency() noexcept { return g_hwc; }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(1000000 + g_timeouts * 1000000000ull)); }
void std::thread::_M_start_thread(_State_ptr st, void (*)()) {
	auto* a = new std::pair<int, std::thread::_State*>(0, st.release()); REL(a); G g; int id = (int)TH.size(); TH.emplace_back(); a->first = id; pthread_t t; pthread_create(&t, 0, tmain, a); pthread_detach(t); _M_id._M_thread = (pthread_t)(uintptr_t)(id + 1);
}
void std::thread::join() { int id = (int)(uintptr_t)_M_id._M_thread - 1; if (id < 0 || id >= (int)TH.size()) viol("join of a thread that is not joinable"); { G g; while (TH[id].ts != DONE) { TH[me].ts = BJOIN; TH[me].j = id; block(); } } ACQ(g_jn + id % 64); _M_id = std::thread::id(); }
// heap accounting and allocation failures
extern "C" { uint64_t vs_heap_live(); void vs_malloc_may_fail(int); }
