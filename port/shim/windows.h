// Stand-in for the handful of Win32 primitives nntl uses. vp_* are the environment: modelled by the symbolic engine,
// implemented over pthreads for native replay.
#pragma once
#include <pthread.h>
typedef int BOOL; typedef unsigned long DWORD; typedef void* HANDLE;
#define TRUE 1
#define FALSE 0
#define INFINITE 0xFFFFFFFFul
struct SRWLOCK { void* Ptr; };
#define SRWLOCK_INIT SRWLOCK{nullptr}
typedef SRWLOCK* PSRWLOCK;
struct CONDITION_VARIABLE { void* Ptr; };
#define CONDITION_VARIABLE_INIT {nullptr}
#define CONDITION_VARIABLE_LOCKMODE_SHARED 1
extern "C" {
void vp_srw_init(SRWLOCK*); void vp_srw_lock_ex(SRWLOCK*); void vp_srw_unlock_ex(SRWLOCK*);
void vp_srw_lock_sh(SRWLOCK*); void vp_srw_unlock_sh(SRWLOCK*);
void vp_cv_init(CONDITION_VARIABLE*); int vp_cv_wait(CONDITION_VARIABLE*, SRWLOCK*, unsigned ms, unsigned shared);
void vp_cv_wake_one(CONDITION_VARIABLE*); void vp_cv_wake_all(CONDITION_VARIABLE*);
}
static inline void InitializeSRWLock(SRWLOCK* l) { vp_srw_init(l); }
static inline void AcquireSRWLockExclusive(SRWLOCK* l) { vp_srw_lock_ex(l); }
static inline void ReleaseSRWLockExclusive(SRWLOCK* l) { vp_srw_unlock_ex(l); }
static inline void AcquireSRWLockShared(SRWLOCK* l) { vp_srw_lock_sh(l); }
static inline void ReleaseSRWLockShared(SRWLOCK* l) { vp_srw_unlock_sh(l); }
static inline void InitializeConditionVariable(CONDITION_VARIABLE* c) { vp_cv_init(c); }
static inline BOOL SleepConditionVariableSRW(CONDITION_VARIABLE* c, SRWLOCK* l, DWORD ms, unsigned long fl) { return vp_cv_wait(c, l, (unsigned)ms, (unsigned)fl); }
static inline void WakeConditionVariable(CONDITION_VARIABLE* c) { vp_cv_wake_one(c); }
static inline void WakeAllConditionVariable(CONDITION_VARIABLE* c) { vp_cv_wake_all(c); }
#define THREAD_PRIORITY_NORMAL 0
#define THREAD_PRIORITY_ABOVE_NORMAL 1
#define THREAD_PRIORITY_HIGHEST 2
#define THREAD_PRIORITY_BELOW_NORMAL (-1)
#define THREAD_PRIORITY_TIME_CRITICAL 15
#define THREAD_PRIORITY_ERROR_RETURN 0x7fffffff
#define NORMAL_PRIORITY_CLASS 0x20
#define ABOVE_NORMAL_PRIORITY_CLASS 0x8000
#define HIGH_PRIORITY_CLASS 0x80
#define REALTIME_PRIORITY_CLASS 0x100
static inline unsigned long GetCurrentThread() { return 0; }
static inline unsigned long GetCurrentProcess() { return 0; }
static inline BOOL SetThreadPriority(unsigned long, int) { return 1; }
static inline int GetThreadPriority(unsigned long) { return 0; }
static inline BOOL SetThreadPriorityBoost(unsigned long, BOOL) { return 1; }
static inline BOOL SetPriorityClass(unsigned long, DWORD) { return 1; }
static inline DWORD GetPriorityClass(unsigned long) { return NORMAL_PRIORITY_CLASS; }
