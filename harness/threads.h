// Two threads. Thread 1 is the analysed call chain; the other one (thread 2) runs the harness' other_thread() and may start wherever thread 1 synchronises
// (locks, atomic operations, waits), may be suspended at its own synchronisation points, and continues when thread 1 lets it or has to wait for it.
#pragma once
#include "vf.h"
#include <condition_variable>
#include <mutex>
#include <thread>
#include <chrono>
#include <pthread.h>
VFG(int, thread, 1) VFG(int, owned, 0) VFG(int, gaps, 0) VFG(int, switches, 1) VFG(int, resumes, 3) VFG(long, now, 1000) VFG(int, spurious, 0) VFG(int, spins, 0) VFG(int, quiet, 0) VFG(int, timeout2, 0)
enum { MAXM = 8, CANT = 0, MUTEX = 1, CV = 2, SPIN = 3, TIMED = 4 };
extern "C" { void* vfg_mutex[MAXM]; int vfg_owner[MAXM]; void* vfg_cvs[4]; int vfg_notified[4]; int vfg_waitby[4]; int vfg_block[4]; void* vfg_blockon[4]; int vfg_mine[4]; }
static void other_thread(); // what the other thread does
static void on_block(bool timed, long deadline); // thread 1 blocks, nothing has notified it and the other thread cannot act
static void other_main() { other_thread(); vfg_thread = 1; }
static int midx(void* m) { for (int i = 0; i < MAXM; i++) if (vfg_mutex[i] == m) return i; for (int i = 0; i < MAXM; i++) if (!vfg_mutex[i]) { vfg_mutex[i] = m; vfg_owner[i] = 0; return i; } vf_assume(false); return 0; }
static bool is_free(void* m) { for (int i = 0; i < MAXM; i++) if (vfg_mutex[i] == m) return vfg_owner[i] == 0; return true; }
static bool runnable() { int t = 2; if (!vf_parked()) return false; switch (vfg_block[t]) { case MUTEX: return is_free(vfg_blockon[t]); case CV: case TIMED: return vfg_notified[t]; default: return true; } }
static void suspend() { vfg_thread = 1; vf_park(); vfg_thread = 2; }
static void resume_other() { vfg_thread = 2; vf_resume(); vfg_thread = 1; }
static void start_other() { vfg_gaps--; vfg_thread = 2; vf_spawn(other_main); vfg_thread = 1; }
// a point where the other thread may run
static void act(const char* where)
{
    if (vfg_quiet) return;
    if (vfg_thread != 1) { if (vfg_switches > 0 && vf_choice(2, "other thread is suspended")) { vfg_switches--; vfg_block[2] = CANT; suspend(); } return; }
    if (vf_parked()) { if (vfg_resumes > 0 && runnable() && vf_choice(2, "other thread continues")) { vfg_resumes--; resume_other(); } }
    else if (vfg_gaps > 0 && vf_choice(2, "other thread starts")) start_other();
}
// thread 1 cannot go on by itself: the other thread must act. false: it cannot either
static bool must_act() { if (vf_parked()) { if (!runnable()) { if (vfg_block[2] != TIMED) return false; vfg_timeout2 = 1; } resume_other(); return true; } if (vfg_gaps > 0) { start_other(); return true; } return false; }
static void deadlock(const char* what) { vf_assert(false, "threads.deadlock", what); vf_assume(false); }
// the other thread runs to its end
static void finish() { while (vf_parked()) { if (!must_act() || ++vfg_spins > 12) deadlock("the other thread waits for ever"); } }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    act("lock"); volatile char t = *(volatile char*)m; (void)t; int i = midx(m);
    if (vfg_owner[i] == vfg_thread) deadlock("a thread locks a mutex that it already holds");
    if (vfg_thread == 1) { for (int k = 0; vfg_owner[i]; k++) { vf_cover("thread 1 waits"); if (k > 3 || !must_act()) deadlock("a thread waits for a mutex that is never released"); i = midx(m); } }
    else while (vfg_owner[i]) { vf_cover("other thread waits"); vfg_block[2] = MUTEX; vfg_blockon[2] = m; suspend(); vfg_block[2] = CANT; i = midx(m); }
    vfg_owner[i] = vfg_thread; vfg_mine[vfg_thread]++; return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { volatile char t = *(volatile char*)m; (void)t; int i = midx(m); vf_assert(vfg_owner[i] == vfg_thread, "threads.unlock", "a thread releases a mutex that it does not hold"); vfg_owner[i] = 0; vfg_mine[vfg_thread]--; vfg_mutex[i] = nullptr; act("unlock"); return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { act("trylock"); int i = midx(m); if (vfg_owner[i]) return 16; vfg_owner[i] = vfg_thread; vfg_mine[vfg_thread]++; return 0; }
extern "C" int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
extern "C" int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
extern "C" int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
extern "C" int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
extern "C" pthread_t pthread_self() noexcept { return 0x100 + vfg_thread; }
extern "C" { char __libc_single_threaded = 0; }
// spinning and sleeping in the kernel: only the other thread can end it
static void wait_other() { if (vfg_thread != 1) { vf_cover("other thread waits"); vfg_block[2] = SPIN; suspend(); vfg_block[2] = CANT; return; } vf_cover("thread 1 waits"); if (++vfg_spins > 8 || !must_act()) deadlock("a thread waits for an event that never happens"); }
extern "C" int sched_yield() noexcept { wait_other(); return 0; }
extern "C" long vf_futex(long, void*, int op) noexcept asm("syscall");
extern "C" long vf_futex(long, void*, int op) noexcept { if ((op & 127) == 0) wait_other(); return 0; }
static int held() { return vfg_mine[1]; }
// releasing the mutex and starting to wait are one step; before it the other thread may act although the mutex is held
static bool wait_on(void* cv, void* mutex, bool timed, long deadline)
{
    act("before the wait"); int i = midx(mutex), w = vfg_thread; vf_assert(vfg_owner[i] == w, "threads.unlock", "a thread waits with a mutex that it does not hold");
    vfg_cvs[w] = cv; vfg_notified[w] = 0; vfg_waitby[w] = 1; vfg_owner[i] = 0; vfg_mine[w]--; vfg_mutex[i] = nullptr; bool timeout = false;
    if (w == 1)
    {
#ifdef VF_ON_WAIT
        VF_ON_WAIT();
#endif
        act("while waiting");
        if (!vfg_notified[1] && vfg_spurious > 0 && vf_choice(2, "spurious wakeup")) { vfg_spurious--; if (timed) vfg_now++; }
        else if (!vfg_notified[1]) { if (timed && vf_choice(2, "timed out")) timeout = true; else for (int k = 0; !vfg_notified[1]; k++) if (k > 4 || !must_act()) { on_block(timed, deadline); if (!timed) { vf_cover("waits forever"); vf_assume(false); } timeout = true; break; } }
    }
    else if (timed && vf_choice(2, "other times out")) timeout = true;
    else while (!vfg_notified[2]) { vfg_block[2] = timed ? TIMED : CV; suspend(); vfg_block[2] = CANT; if (vfg_timeout2 && !vfg_notified[2]) { timeout = true; break; } } vfg_timeout2 = 0;
    if (timeout) { if (vfg_now < deadline) vfg_now = deadline; vf_cover("timed out"); }
    vfg_waitby[w] = 0; vfg_cvs[w] = nullptr; vfg_notified[w] = 0; pthread_mutex_lock((pthread_mutex_t*)mutex); return timeout;
}
static void notify(void* cv, bool all) { volatile char c = *(volatile char*)cv; (void)c; for (int w = 1; w < 4; w++) if (vfg_waitby[w] && vfg_cvs[w] == cv && !vfg_notified[w]) { vfg_notified[w] = 1; if (!all) return; } }
std::condition_variable::condition_variable() noexcept { *(volatile char*)this = 0; }
std::condition_variable::~condition_variable() noexcept { for (int w = 1; w < 4; w++) vf_assert(!vfg_waitby[w] || vfg_cvs[w] != this, "threads.lifetime", "a condition variable is destroyed while a thread waits on it"); }
void std::condition_variable::notify_one() noexcept { act("notify"); notify(this, false); }
void std::condition_variable::notify_all() noexcept { act("notify"); notify(this, true); }
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) { wait_on(this, l.mutex()->native_handle(), false, 0); }
// times are whole seconds of one clock
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return wait_on(c, m, true, t->tv_sec) ? 110 : 0; }
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return wait_on(c, m, true, t->tv_sec) ? 110 : 0; }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::seconds(vfg_now)); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::seconds(vfg_now)); }
extern "C" void vfx_atomic() { act("atomic operation"); }
#ifdef VF_SPIN_WAITS
extern "C" void vfx_spin() { wait_other(); }
#else
extern "C" void vfx_spin() { }
#endif
