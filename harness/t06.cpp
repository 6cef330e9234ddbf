// T06: interruptible condition waits. The other thread notifies, changes the condition under the caller's lock, or requests stop, between any two steps of the waiting thread.
#define VF_SPIN_WAITS
static void waiting();
#define VF_ON_WAIT waiting
#include "threads.h"
#include <memory>
#include "stop_token.hpp"
#include "condition_variable_any2.hpp"
VFG(int, user, 0) VFG(int, flag, 0) VFG(int, signalled, 0) VFG(int, requested, 0) VFG(int, timeouts, 0) VFG(int, last, -1) VFG(int, throwing, 0) VFG(int, evaluations, 0) VFG(int, deadline, 0) VFG(int, held_notify, 0) VFG(int, all, 0) VFG(int, destroys, 0) VFG(int, waits, 0) VFG(int, fresh, 0) VFG(int, expired, 0)
// the caller's lock
struct Lock
{
    std::mutex m; void lock() { m.lock(); vf_assert(!vfg_user, "T06.balanced", "the lock is taken twice"); vfg_user = vfg_thread; }
    void unlock() { vf_assert(vfg_user == vfg_thread, "T06.balanced", "the caller's lock is released although it is not held"); vfg_user = 0; m.unlock(); }
};
static Lock* mutex; static std::condition_variable_any2* cv; static std::stop_source* source; static void (*other)();
static void other_thread() { other(); }
static void waiting() { vf_assert(vfg_user != 1, "T06.released", "the caller's lock is held while the thread is blocked"); vfg_waits++; vfg_fresh = 0; if (vfg_deadline && vfg_now >= vfg_deadline) vf_assert(++vfg_expired < 3, "T06.deadline", "the wait does not end at its time"); vf_cover("waits"); }
static void on_block(bool timed, long deadline)
{
    vf_assert(vfg_user != 1, "T06.released", "the caller's lock is held while the thread is blocked"); vf_assert(vfg_requested == 0, "T06.stop-missed", "a thread blocks although stop was requested"); vf_assert(vfg_signalled < 2, "T06.notify-missed", "a thread blocks although it was notified"); if (!timed) return; vf_assert(deadline == vfg_deadline, "T06.deadline", "the wait does not end at its time"); vf_cover("waits to its end");
}
static bool pred() { vf_assert(vfg_user == vfg_thread, "T06.predicate-locked", "the predicate is evaluated without the caller's lock"); act("in the predicate"); vfg_evaluations++; if (vfg_throwing == vfg_evaluations) { vf_cover("predicate throws"); throw 5; } vfg_last = vfg_flag; vfg_fresh = 1; return vfg_flag; }
static void signals()
{
    mutex->lock(); vfg_flag = 1; vfg_signalled = 1; if (!vfg_held_notify) mutex->unlock(); if (vfg_all) cv->notify_all(); else cv->notify_one(); vfg_signalled = 2; if (vfg_held_notify) mutex->unlock(); vf_cover("notified"); if (vfg_destroys) { delete cv; vf_cover("destroyed early"); }
}
static void notifies_only() { mutex->lock(); mutex->unlock(); if (vfg_all) cv->notify_all(); else cv->notify_one(); vfg_signalled = 2; }
static void stops() { vfg_requested = 1; if (vfg_held_notify) mutex->lock(); source->request_stop(); vfg_requested = 2; if (vfg_held_notify) mutex->unlock(); vf_cover("stopped"); }
static void balanced() { vf_assert(vfg_user == 1 && held() == 1, "T06.balanced", "the caller's lock is not held exactly as on entry"); }
static void setup(std::stop_source& s, Lock& m, bool other_too = true) { source = &s; mutex = &m; m.lock(); if (other_too) { vfg_gaps = 1; if (other != stops && vf_choice(2, "notifies all")) vfg_all = 1; else vfg_held_notify = vf_choice(2, "notifies under the lock"); } }
static void tear(Lock& m) { balanced(); m.unlock(); vfg_gaps = 0; finish(); vf_assert(held() == 0, "T06.balanced", "a mutex is left locked"); vf_cover("returned"); }
using Secs = std::chrono::seconds;
#ifdef VF_DEEP
#define MODES(timed) vf_choice(4, "0 plain 1 spurious wakeup 2 throws at once 3 throws later")
enum { RESUMES = 2 };
#else
#define MODES(timed) (timed ? vf_choice(3, "0 plain 1 spurious wakeup 2 throws later") : vf_choice(4, "0 plain 1 spurious wakeup 2 throws at once 3 throws later"))
enum { RESUMES = 1 };
#endif
// result of a wait with a predicate
static void outcome(bool r, bool stoppable, bool timed)
{
    vf_assert(vfg_fresh, "T06.result", "a wait returns without having looked at the predicate again"); vf_assert(r == (vfg_last == 1), "T06.result", "the result is not the last value of the predicate"); vf_assert(r || (stoppable && vfg_requested) || (timed && vfg_now >= vfg_deadline), "T06.gives-up", "a wait gives up although nobody asked for it"); if (r) vf_cover("satisfied"); else if (vfg_requested) vf_cover("interrupted"); else vf_cover("timed out");
}
template <class F> static void waits(bool stoppable, bool timed, void (*what)(), F f)
{
    {
        std::stop_source s; Lock m; cv = new std::condition_variable_any2; other = what; vfg_deadline = timed ? 1005 : 0; setup(s, m); bool threw = false; vfg_resumes = vfg_switches = RESUMES; int mode = MODES(timed); if (mode < 2) vfg_spurious = mode; else vfg_throwing = timed && mode == 2 ? 2 : mode - 1;
        try { bool r = f(m, s.get_token()); outcome(r, stoppable, timed); } catch (int e) { threw = true; vf_assert(e == 5, "T06.result", "another exception arrives"); } vf_assert(threw == (vfg_throwing && vfg_evaluations >= vfg_throwing), "T06.result", "the exception of the predicate is lost"); tear(m); delete cv;
    }
}
extern "C" void vfh_wait_pred() { waits(false, false, signals, [](Lock& m, std::stop_token) { cv->wait(m, pred); return true; }); }
extern "C" void vfh_wait_stop_signal() { waits(true, false, signals, [](Lock& m, std::stop_token t) { return cv->wait(m, t, pred); }); }
extern "C" void vfh_wait_stop() { waits(true, false, stops, [](Lock& m, std::stop_token t) { return cv->wait(m, t, pred); }); }
extern "C" void vfh_until_pred() { waits(false, true, signals, [](Lock& m, std::stop_token) { return cv->wait_until(m, std::chrono::steady_clock::now() + Secs(5), pred); }); }
extern "C" void vfh_until_stop() { waits(true, true, stops, [](Lock& m, std::stop_token t) { return cv->wait_until(m, t, std::chrono::steady_clock::now() + Secs(5), pred); }); }
extern "C" void vfh_until_stop_signal() { waits(true, true, signals, [](Lock& m, std::stop_token t) { return cv->wait_until(m, t, std::chrono::system_clock::now() + Secs(5), pred); }); }
extern "C" void vfh_for_pred() { waits(false, true, signals, [](Lock& m, std::stop_token) { return cv->wait_for(m, Secs(5), pred); }); }
extern "C" void vfh_for_stop() { waits(true, true, stops, [](Lock& m, std::stop_token t) { return cv->wait_for(m, t, Secs(5), pred); }); }
extern "C" void vfh_for_stop_signal() { waits(true, true, signals, [](Lock& m, std::stop_token t) { return cv->wait_for(m, t, Secs(5), pred); }); }
// stop was requested before the wait
extern "C" void vfh_stopped_before() { std::stop_source s; Lock m; std::condition_variable_any2 c; setup(s, m, false); s.request_stop(); vfg_requested = 2; vfg_deadline = 1005; vfg_flag = vf_choice(2, "satisfied"); int k = vf_choice(3, "wait"); bool r = k == 0 ? c.wait(m, s.get_token(), pred) : k == 1 ? c.wait_until(m, s.get_token(), std::chrono::steady_clock::now() + Secs(5), pred) : c.wait_for(m, s.get_token(), Secs(5), pred); vf_assert(vfg_waits == 0 && vfg_now == 1000, "T06.stop-missed", "a thread blocks although stop was requested"); outcome(r, true, true); tear(m); }
// a token that can never be stopped
extern "C" void vfh_no_source() { std::stop_source s; Lock m; std::condition_variable_any2 c; setup(s, m, false); vfg_deadline = 1005; bool r = vf_choice(2, "for") ? c.wait_for(m, std::stop_token(), Secs(5), pred) : c.wait_until(m, std::stop_token(), std::chrono::steady_clock::now() + Secs(5), pred); vf_assert(!r && vfg_now == 1005, "T06.gives-up", "a wait gives up although nobody asked for it"); tear(m); }
// waits without a predicate
template <class F> static void plain(bool timed, void (*what)(), F f)
{
    {
        std::stop_source s; Lock m; cv = new std::condition_variable_any2; other = what; vfg_deadline = timed ? 1005 : 0; setup(s, m); vfg_spurious = vf_choice(2, "spurious"); while (!vfg_flag) { if (f(m)) { vf_assert(timed && vfg_now >= vfg_deadline, "T06.gives-up", "a wait gives up although nobody asked for it"); break; } balanced(); if (vfg_signalled == 2) break; } tear(m); delete cv;
    }
}
extern "C" void vfh_wait() { plain(false, signals, [](Lock& m) { cv->wait(m); return false; }); }
extern "C" void vfh_until() { plain(true, signals, [](Lock& m) { return cv->wait_until(m, std::chrono::steady_clock::time_point(Secs(1005))) == std::cv_status::timeout; }); }
extern "C" void vfh_for() { std::stop_source s; Lock m; std::condition_variable_any2 c; cv = &c; other = signals; vfg_deadline = 1005; setup(s, m); if (!vfg_flag) { bool t = c.wait_for(m, Secs(5)) == std::cv_status::timeout; vf_assert(!t || vfg_now >= 1005, "T06.gives-up", "a wait gives up although nobody asked for it"); } tear(m); }
// the condition variable is destroyed after the notification, before the waiting thread has returned
extern "C" void vfh_destroyed() { std::stop_source s; Lock m; cv = new std::condition_variable_any2; other = signals; vfg_destroys = 1; setup(s, m); int k = vf_choice(4, "wait"); vfg_deadline = 1005; if (!vfg_flag) { if (k == 0) cv->wait(m); else if (k == 1) cv->wait(m, pred); else if (k == 2) { vfg_timeouts = 1; vf_assume(cv->wait_until(m, std::chrono::steady_clock::time_point(Secs(1005))) == std::cv_status::no_timeout); } else cv->wait(m, s.get_token(), pred); } bool d = vfg_gaps == 0; tear(m); if (!d) delete cv; }
// the other thread waits, this one notifies
static void other_waits() { mutex->lock(); while (!vfg_flag) cv->wait(*mutex); vf_assert(vfg_user == 2, "T06.balanced", "the caller's lock is not held exactly as on entry"); mutex->unlock(); vf_cover("other woken"); }
extern "C" void vfh_notify()
{
    {
        std::stop_source s; Lock m; std::condition_variable_any2 c; cv = &c; mutex = &m; other = other_waits; vfg_gaps = 1; vfg_switches = 0; act("other waits"); vf_assume(vfg_gaps == 0); vf_assert(vfg_waitby[2], "T06.released", "a waiting thread does not wait"); vfg_gaps = 0; vfg_quiet = 1; vfg_waitby[3] = 1; vfg_cvs[3] = vfg_cvs[2]; vfg_notified[3] = 0; m.lock(); vfg_flag = 1; m.unlock();
        bool all = vf_choice(2, "all"); if (all) c.notify_all(); else c.notify_one(); vf_assert(vfg_notified[2] + vfg_notified[3] == (all ? 2 : 1), "T06.notify", "a notification reaches the wrong number of threads"); if (!vfg_notified[2]) c.notify_one(); vf_assert(vfg_notified[2] && (!all || vfg_notified[3]), "T06.notify", "a notification reaches the wrong number of threads"); vfg_waitby[3] = 0; vfg_quiet = 0; finish(); vf_cover("notified all");
    }
}
// controls: the classic mistakes
struct Bad { std::mutex m; std::condition_variable c; template <class P> void wait(Lock& l, std::stop_token t, P p) { std::stop_callback cb(t, [this] { c.notify_all(); }); while (!p()) { if (t.stop_requested()) return; std::unique_lock<std::mutex> g(m); l.unlock(); c.wait(g); g.unlock(); l.lock(); } } };
extern "C" void vfh_ctl_missed() { std::stop_source s; Lock m; other = stops; setup(s, m); Bad b; b.wait(m, s.get_token(), pred); }
struct Held { std::mutex m; std::condition_variable c; void wait(Lock& l) { std::unique_lock<std::mutex> g(m); l.unlock(); c.wait(g); l.lock(); } void notify() { std::lock_guard<std::mutex> g(m); c.notify_one(); } };
static Held* held_cv; extern "C" void vfh_ctl_deadlock() { std::stop_source s; Lock m; Held h; vfg_spurious = 1; held_cv = &h; other = [] { mutex->lock(); held_cv->notify(); mutex->unlock(); }; setup(s, m); h.wait(m); vfg_gaps = 0; finish(); }
extern "C" void vfh_ctl_balance() { std::stop_source s; Lock m; setup(s, m, false); m.unlock(); balanced(); }
