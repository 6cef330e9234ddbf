// T02: interruptible sleep. The requester may act, and be suspended, between any two steps of the sleeper.
#include "threads.h"
#include "Awl/Sleep.h"
VFG(int, requested, 0) VFG(int, start, 0) VFG(int, length, 5)
static std::stop_source* source;
static void other_thread() { vfg_requested = 1; source->request_stop(); vfg_requested = 2; vf_cover("requested"); }
static void on_block(bool timed, long deadline)
{
    vf_assert(!vfg_requested, "T02.missed", "the sleeper goes on sleeping although stop has been requested"); vf_assert(timed, "T02.forever", "the sleep has no end"); vf_cover("sleeps");
    vf_assert(deadline == 1000 + vfg_length, "T02.duration", "the sleep does not end when its time has elapsed");
}
static void check() { vf_assert(held() == 0, "T02.balanced", "a mutex is left locked"); vf_assert(vfg_requested || vfg_now >= 1000 + vfg_length, "T02.early", "the sleep ends early although no stop was requested"); vf_cover("returned"); }
extern "C" void vfh_sleep() { std::stop_source s; source = &s; std::stop_token t = s.get_token(); vfg_gaps = 1; vfg_spurious = 1; awl::sleep_for(std::chrono::seconds(5), t); vfg_gaps = 0; check(); finish(); vf_cover("finished"); }
extern "C" void vfh_already() { std::stop_source s; source = &s; s.request_stop(); vfg_requested = 1; awl::sleep_for(std::chrono::seconds(5), s.get_token()); check(); vf_assert(vfg_now == 1000, "T02.missed", "the sleep lasts although stop was requested before it"); }
extern "C" void vfh_no_state() { std::stop_token t; vfg_spurious = 2; awl::sleep_for(std::chrono::seconds(5), t); check(); vf_assert(!t.stop_requested(), "T02.early", "?"); }
extern "C" void vfh_no_source() { std::stop_token t; { std::stop_source s; t = s.get_token(); } vfg_spurious = 1; awl::sleep_for(std::chrono::seconds(5), t); check(); }
extern "C" void vfh_millis() { std::stop_token t; vfg_length = 7; awl::sleep_for(std::chrono::milliseconds(7000), t); check(); }
// the classic mistakes: nothing wakes the sleeper; the callback waits for a lock that is held while the callback is awaited
extern "C" void vfh_ctl_missed() { std::stop_source s; source = &s; std::stop_token t = s.get_token(); vfg_gaps = 1; std::mutex m; std::condition_variable cv; std::unique_lock<std::mutex> l(m); if (!t.stop_requested()) cv.wait_for(l, std::chrono::seconds(5)); vfg_gaps = 0; }
extern "C" void vfh_ctl_deadlock() { std::stop_source s; source = &s; std::stop_token t = s.get_token(); vfg_gaps = 1; std::mutex m; std::unique_lock<std::mutex> l(m); std::stop_callback cb(t, [&m]{ std::lock_guard<std::mutex> g(m); }); }
