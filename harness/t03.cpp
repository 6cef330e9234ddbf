// T03: watch_dog. Its thread is the other thread: it starts anywhere after its creation, may be suspended, and ends at the latest when it is joined.
#define _GLIBCXX_THREAD_IMPL
#include "threads.h"
#include "Awl/WatchDog.h"
VFG(int, created, 0) VFG(int, ended, 0) VFG(int, joined, 0) VFG(int, logged, 0) VFG(int, alive, 0) VFG(int, seconds, 5) VFG(int, stopped, 0) VFG(int, destroying, 0)
static std::thread::_State* body;
std::thread::_State::~_State() = default;
static void other_thread() { body->_M_run(); delete body; vfg_ended = 1; vf_cover("thread ended"); }
void std::thread::_M_start_thread(_State_ptr s, void (*)()) { vf_assert(!vfg_created, "T03.one-thread", "two threads are started"); body = s.release(); _M_id = id(0x102); vfg_created = 1; vfg_gaps = 1; act("thread created"); }
void std::thread::join() { vf_assert(joinable() && !vfg_joined, "T03.join", "a thread is joined that does not run"); for (int k = 0; !vfg_ended; k++) if (k > 6 || !must_act()) deadlock("a thread is joined that never ends"); vfg_joined = 1; _M_id = id(); vf_cover("joined"); }
void std::thread::detach() { vf_assert(false, "T03.detached", "the thread is detached and outlives its data"); _M_id = id(); }
static void on_block(bool, long) { deadlock("a thread waits for ever"); }
// its first word says whether the object is constructed and not yet destroyed
struct Log
{
    int magic = 77; long pad[6] = {}; Log() { vfg_alive++; } Log(const Log&) : magic(77) { vfg_alive++; act("copying the function"); } ~Log() { vfg_alive--; magic = 0; act("the function is destroyed"); }
    void operator()() const { vf_assert(magic == 77, "T03.dead", "the thread calls a function object that is not alive"); vf_assert(vfg_now >= 1000 + vfg_seconds, "T03.early", "the time-out is reported early"); vf_assert(!vfg_logged, "T03.once", "the time-out is reported twice"); vfg_logged = 1; vf_cover("logged"); }
};
struct Small { int magic = 78; Small() {} Small(const Small&) {} ~Small() { magic = 0; act("the function is destroyed"); } void operator()() const { vf_assert(magic == 78, "T03.dead", "the thread calls a function object that is not alive"); vfg_logged = 1; } };
template <class F> static void dog(bool external, bool before = false)
{
    {
        std::stop_source user; if (before) { user.request_stop(); vfg_stopped = 1; }
        std::stop_token t; bool late = !external && vf_choice(2, "token taken");
        {
            awl::watch_dog w(external ? user.get_token() : std::stop_token(), std::chrono::seconds(vfg_seconds), F()); if (late) t = w.get_token();
            vf_assert(!vfg_stopped || w.get_token().stop_requested(), "T03.stop", "a stop of the user's token is not passed on");
            if (external && !vfg_stopped && vf_choice(2, "stopped")) { user.request_stop(); vfg_stopped = 1; vf_assert(w.get_token().stop_requested(), "T03.stop", "a stop of the user's token is not passed on"); vf_cover("stopped"); }
            act("before destruction"); if (vfg_ended && !vfg_stopped) vf_assert(vfg_logged, "T03.reported", "the time-out has elapsed and is not reported"); if (vfg_now >= 1000 + vfg_seconds && vfg_ended) { vf_assert(w.get_token().stop_requested(), "T03.stop", "the time-out does not request stop"); vf_cover("timed out"); }
            vfg_quiet = 1; vf_assert(vfg_stopped || vfg_now >= 1000 + vfg_seconds || !w.get_token().stop_requested(), "T03.early", "stop is requested although nothing happened"); vfg_quiet = 0;
            vfg_destroying = 1;
        }
        vf_assert(vfg_created && vfg_joined, "T03.join", "the object is destroyed while its thread runs"); if (late) t.stop_requested();
    }
    vf_assert(held() == 0, "T03.balanced", "a mutex is left locked"); vf_assert(vfg_alive == 0, "T03.dead", "a function object is not destroyed"); vf_cover("destroyed");
}
extern "C" void vfh_dog() { dog<Log>(false); }
extern "C" void vfh_dog_stop() { vfg_resumes = 1; dog<Small>(true); }
extern "C" void vfh_dog_stopped() { vfg_resumes = 1; dog<Log>(true, true); }
extern "C" void vfh_dog_small() { dog<Small>(false); }
// the mistake: a thread declared before the data that it uses
struct Bad { std::jthread thread; Log log; Bad() : thread([this] { log(); }) {} };
extern "C" void vfh_ctl_order() { vfg_seconds = 0; Bad b; }
struct Bad2 { Log* log; std::jthread thread; Bad2() : log(new Log), thread([this] { (*log)(); }) {} ~Bad2() { delete log; } };
extern "C" void vfh_ctl_freed() { vfg_seconds = 0; Bad2 b; }
