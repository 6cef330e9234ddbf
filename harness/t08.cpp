// T08: the time queue.
#include "vf.h"
#include <coroutine>
#include <exception>
#include <cerrno>
#include <time.h>
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Testing/TimeQueue.h"
// ---- the clock: every look at it takes a nanosecond, a sleep takes at least what was asked ----
VFG(long, now, 1000) VFG(int, late, 0) VFG(int, slept, 0)
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { vfg_now += 1; return time_point(std::chrono::nanoseconds(vfg_now)); }
extern "C" int nanosleep(const struct timespec* t, struct timespec*) { vf_assert(t->tv_sec >= 0 && t->tv_nsec >= 0, "T08.sleep", "a negative time is slept"); vfg_slept = 1; vfg_now += t->tv_sec * 1000000000L + t->tv_nsec + (vfg_late ? 40 : 0); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec* r) { return nanosleep(t, r); }

using awl::testing::TimeQueue; using awl::testing::TimeAwaitable; using std::chrono::nanoseconds;
enum { N = 3 };
extern "C" { int vfg_resumed[N] = {}; long vfg_due[N] = {}; int vfg_waiting[N] = {}; int vfg_alive[N] = {}; }
VFG(long, last, 0) VFG(int, order, 1)
struct Res { int id; Res(int i) : id(i) { vfg_alive[i]++; } ~Res() { vfg_alive[id]--; } };
// the one that resumes: due, the earliest of those that wait, and only once for each wait
static void resumed(int id, long d)
{
    vf_assert(vfg_waiting[id] == (d > 0), "T08.once", "a coroutine is resumed that does not wait"); vfg_waiting[id] = 0; vfg_resumed[id]++;
    vf_assert(vfg_now >= vfg_due[id], "T08.not-early", "a coroutine is resumed before its time has passed");
    if (d > 0) for (int k = 0; k < N; k++) vf_assert(!vfg_waiting[k] || vfg_due[k] >= vfg_due[id], "T08.order", "a coroutine is resumed although another one, due earlier, still waits");
}
static awl::ProcessTask<int> waits(TimeQueue& q, int id, long d, long again, bool fail)
{
    Res r(id); vfg_due[id] = vfg_now + d; vfg_waiting[id] = d > 0; co_await TimeAwaitable(q, nanoseconds(d)); resumed(id, d);
    if (again >= 0) { vfg_due[id] = vfg_now + again; vfg_waiting[id] = again > 0; co_await TimeAwaitable(q, nanoseconds(again)); resumed(id, again); }
    if (fail) throw id; co_return id * 10;
}
static long duration(const char* l) { static const long d[] = {0, 30, 90, 60}; return d[vf_choice(4, l)]; }
static void several(int n, bool twice)
{
    vfg_late = vf_choice(2, "sleeps last longer");
    {
        TimeQueue q; awl::ProcessTask<int> t[N]; int again = twice ? vf_choice(n, "which one waits again") : -1; bool fails = vf_choice(2, "the first one fails");
        for (int i = 0; i < n; i++) t[i] = waits(q, i, duration("time"), i == again ? duration("second time") : -1, fails && i == 0);
        q.loop();
        for (int i = 0; i < n; i++) { vf_assert(vfg_resumed[i] == 1 + (i == again) && !vfg_waiting[i], "T08.once", "a coroutine still waits after the queue has been worked off, or was resumed twice"); int v = -1; bool f = false; try { v = t[i].get(); } catch (int) { f = true; } vf_assert(f == (fails && i == 0) && (f || v == i * 10), "T08.result", "a result is lost"); }
        int before = vfg_slept; vfg_slept = 0; q.loop(); vf_assert(!vfg_slept, "T08.empty", "an empty queue sleeps"); (void)before;
    }
    for (int i = 0; i < n; i++) vf_assert(vfg_alive[i] == 0, "T08.frame", "a coroutine frame is left behind");
    vf_cover("worked off");
}
extern "C" void vfh_three() { several(3, false); }
extern "C" void vfh_again() { several(2, true); }
// through the operator and the common queue
static awl::ProcessTask<int> common(int id, long d) { using awl::testing::operator co_await; Res r(id); vfg_due[id] = vfg_now + d; vfg_waiting[id] = d > 0; co_await nanoseconds(d); resumed(id, d); co_return id; }
extern "C" void vfh_common()
{
    { auto a = common(0, duration("time")), b = common(1, duration("time")); awl::testing::timeQueue.loop(); vf_assert(vfg_resumed[0] == 1 && vfg_resumed[1] == 1, "T08.once", "a coroutine still waits after the queue has been worked off, or was resumed twice"); vf_assert(a.get() == 0 && b.get() == 1, "T08.result", "a result is lost"); }
    vf_cover("worked off");
}
extern "C" void vfh_ctl_early() { TimeQueue q; vfg_due[0] = vfg_now + 90; vfg_waiting[0] = 1; resumed(0, 90); }
