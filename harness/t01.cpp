// T01: update queue. A processing thread and a posting thread; the other thread may act wherever the lock is free.
#include "vf.h"
#include <functional>
#include <new>
#include <pthread.h>
#include "Awl/UpdateQueue.h"
enum { MAX = 8 };
VFG(int, held, 0) VFG(int, owner, 0) VFG(int, thread, 0) VFG(int, env, 0) VFG(int, n, 0) VFG(int, last, -1) VFG(int, live, 0) VFG(int, failcopy, 0) VFG(int, copyfailed, 0) VFG(int, nested, 0) VFG(int, thrower, -1) VFG(int, thrown, 0) VFG(int, mutexes, 0) VFG(int, applying, 0) VFG(int, entering, 0) VFG(int, ran, 0) VFG(int, took, 0) VFG(int, posts_only, 0)
// MAYBE: cleared by the other thread while a processing call may or may not have taken it
enum { NONE, PENDING, CLEARED, DONE, DROPPED, MAYBE };
extern "C" { int vfg_state[MAX]; int vfg_late[MAX]; }
using Queue = awl::UpdateQueue<int>; static Queue* queue;
static void push(int kind);
static void clear();
static void other() { if (vfg_env <= 0 || vfg_held || vfg_thread != 1) return; int k = vf_choice(vfg_posts_only ? 2 : 3, "other thread: 0 nothing 1 posts 2 clears"); if (!k) return; vfg_env--; int e = vfg_entering; vfg_thread = 2; if (k == 1) push(0); else clear(); vfg_thread = 1; vfg_entering = e; }
// a call takes effect at its first acquisition: what the other thread does before it is done before the call is recorded
static void enter() { other(); vfg_entering = 1; }
extern "C" int pthread_mutex_lock(pthread_mutex_t*) noexcept { if (vfg_held && vfg_owner != vfg_thread) { vf_assert(false, "T01.deadlock", "a thread waits for the lock it released the queue with"); vf_assume(false); } if (!vfg_held && !vfg_entering) other(); vfg_entering = 0; vfg_held++; vfg_owner = vfg_thread; return 0; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t*) noexcept { vf_assert(vfg_held > 0 && vfg_owner == vfg_thread, "T01.balanced", "the lock is released by a thread that does not hold it"); vfg_held--; if (!vfg_held) other(); return 0; }
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (vf_choice(2, "lock is taken by another thread")) return 16; return pthread_mutex_lock(m); }
extern "C" int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
extern "C" int pthread_mutexattr_init(pthread_mutexattr_t*) noexcept { return 0; }
extern "C" int pthread_mutexattr_settype(pthread_mutexattr_t*, int) noexcept { return 0; }
extern "C" int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
extern "C" int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
// an update: what it captures is counted, copying it may fail
struct Update
{
    int id, kind; Update(int i, int k) : id(i), kind(k) { vfg_live++; }
    Update(const Update& o) : id(o.id), kind(o.kind) { if (vfg_failcopy == 1) { vfg_failcopy = 0; vfg_copyfailed = 1; throw std::bad_alloc(); } if (vfg_failcopy > 1) vfg_failcopy--; vfg_live++; }
    Update(Update&& o) noexcept : id(o.id), kind(o.kind) { vfg_live++; }
    ~Update() { vfg_live--; }
    void operator()(int arg) const
    {
        vf_assert(vfg_held == 0, "T01.outside-lock", "an update is executed with the queue locked"); vf_assert(vfg_thread == 1 && arg == 5, "T01.executed-once", "an update is executed by a posting call or with other arguments");
        vf_assert(vfg_state[id] == PENDING || vfg_state[id] == MAYBE, "T01.executed-once", "an update is executed again, or after it was cleared or dropped"); vf_assert(id > vfg_last, "T01.in-order", "updates are executed out of order"); vfg_last = id; vfg_state[id] = DONE; vfg_ran = 1;
        vf_cover("update executed"); other();
        if (kind == 1 && vfg_nested-- > 0) push(0);
        if (kind == 2) { vfg_thrown = 1; throw 'u'; }
    }
};
static void push(int kind)
{
    if (vfg_n >= MAX) return; enter(); int id = vfg_n++; vfg_late[id] = vfg_applying && vfg_ran;
    vfg_entering = 0; Update u(id, kind); std::function<void(int)> f(u); vfg_entering = 1; vfg_state[id] = PENDING;
    { try { queue->Push(f); } catch (const std::bad_alloc&) { vf_assert(vfg_copyfailed, "T01.accepted", "an update is refused"); vfg_state[id] = DROPPED; vf_cover("posting failed"); } }
    vf_assert(vfg_held == 0, "T01.balanced", "the lock is held after the call");
}
static void clear()
{
    // what was posted before the call and has not been taken by a processing call is discarded
    enter(); for (int i = 0; i < vfg_n; i++) if (vfg_state[i] == PENDING) vfg_state[i] = vfg_applying && !vfg_late[i] ? MAYBE : CLEARED;
    queue->ClearPending(); vf_assert(vfg_held == 0, "T01.balanced", "the lock is held after the call"); vf_cover("cleared");
}
static void apply()
{
    enter(); vfg_took = vfg_n; vfg_applying = 1; vfg_ran = 0; bool threw = false; vfg_thrown = 0; try { queue->ApplyUpdates(5); } catch (char) { threw = true; } vfg_applying = 0; vfg_entering = 0; for (int i = 0; i < vfg_n; i++) vfg_late[i] = 0;
    vf_assert(threw == vfg_thrown, "T01.exception", "an exception of an update does not reach the processing thread"); vf_assert(vfg_held == 0, "T01.balanced", "the lock is held after the call");
    if (threw) vf_cover("update threw");
}
static void all_executed() { for (int i = 0; i < vfg_n; i++) vf_assert(vfg_state[i] != PENDING, "T01.executed", "an accepted update is not executed"); }
static void begin(Queue& q) { queue = &q; vfg_thread = 1; vf_lockset(&q, sizeof q, &vfg_thread, &vfg_held, "T01.lockset", "queue state that the other thread uses is touched without the lock"); }
static void end() { vf_assert(vfg_live == 0, "T01.released", "what an executed or discarded update has captured is still held"); vfg_thread = 0; }
// every update is executed although the other thread posts at any moment; the queue is used twice so that blocks are recycled
extern "C" void vfh_post()
{
    { Queue q; begin(q); vfg_posts_only = 1; vfg_nested = 1; push(vf_choice(2, "posts while it is executed")); push(0); vfg_env = 2; apply(); push(0); apply(); vfg_env = 0; apply(); all_executed(); end(); }
    vf_cover("queue finished");
}
extern "C" void vfh_throw()
{
    Queue q; begin(q); vfg_posts_only = 1; push(0); push(2); push(0); vfg_env = 1; apply(); for (int i = 0; i < vfg_n; i++) if (vfg_state[i] == PENDING) vfg_state[i] = i < vfg_took ? DROPPED : PENDING; vfg_env = 0; push(0); apply(); all_executed(); end();
}
extern "C" void vfh_clear()
{
    Queue q; begin(q); push(0); push(0); vfg_env = 1; clear(); push(0); push(0); vfg_env = 0; apply(); end();
}
// clearing from the other thread between and during processing calls
extern "C" void vfh_clear_any()
{
    Queue q; begin(q); push(0); vfg_env = 2; apply(); push(0); apply(); vfg_env = 0; apply(); end();
}
// the calls of the posting thread, while the other one processes, are covered by the entries above; here a copy fails
extern "C" void vfh_copy_fails()
{
    Queue q; begin(q); push(0); push(0); if (vf_choice(2, "recycled")) apply(); vfg_failcopy = 2 + vf_choice(3, "failing copy"); push(0); vfg_failcopy = 0; push(0); apply(); all_executed(); end();
}
// a queue that is destroyed with updates in it
extern "C" void vfh_destroy() { { Queue q; begin(q); push(0); if (vf_choice(2, "processed")) apply(); push(0); push(0); vfg_thread = 0; } vf_assert(vfg_live == 0, "T01.released", "a destroyed queue has kept an update"); }
extern "C" void vfh_ctl_unlocked() { Queue q; begin(q); push(0); vfg_thread = 2; unsigned i = vf_choice(sizeof q / 8, "word"); ((volatile long*)&q)[i]; vfg_thread = 0; }
extern "C" void vfh_ctl_pending() { Queue q; begin(q); push(0); vfg_thread = 0; all_executed(); }
