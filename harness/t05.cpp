// T05: the joining thread handle. Threads are modelled: a thread's function runs when it is started or when it is joined.
#define _GLIBCXX_THREAD_IMPL
#define VF_SPIN_WAITS
#include "threads.h"
#include "jthread.hpp"
#include <optional>
enum { NONE, RUNNING, JOINED, DETACHED };
extern "C" { int vfg_state[8]; int vfg_ran[8]; int vfg_stopped[8]; void* vfg_body[8]; int vfg_own[3]; int vfg_src[3]; int vfg_stop_ok[8]; int vfg_users[8]; }
VFG(int, threads, 0) VFG(int, implicit, 0) VFG(int, failing, 0)
static std::stop_token tok[8];
static void other_thread() {}
static void on_block(bool, long) {}
std::thread::_State::~_State() = default;
static void run_body(int i) { if (vfg_body[i]) { auto* b = (std::thread::_State*)vfg_body[i]; vfg_body[i] = nullptr; b->_M_run(); delete b; } }
void std::thread::_M_start_thread(_State_ptr s, void (*)())
{
    if (vfg_failing && vf_choice(2, "no thread")) { vf_cover("no thread"); throw std::bad_alloc(); }
    int i = vfg_threads++; vfg_state[i] = RUNNING; vfg_body[i] = s.release(); _M_id = id(0x100 + i); if (vf_choice(2, "runs at once")) run_body(i);
}
void std::thread::join()
{
    vf_assert(joinable(), "T05.joinable", "a handle without a thread is joined"); int i = (int)(native_handle() - 0x100); vf_assert(vfg_state[i] == RUNNING, "T05.joined-once", "a thread is joined that was joined or detached before");
    if (vfg_implicit) vf_assert(tok[i].stop_requested(), "T05.stop-first", "a thread is joined before it is asked to stop"); run_body(i); vfg_state[i] = JOINED; _M_id = id(); vf_cover("joined");
}
void std::thread::detach() { vf_assert(joinable(), "T05.joinable", "a handle without a thread is detached"); int i = (int)(native_handle() - 0x100); vf_assert(!vfg_implicit, "T05.detached", "a thread is detached although its owner must join it"); vf_assert(vfg_state[i] == RUNNING, "T05.joined-once", "a thread is detached that was joined or detached before"); run_body(i); vfg_state[i] = DETACHED; _M_id = id(); vf_cover("detached"); }
struct Plain { int i; void operator()(int a) { vf_assert(a == 7, "T05.arguments", "the thread receives other arguments"); vfg_ran[i]++; } };
using Handle = std::jthread;
// the token is known only when the handle exists: a thread that runs at once gets its token checked afterwards
static std::stop_token early[8];
struct First { int i; void operator()(std::stop_token t) { early[i] = std::move(t); vfg_ran[i]++; } };
static Handle start() { int i = vfg_threads; Handle h(First{i}); tok[i] = h.get_stop_token(); vf_assert(!vfg_ran[i] || early[i] == tok[i], "T05.own-token", "the thread receives another stop token"); return h; }
static void check(Handle* h)
{
    for (int i = 0; i < vfg_threads; i++) vf_assert(tok[i].stop_requested() == (vfg_stopped[i] != 0), "T05.stop", "a thread is asked to stop although nobody wants that, or is not asked");
    for (int k = 0; k < 3; k++)
    {
        int o = vfg_own[k]; vf_assert(h[k].joinable() == (o >= 0), "T05.moved", "a handle lost its thread or kept a thread that it gave away"); vf_assert(o < 0 || (h[k].get_id() == std::thread::id(0x100 + o) && vfg_state[o] == RUNNING), "T05.moved", "a handle refers to another thread");
        int s = vfg_src[k]; if (s >= 0) { vf_assert(h[k].get_stop_token() == tok[s], "T05.moved", "a handle's stop state does not belong to its thread"); vf_assert(h[k].get_stop_token().stop_requested() == (vfg_stopped[s] != 0), "T05.stop", "a thread is asked to stop although nobody wants that, or is not asked"); }
    }
}
// sequences of operations on three handles
static void gives_up(int k) { int o = vfg_own[k]; if (o >= 0) { vfg_stopped[vfg_src[k]] = 1; } }
static void gone(int o) { vf_assert(o < 0 || (vfg_state[o] == JOINED && vfg_ran[o] == 1), "T05.joined", "a thread is still running when its handle has let go of it"); vf_assert(o < 0 || tok[o].stop_requested(), "T05.stop-first", "a thread is not asked to stop"); if (o >= 0) vf_cover("let go"); }
template <int Steps> static void sequence()
{
    {
        Handle h[3]; for (int k = 0; k < 3; k++) vfg_own[k] = vfg_src[k] = -1;
        for (int step = 0; step < Steps; step++)
        {
            int k = vf_choice(2, "handle"), o = vfg_own[k], j = 1 - k;
            switch (vf_choice(step ? 8 : 1, "0 start 1 move 2 reset 3 swap 4 request 5 join 6 detach 7 move construct"))
            {
            case 0: { int i = vfg_threads; Handle n = start(); gives_up(k); vfg_implicit = 1; h[k] = std::move(n); vfg_implicit = 0; vfg_own[k] = vfg_src[k] = i; gone(o); break; }
            case 1: gives_up(k); vfg_implicit = 1; h[k] = std::move(h[j]); vfg_implicit = 0; vfg_own[k] = vfg_own[j]; vfg_src[k] = vfg_src[j]; vfg_own[j] = vfg_src[j] = -1; gone(o); vf_cover("move-assigned"); break;
            case 2: gives_up(k); vfg_implicit = 1; h[k] = Handle(); vfg_implicit = 0; vfg_own[k] = vfg_src[k] = -1; gone(o); break;
            case 3: { h[k].swap(h[j]); int t = vfg_own[k]; vfg_own[k] = vfg_own[j]; vfg_own[j] = t; t = vfg_src[k]; vfg_src[k] = vfg_src[j]; vfg_src[j] = t; break; }
            case 4: { bool was = vfg_src[k] < 0 || vfg_stopped[vfg_src[k]]; vf_assert(h[k].request_stop() == !was, "T05.stop", "a stop request reports another outcome"); if (vfg_src[k] >= 0) vfg_stopped[vfg_src[k]] = 1; break; }
            case 5: if (o >= 0) { h[k].join(); vfg_own[k] = -1; } break;
            case 6: if (o >= 0) { h[k].detach(); vfg_own[k] = -1; } break;
            default: { Handle n(std::move(h[k])); vf_assert(!h[k].joinable() && n.joinable() == (o >= 0), "T05.moved", "a handle lost its thread or kept a thread that it gave away"); h[k] = std::move(n); break; }
            }
            check(h);
        }
        // some handles' threads were joined or detached: their tokens stay as they are
        vfg_implicit = 1;
    }
    for (int i = 0; i < vfg_threads; i++) { vf_assert(vfg_state[i] == JOINED || vfg_state[i] == DETACHED, "T05.joined", "a thread is still running when its handle is gone"); vf_assert(vfg_ran[i] == 1, "T05.ran", "a thread's function does not run exactly once"); tok[i] = std::stop_token(); early[i] = std::stop_token(); }
}
#ifdef VF_DEEP
extern "C" void vfh_sequence() { sequence<4>(); }
#else
extern "C" void vfh_sequence() { sequence<3>(); }
#endif
// destruction
extern "C" void vfh_destroy()
{
    int how = vf_choice(4, "0 running 1 joined 2 detached 3 moved from"); bool asked = false; std::stop_token t; std::optional<Handle> kept;
    { Handle h = start(); t = h.get_stop_token(); if (how == 1) h.join(); if (how == 2) h.detach(); if (how == 3) kept.emplace(std::move(h)); if (vf_choice(2, "asked before")) { (kept ? *kept : h).request_stop(); asked = true; } vfg_implicit = 1; }
    vf_assert(t.stop_requested() == (asked || how == 0), "T05.stop", "a thread is asked to stop although its handle does not hold it any more, or is not asked"); vf_assert((vfg_state[0] == RUNNING) == (how == 3), "T05.joined", "a thread is still running when its handle is gone, or was joined too early");
    if (kept) { kept.reset(); vf_assert(t.stop_requested() && vfg_state[0] == JOINED, "T05.joined", "a thread is still running when its handle is gone"); } vfg_implicit = 0; tok[0] = std::stop_token(); early[0] = std::stop_token(); vf_cover("destroyed");
}
// arguments, callables with and without a token, a thread that cannot be started
extern "C" void vfh_arguments()
{
    { Plain p{0}; std::jthread h(p, 7); tok[0] = h.get_stop_token(); vfg_implicit = 1; } vfg_implicit = 0; vf_assert(vfg_ran[0] == 1 && vfg_state[0] == JOINED, "T05.ran", "a thread's function does not run exactly once");
    { std::stop_token seen; std::jthread h([&seen](std::stop_token t, int a, std::unique_ptr<int> p) { vf_assert(a == 5 && *p == 6, "T05.arguments", "the thread receives other arguments"); seen = t; vfg_ran[1]++; }, 5, std::make_unique<int>(6)); tok[1] = h.get_stop_token(); h.join(); vf_assert(vfg_ran[1] == 1 && seen == tok[1] && !seen.stop_requested(), "T05.own-token", "the thread receives another stop token"); }
    { int x = 1; std::jthread h([](int& r) { r = 2; }, std::ref(x)); h.join(); vf_assert(x == 2, "T05.arguments", "the thread receives other arguments"); } tok[0] = tok[1] = std::stop_token(); vf_cover("arguments");
}
extern "C" void vfh_no_thread() { vfg_failing = 1; try { std::jthread h([](std::stop_token) {}); tok[0] = h.get_stop_token(); vfg_implicit = 1; } catch (const std::bad_alloc&) { vf_assert(vfg_threads == 0, "T05.ran", "?"); vf_cover("failed"); } vfg_implicit = 0; tok[0] = std::stop_token(); }
// controls
extern "C" void vfh_ctl_detach() { vfg_threads = 0; Handle h = start(); vfg_implicit = 1; std::thread t(Plain{1}, 7); t.detach(); }
extern "C" void vfh_ctl_terminate() { std::thread t(Plain{0}, 7); }
extern "C" void vfh_ctl_join() { std::thread t(Plain{0}, 7); vfg_implicit = 1; t.join(); }
