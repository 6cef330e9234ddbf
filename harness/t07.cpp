// T07: coroutine objects. Every frame carries a counted resource; the harness resumes what is suspended at arbitrary moments.
#include "vf.h"
#include <utility>
#include <optional>
#include <stdexcept>
#include "Awl/Coro/Generator.h"
#include "Awl/Coro/AsyncGenerator.h"
#include "Awl/Coro/ProcessTask.h"
#include "Awl/Coro/UpdateTask.h"
VFG(int, live, 0) VFG(int, born, 0) VFG(int, died, 0)
extern "C" { int vfg_alive[8]; void* vfg_waiting[8]; int vfg_finished[8]; int vfg_got[8]; int vfg_handles[8]; }
// lives in a coroutine frame
struct Res
{
    int id; Res(int i) : id(i) { vf_assert(vfg_alive[id] == 0, "T07.frame", "a frame is created twice"); vfg_alive[id] = 1; vfg_live++; } Res(const Res&) = delete;
    ~Res() { vf_assert(vfg_alive[id] == 1, "T07.frame", "a frame is destroyed twice"); vfg_alive[id] = 0; vfg_live--; vfg_waiting[id] = nullptr; }
};
// a suspension point: the harness resumes it
struct Event { int id; bool ready; bool await_ready() const { return ready; } void await_suspend(std::coroutine_handle<> h) { vfg_waiting[id] = h.address(); } void await_resume() { vfg_waiting[id] = nullptr; } };
static bool resume(int id) { if (!vfg_waiting[id]) return false; auto h = std::coroutine_handle<>::from_address(vfg_waiting[id]); vfg_waiting[id] = nullptr; h.resume(); return true; }
static void none_left() { vf_assert(vfg_live == 0, "T07.frame", "a coroutine frame is still alive after its owner is gone"); }
struct Err { int id; };

// an update task has no consumer for its exceptions: it terminates, and nothing else does
VFG(int, terminates, 0)
namespace std { void terminate() noexcept { vf_assert(vfg_terminates, "T07.terminate", "the program is terminated"); vf_cover("terminated"); vf_assume(false); for (;;); } }
// generators
static awl::generator<int> numbers(int id, int n, int fail) { Res r(id); for (int i = 0; i < n; i++) { if (i == fail) throw Err{id}; co_yield i * 10 + id; } if (fail == n) throw Err{id}; }
static awl::generator<const int&> refs(int id, int n) { Res r(id); for (int i = 0; i < n; i++) co_yield i * 10 + id; }
static void consume(awl::generator<int>& g, int id, int n, int fail, int stop)
{
    int i = 0; bool caught = false;
    try { for (int v : g) { vf_assert(v == i * 10 + id, "T07.values", "a generator yields another value"); i++; if (i == stop) break; } } catch (const Err& e) { caught = true; vf_assert(e.id == id, "T07.exception", "another exception arrives"); }
    int m = fail <= n ? fail : n; bool early = stop > 0 && stop <= m;
    vf_assert(i == (early ? stop : m), "T07.values", "a generator yields fewer or more values"); vf_assert(caught == (!early && fail <= n), "T07.exception", "an exception of the generator body does not reach its consumer, or another one does");
    if (caught) vf_cover("generator threw"); if (early) vf_cover("generator abandoned");
}
extern "C" void vfh_generator()
{
    int n = vf_choice(3, "values"), fail = vf_choice(4, "throws at"), stop = vf_choice(3, "consumer stops after"); { auto g = numbers(0, n, fail); vf_assert(vfg_live == 0, "T07.lazy", "a generator starts before it is asked"); consume(g, 0, n, fail, stop); } none_left();
}
extern "C" void vfh_generator_moves()
{
    {
        awl::generator<int> a = numbers(0, 2, 9), b; if (vf_choice(2, "a started")) vf_assert(*a.begin() == 0, "T07.values", "a generator yields another value");
        switch (vf_choice(6, "operation"))
        {
        case 0: b = std::move(a); vf_assert(a.begin() == a.end(), "T07.moved-from", "a moved-from generator still yields"); break;
        case 1: { awl::generator<int> c(std::move(a)); vf_assert(a.begin() == a.end(), "T07.moved-from", "a moved-from generator still yields"); b = std::move(c); break; }
        case 2: b = numbers(1, 2, 9); if (vf_choice(2, "b started")) b.begin(); a = std::move(b); vf_assert(vfg_alive[0] == 0, "T07.frame", "the replaced frame is still alive"); break;
        case 3: a.swap(b); break;
        case 4: b = numbers(1, 2, 9); swap(a, b); { auto i = a.begin(); vf_assert(vfg_alive[1], "T07.frame", "swapping ends a generator"); vf_assert(i != a.end() && *i == 1, "T07.values", "a swapped generator yields the values of the other one, or does not"); } break;
        default: a = awl::generator<int>(); vf_assert(vfg_alive[0] == 0, "T07.frame", "the replaced frame is still alive"); break;
        }
        vf_cover("generator moved");
    }
    none_left();
}
extern "C" void vfh_fmap()
{
    int n = vf_choice(3, "values"), fail = vf_choice(4, "throws at"), stop = vf_choice(3, "consumer stops after"), i = 0; bool caught = false, early = stop > 0 && stop <= (fail <= n ? fail : n);
    { auto g = awl::fmap([](int v) { return v + 1; }, numbers(0, n, fail)); try { for (int v : g) { vf_assert(v == i * 10 + 1, "T07.values", "a mapped value is wrong"); if (++i == stop) break; } } catch (const Err&) { caught = true; } }
    vf_assert(caught == (!early && fail <= n), "T07.exception", "an exception of the inner generator does not reach the consumer"); none_left();
    { auto h = refs(1, n); int k = 0; for (const int& v : h) { vf_assert(v == k * 10 + 1, "T07.values", "a generator of references yields another value"); k++; } vf_assert(k == n, "T07.values", "a generator of references yields fewer or more values"); } none_left();
}

// a generator that yields its own variable hands out that variable; positions compare with the end in both directions
extern "C" { int* vfg_own; }
static awl::generator<int> variable(int id, int n) { Res r(id); int own = 0; vfg_own = &own; for (int i = 0; i < n; i++) { own += 10; co_yield own; } }
static awl::generator<int&> variables(int id, int n) { Res r(id); int own = 0; vfg_own = &own; for (int i = 0; i < n; i++) { own += 10; co_yield own; } }
static awl::generator<int&&> given(int id, int n) { Res r(id); for (int i = 0; i < n; i++) co_yield (i + 1) * 10; }
template <class G> static void own_variable(G g, int n, bool same)
{
    int k = 0; auto i = g.begin();
    for (;;)
    {
        bool end = k >= n;
        vf_assert((i == g.end()) == end && (i != g.end()) == !end && (g.end() == i) == end && (g.end() != i) == !end, "T07.end", "the position of a generator compares with the end in another way than it has more values");
        if (end) break;
        vf_assert(*i == (k + 1) * 10, "T07.values", "a generator yields another value"); if (same) vf_assert(&*i == vfg_own && i.operator->() == vfg_own, "T07.values", "a generator that yields its variable yields another object");
        if (vf_choice(2, "increment form")) i++; else ++i; k++;
    }
    vf_cover("variable yielded");
}
extern "C" void vfh_generator_variable()
{
    int n = vf_choice(3, "values"); if (vf_choice(2, "reference type")) own_variable(variable(0, n), n, true); else own_variable(variables(0, n), n, true); none_left();
    { auto g = given(0, n); int k = 0; for (int&& v : g) { vf_assert(v == (k + 1) * 10, "T07.values", "a generator of temporaries yields another value"); k++; } vf_assert(k == n, "T07.values", "a generator of temporaries yields fewer or more values"); } none_left();
}

// tasks
static awl::ProcessTask<int> compute(int id, bool suspend, bool fail) { Res r(id); co_await Event{id, !suspend}; if (fail) throw Err{id}; co_return id * 10; }
static awl::ProcessTask<void> work(int id, bool suspend, bool fail) { Res r(id); co_await Event{id, !suspend}; if (fail) throw Err{id}; vfg_finished[id] = 1; }
static awl::UpdateTask update(int id, bool suspend) { Res r(id); co_await Event{id, !suspend}; vfg_finished[id] = 1; }
enum { VALUE = 1, ERROR = 2 };
static awl::UpdateTask awaits_value(int id, const awl::ProcessTask<int>& t, int inner) { Res r(id); try { int v = co_await t; vf_assert(v == inner * 10, "T07.values", "another value arrives"); vfg_got[id] |= VALUE; } catch (const Err& e) { vf_assert(e.id == inner && vfg_got[id] == 0, "T07.exception", "another exception arrives"); vfg_got[id] |= ERROR; } vfg_finished[id] = 1; }
static awl::UpdateTask awaits_void(int id, const awl::ProcessTask<void>& t, int inner) { Res r(id); try { co_await t; vf_assert(vfg_finished[inner], "T07.resumed-early", "the consumer is resumed before the task has finished"); vfg_got[id] |= VALUE; } catch (const Err& e) { vf_assert(e.id == inner && vfg_got[id] == 0, "T07.exception", "another exception arrives"); vfg_got[id] |= ERROR; } vfg_finished[id] = 1; }
static awl::UpdateTask awaits_update(int id, const awl::UpdateTask& t, int inner) { Res r(id); co_await t; vf_assert(vfg_finished[inner], "T07.resumed-early", "the consumer is resumed before the task has finished"); vfg_finished[id] = 1; }
static awl::ProcessTask<int> chain(int id, bool suspend, bool fail) { Res r(id); int v = co_await compute(id + 1, suspend, fail); vf_assert(vfg_alive[id + 1] == 0, "T07.frame", "the temporary task is still alive"); co_return v + 1; }
extern "C" void vfh_compute()
{
    bool s = vf_choice(2, "suspends"), f = vf_choice(2, "fails"); { auto t = compute(0, s, f);
    if (s) { vf_assert(!t.is_ready(), "T07.ready", "a suspended task is ready"); if (vf_choice(2, "abandoned")) { t = {}; vf_assert(!vfg_live, "T07.frame", "the replaced frame is still alive"); vf_cover("task abandoned"); return; } resume(0); }
    bool caught = false; int v = -1; try { vf_assert(t.is_ready(), "T07.ready", "a finished task is not ready"); v = t.get(); } catch (const Err&) { caught = true; } vf_assert(caught == f && (f || v == 0), "T07.exception", "the outcome of the task does not reach its consumer"); } none_left(); vf_cover("task finished");
}
extern "C" void vfh_await_value()
{
    bool s = vf_choice(2, "suspends"), f = vf_choice(2, "fails"), released = vf_choice(2, "consumer released"), late = vf_choice(2, "awaited late"); { auto t = compute(0, s, f); if (late) resume(0); { auto u = awaits_value(1, t, 0); if (released) { u.release(); vf_assert(!u, "T07.released", "a released task still owns its frame"); } resume(0);
    vf_assert(vfg_got[1] == (f ? ERROR : VALUE) && vfg_finished[1], "T07.exception", "the outcome of a task does not reach the coroutine that awaits it, once"); vf_assert(released || u.done(), "T07.ready", "a finished task is not done"); } vf_assert(!vfg_alive[1], "T07.frame", "a frame is still alive"); } none_left(); vf_cover("awaited");
}
extern "C" void vfh_await_void()
{
    bool s = vf_choice(2, "suspends"), f = vf_choice(2, "fails"); { auto t = work(0, s, f); auto u = awaits_void(1, t, 0); resume(0); vf_assert(vfg_got[1] == (f ? ERROR : VALUE) && vfg_finished[1], "T07.exception", "the outcome of a task does not reach the coroutine that awaits it, once"); } none_left(); vf_cover("awaited");
}
extern "C" void vfh_await_update()
{
    bool s = vf_choice(2, "suspends"), late = vf_choice(2, "awaited late"), owner = vf_choice(2, "consumer abandoned"); { auto t = update(0, s); if (late) resume(0); auto u = awaits_update(1, t, 0); if (owner && !u.done()) { t = {}; u.free(); vf_cover("consumer abandoned"); return; } resume(0); vf_assert(vfg_finished[1] && t.done() && u.done(), "T07.ready", "a finished task is not done"); } none_left();
}
extern "C" void vfh_chain()
{
    bool s = vf_choice(2, "suspends"), f = vf_choice(2, "fails"); { auto t = chain(0, s, f); if (s && vf_choice(2, "abandoned")) { t.free(); none_left(); return; } resume(1); bool caught = false; int v = 0; try { v = t.get(); } catch (const Err&) { caught = true; } vf_assert(caught == f && (f || v == 11), "T07.exception", "the outcome of the inner task does not reach the outer one"); } none_left(); vf_cover("chained");
}
// arbitrary sequences of operations on task objects
template <class Make> static void tasks(Make make)
{
    {
        using Task = decltype(make(0, false)); Task slot[2]; int id = 0; vfg_handles[0] = vfg_handles[1] = -1; int own[2] = {-1, -1};
        for (int step = 0; step < 4 + DEEP; step++)
        {
            int s = vf_choice(2, "slot");
            switch (vf_choice(5, "0 create 1 move from the other 2 clear 3 resume 4 move out and back"))
            {
            case 0: { int old = own[s]; own[s] = id; slot[s] = make(id++, vf_choice(2, "suspends")); vf_assert(old < 0 || !vfg_alive[old], "T07.frame", "the replaced frame is still alive"); break; }
            case 1: { int old = own[s]; slot[s] = std::move(slot[1 - s]); own[s] = own[1 - s]; own[1 - s] = -1; vf_assert(old < 0 || !vfg_alive[old], "T07.frame", "the replaced frame is still alive"); vf_assert(!slot[1 - s].m_h, "T07.moved-from", "a moved-from task still owns a frame"); break; }
            case 2: { int old = own[s]; slot[s].free(); own[s] = -1; vf_assert(old < 0 || !vfg_alive[old], "T07.frame", "a freed task is still alive"); break; }
            case 3: if (own[s] >= 0) resume(own[s]); break;
            default: { Task t(std::move(slot[s])); vf_assert(!slot[s].m_h, "T07.moved-from", "a moved-from task still owns a frame"); slot[s] = std::move(t); }
            }
            for (int k = 0; k < 2; k++) vf_assert(own[k] < 0 ? !slot[k].m_h : vfg_alive[own[k]] == !slot[k].m_h.done(), "T07.frame", "a task object and its frame disagree");
        }
        vf_cover("operations on tasks");
    }
    none_left();
}
extern "C" void vfh_process_tasks() { tasks([](int id, bool s) { return compute(id, s, false); }); }
extern "C" void vfh_update_tasks() { tasks([](int id, bool s) { return update(id, s); }); }
// a released task runs to its end without an owner
extern "C" void vfh_release()
{
    bool s = vf_choice(2, "suspends"); { auto t = update(0, s); if (vf_choice(2, "finished first")) resume(0); if (vf_choice(2, "moved")) { awl::UpdateTask u(std::move(t)); u.release(); } else { t.release(); t.release(); } vf_assert(!t, "T07.released", "a released task still owns its frame"); } resume(0); vf_assert(vfg_finished[0], "T07.released", "a released task does not run to its end"); none_left(); vf_cover("released");
}

static awl::UpdateTask fails(int id, bool suspend) { Res r(id); co_await Event{id, !suspend}; throw Err{id}; }
extern "C" void vfh_update_fails() { bool s = vf_choice(2, "suspends"), r = vf_choice(2, "released"); vfg_terminates = !s; auto t = fails(0, s); vfg_terminates = 1; if (r) t.release(); resume(0); vf_assert(vfg_terminates == 0, "T07.exception", "an exception of an update task is lost"); }
// asynchronous generators
static awl::async_generator<int> anumbers(int id, int n, int fail, int suspends) { Res r(id); for (int i = 0; i < n; i++) { co_await Event{id, !(suspends & 1)}; if (i == fail) throw Err{id}; co_yield i * 10 + id; } co_await Event{id, !(suspends & 2)}; if (fail == n) throw Err{id}; }
static awl::UpdateTask aconsume(int id, awl::async_generator<int>& g, int inner, int n, int fail, int stop)
{
    Res r(id); int i = 0; bool caught = false; int m = fail <= n ? fail : n; bool early = stop > 0 && stop <= m;
    try { for (auto it = co_await g.begin(); it != g.end(); co_await ++it) { vf_assert(*it == i * 10 + inner, "T07.values", "a generator yields another value"); i++; if (i == stop) break; } } catch (const Err& e) { vf_assert(!caught && e.id == inner, "T07.exception", "another exception arrives"); caught = true; }
    vf_assert(i == (early ? stop : m), "T07.values", "a generator yields fewer or more values"); vf_assert(caught == (!early && fail <= n), "T07.exception", "an exception of the generator body does not reach its consumer, or another one does");
    if (caught) vf_cover("async generator threw"); vfg_finished[id] = 1;
}
extern "C" void vfh_async()
{
    int n = vf_choice(3, "values"), fail = vf_choice(4, "throws at"), stop = vf_choice(3, "consumer stops after"), s = vf_choice(4, "suspends");
    { auto g = anumbers(0, n, fail, s); vf_assert(vfg_live == 0, "T07.lazy", "a generator starts before it is asked"); auto u = aconsume(1, g, 0, n, fail, stop); for (int k = 0; k < 4 && !vfg_finished[1]; k++) resume(0); vf_assert(vfg_finished[1], "T07.resumed", "the consumer is not resumed"); } none_left(); vf_cover("async generator");
}
extern "C" void vfh_async_abandoned()
{
    { awl::async_generator<int> g = anumbers(0, 2, 9, 3); { auto u = aconsume(1, g, 0, 2, 9, 0); if (vf_choice(2, "resumed")) resume(0); } vf_assert(!vfg_alive[1], "T07.frame", "a frame is still alive"); if (vf_choice(2, "moved")) { awl::async_generator<int> h(std::move(g)); if (vf_choice(2, "back")) g = std::move(h); } else if (vf_choice(2, "assigned")) { g = anumbers(2, 1, 9, 0); vf_assert(!vfg_alive[0], "T07.frame", "the replaced frame is still alive"); } } none_left(); vf_cover("async generator abandoned");
}
static awl::UpdateTask arest(int id, awl::async_generator<int>& g) { Res r(id); int i = 1; for (auto it = co_await g.begin(); it != g.end(); co_await ++it) { vf_assert(*it == i * 10, "T07.values", "a generator yields another value"); i++; } vf_assert(i == 2, "T07.values", "a generator yields fewer or more values"); vfg_finished[id] = 1; }
// one coroutine takes the first value, another one the rest
static awl::UpdateTask afirst(int id, awl::async_generator<int>& g) { Res r(id); auto it = co_await g.begin(); vf_assert(*it == 0, "T07.values", "a generator yields another value"); vfg_finished[id] = 1; }
extern "C" void vfh_async_two_consumers()
{
    int s = vf_choice(4, "suspends"); { auto g = anumbers(0, 2, 9, s); auto a = afirst(1, g); for (int k = 0; k < 2 && !vfg_finished[1]; k++) resume(0); vf_assert(vfg_finished[1], "T07.resumed", "the consumer is not resumed"); if (vf_choice(2, "first consumer destroyed")) { a = {}; } auto b = arest(2, g); for (int k = 0; k < 4 && !vfg_finished[2]; k++) resume(0); vf_assert(vfg_finished[2], "T07.resumed", "the consumer is not resumed"); } none_left(); vf_cover("two consumers");
}
static awl::UpdateTask aempty(awl::async_generator<int>& g) { auto it = co_await g.begin(); vf_assert(it == g.end(), "T07.values", "an empty generator yields"); vfg_finished[0] = 1; }
extern "C" void vfh_async_empty() { awl::async_generator<int> g; auto u = aempty(g); vf_assert(vfg_finished[0], "T07.resumed", "the consumer is not resumed"); }

static awl::async_generator<int> avariable(int id, int n) { Res r(id); int own = 0; vfg_own = &own; for (int i = 0; i < n; i++) { own += 10; co_yield own; } }
static awl::UpdateTask atake(awl::async_generator<int>& g, int n, int id) { int k = 0; auto it = co_await g.begin(); for (; it != g.end(); co_await ++it) { vf_assert(*it == (k + 1) * 10 + id, "T07.values", "a generator yields another value"); k++; } vf_assert(k == n && it == g.end(), "T07.values", "a generator yields fewer or more values"); vfg_finished[7] = 1; }
extern "C" void vfh_async_moves()
{
    int n = vf_choice(3, "values");
    {
        awl::async_generator<int> a = avariable(0, n), b = anumbers(1, 0, 9, 0); int left = n;
        switch (vf_choice(3, "operation"))
        {
        case 0: swap(a, b); { auto t = atake(b, n, 0); vf_assert(vfg_finished[7], "T07.resumed", "the consumer is not resumed"); vfg_finished[7] = 0; } left = 0; break;
        case 1: a.swap(b); a = std::move(b); break;
        default: { awl::async_generator<int> c(std::move(a)); a = std::move(c); auto t = atake(c, 0, 0); vf_assert(vfg_finished[7], "T07.moved-from", "a moved-from generator still yields"); vfg_finished[7] = 0; }
        }
        auto t = atake(a, left, 0); vf_assert(vfg_finished[7], "T07.resumed", "the consumer is not resumed");
    }
    none_left(); vf_cover("async generator moved");
}
// the program is terminated when a coroutine awaits a task that is empty or that another coroutine awaits
static awl::UpdateTask awaits_any(const awl::ProcessTask<int>& t) { co_await t; }
static awl::UpdateTask awaits_any(const awl::ProcessTask<void>& t) { co_await t; }
static awl::UpdateTask awaits_any(const awl::UpdateTask& t) { co_await t; }
template <class T> static void misuse(T t)
{
    if (vf_choice(2, "empty or awaited twice")) { T u(std::move(t)); vfg_terminates = 1; auto a = awaits_any(t); vf_assert(vfg_terminates == 2, "T07.misuse", "awaiting an empty task is not refused"); }
    else { auto a = awaits_any(t); vfg_terminates = 1; auto b = awaits_any(t); vf_assert(vfg_terminates == 2, "T07.misuse", "a task is awaited by two coroutines"); }
}
extern "C" void vfh_misuse()
{
    switch (vf_choice(4, "task")) { case 0: misuse(compute(0, true, false)); break; case 1: misuse(work(0, true, false)); break; case 2: misuse(update(0, true)); break;
    default: { auto t = compute(0, true, false); { auto u = std::move(t); } vfg_terminates = 1; if (vf_choice(2, "get or is_ready")) t.get(); else (void)t.is_ready(); vf_assert(vfg_terminates == 2, "T07.misuse", "an empty task gives a value"); } }
}
extern "C" void vfh_ctl_lost() { auto h = update(0, true); h.m_h = nullptr; none_left(); }
extern "C" void vfh_ctl_twice() { auto t = update(0, true); awl::UpdateTask u(t.m_h); }
