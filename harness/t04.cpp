// T04: stop tokens. The other thread may start, be suspended and continue at every atomic operation and inside every callback; a spinning thread lets the other one run.
#define VF_SPIN_WAITS
#include "threads.h"
#include <optional>
#include "stop_token.hpp"
extern "C" { int vfg_runs[4]; int vfg_in[4]; int vfg_by[4]; int vfg_dead[4]; }
VFG(int, requesting, 0) VFG(int, granted, 0) VFG(int, nested, 0) VFG(int, requested, 0)
static std::stop_source* source; static void (*other)(); static void (*inside)(int);
static void other_thread() { other(); }
static void on_block(bool, long) { deadlock("a thread waits for ever"); }
struct Cb
{
    int id; long magic = 77; explicit Cb(int i) : id(i) { vfg_runs[i] = 0; vfg_dead[i] = 0; } Cb(const Cb&) = delete;
    ~Cb() { vf_assert(!vfg_in[id] || vfg_in[id] == vfg_thread, "T04.running", "a callback is destroyed while another thread executes it"); vfg_dead[id] = 1; magic = 0; }
    void operator()()
    {
        vf_assert(!vfg_dead[id] && magic == 77, "T04.late", "a callback runs after its deregistration"); vf_assert(vfg_runs[id] == 0, "T04.once", "a callback runs twice"); vf_assert(vfg_requested, "T04.early", "a callback runs although no stop was requested");
        int i = id; vfg_runs[i]++; vfg_by[i] = vfg_thread; vfg_in[i] = vfg_thread; vf_cover("callback"); act("in a callback"); if (inside) inside(i); act("in a callback"); vfg_in[i] = 0;
    }
};
using Callback = std::stop_callback<Cb>;
// callbacks in memory that is released with them
struct Slot { Callback* p = nullptr; template <class T> void emplace(T&& t, int i) { p = new Callback(std::forward<T>(t), i); } void reset() { Callback* q = p; p = nullptr; delete q; } explicit operator bool() const { return p; } bool operator!() const { return !p; } ~Slot() { reset(); } };
static void request() { vfg_requesting = 1; vfg_requested = 1; if (source->request_stop()) { vf_assert(!vfg_granted, "T04.one-requester", "two requests are granted"); vfg_granted = 1; vfg_requesting = 2; } vf_assert(source->stop_requested(), "T04.requested", "stop is not requested although it was"); }
static void nothing_else() { vfg_gaps = 0; finish(); }
static int ran(int id) { return vfg_runs[id]; }
static void gone() { vf_assert(held() == 0, "T04.balanced", "a mutex is left locked"); }
static Slot* callbacks; static int victim;
// request against deregistration, in any order of the callbacks
template <int Order> static void removal()
{
    {
        std::stop_source s; source = &s; other = request; Slot c[3]; vfg_quiet = 1; int n = Order < 0 ? 1 : 3; for (int i = 0; i < n; i++) c[i].emplace(s.get_token(), i); vfg_quiet = 0; vfg_gaps = 1;
        int first = Order < 0 ? 0 : Order, before = vfg_requested; c[first].reset(); vf_assert(vfg_in[first] == 0, "T04.running", "a callback is executed after its deregistration has returned"); int ran_first = ran(first); vf_assert(before < 2, "T04.requested", "?"); vf_cover("deregistered");
        act("after the deregistration"); nothing_else(); vf_assert(ran(first) == ran_first, "T04.late", "a callback runs after its deregistration");
        if (vfg_requesting == 2) for (int i = 0; i < n; i++) if (i != first) { vf_assert(ran(i) == 1, "T04.once", "a registered callback does not run when stop is requested"); vf_cover("others ran"); }
        if (vf_choice(2, "reverse order")) { for (int i = n - 1; i >= 0; i--) c[i].reset(); }
    }
    gone();
}
extern "C" void vfh_remove_single() { removal<-1>(); }
extern "C" void vfh_remove_first() { removal<0>(); }
extern "C" void vfh_remove_middle() { removal<1>(); }
extern "C" void vfh_remove_last() { removal<2>(); }
// request against registration
extern "C" void vfh_register()
{
    {
        std::stop_source s; source = &s; other = request; Slot c[2]; bool two = vf_choice(2, "another callback"); vfg_quiet = 1; if (two) c[1].emplace(s.get_token(), 1); vfg_quiet = 0; vfg_gaps = 1;
        bool moved = vf_choice(2, "token moved"); std::stop_token t = s.get_token(); if (moved) c[0].emplace(std::move(t), 0); else c[0].emplace(t, 0);
        nothing_else(); vf_assert(!vfg_requested || ran(0) == 1, "T04.once", "a registered callback does not run when stop is requested"); vf_assert(!two || !vfg_requested || ran(1) == 1, "T04.once", "a registered callback does not run when stop is requested"); if (ran(0)) vf_cover(vfg_by[0] == 1 ? "ran in the registering thread" : "ran in the requesting thread");
        vf_assert(s.get_token().stop_requested() == (vfg_requested != 0), "T04.requested", "stop is not requested although it was");
    }
    gone();
}
extern "C" void vfh_register_after()
{
    { std::stop_source s; source = &s; std::stop_token t = s.get_token(); if (vf_choice(2, "a callback before")) { Callback a(t, 1); request(); vf_assert(ran(1) == 1 && vfg_by[1] == 1, "T04.once", "a registered callback does not run when stop is requested"); } else request(); Callback c(t, 0); vf_assert(ran(0) == 1 && vfg_by[0] == 1, "T04.once", "a callback registered after the request does not run at once"); vfg_requesting = 0; request(); vf_assert(ran(0) == 1, "T04.once", "?"); vf_cover("registered late"); }
    { std::stop_token t; vf_assert(!t.stop_requested() && !t.stop_possible(), "T04.requested", "?"); Callback c(t, 2); vf_assert(ran(2) == 0, "T04.early", "?"); }
    { std::stop_token t; { std::stop_source s; t = s.get_token(); vf_assert(t.stop_possible(), "T04.possible", "a token with a source says that stop is impossible"); } vf_assert(!t.stop_possible() && !t.stop_requested(), "T04.possible", "a token without a source says that stop is possible"); Callback c(t, 3); vf_assert(ran(3) == 0, "T04.early", "?"); }
    { std::stop_token t; { std::stop_source s; t = s.get_token(); s.request_stop(); } vf_assert(t.stop_possible() && t.stop_requested(), "T04.possible", "the request is forgotten with its source"); }
}
static void remove_and_request() { callbacks[1].reset(); request(); }
extern "C" void vfh_remove_request() { { std::stop_source s; source = &s; other = remove_and_request; Slot c[2]; callbacks = c; vfg_quiet = 1; for (int i = 0; i < 2; i++) c[i].emplace(s.get_token(), i); vfg_quiet = 0; vfg_gaps = 1; request(); nothing_else(); vf_assert(ran(0) == 1, "T04.once", "a registered callback does not run when stop is requested"); } gone(); }
// a callback destroys itself or another one
static void destroys(int) { if (callbacks[victim]) { Slot& c = callbacks[victim]; c.reset(); vf_cover("destroyed inside"); } }
static void remove_last() { callbacks[2].reset(); vf_assert(vfg_in[2] == 0, "T04.running", "a callback is executed after its deregistration has returned"); }
// registration against deregistration, without a request; and a deregistration by the other thread during a request
static void adds() { callbacks[2].emplace(source->get_token(), 2); }
extern "C" void vfh_list()
{
    {
        std::stop_source s; source = &s; other = adds; Slot c[3]; callbacks = c; vfg_quiet = 1; c[0].emplace(s.get_token(), 0); c[1].emplace(s.get_token(), 1); vfg_quiet = 0; vfg_gaps = 1; int v = vf_choice(2, "which"); c[v].reset(); if (vfg_gaps) { vfg_gaps = 0; adds(); } nothing_else(); vfg_quiet = 1; request();
        vf_assert(ran(v) == 0, "T04.late", "a callback runs after its deregistration"); vf_assert(ran(1 - v) == 1 && ran(2) == 1, "T04.once", "a registered callback does not run when stop is requested"); vf_cover("list");
    }
    gone();
}
extern "C" void vfh_request_remove()
{
    { std::stop_source s; source = &s; other = remove_last; Slot c[3]; callbacks = c; vfg_quiet = 1; int n = vf_choice(2, "alone") ? 1 : 3; for (int i = 3 - n; i < 3; i++) c[i].emplace(s.get_token(), i); vfg_quiet = 0; vfg_gaps = 1; vfg_switches = 2; request(); bool removed = vfg_gaps == 0; int r = ran(2); nothing_else(); vf_assert(ran(2) == r && (removed || r == 1), "T04.once", "a registered callback does not run when stop is requested"); vf_assert(n == 1 || (ran(0) == 1 && ran(1) == 1), "T04.once", "a registered callback does not run when stop is requested"); }
    gone();
}
// registrations and deregistrations in any order, then a request
extern "C" void vfh_histories()
{
    {
        std::stop_source s; source = &s; Slot c[4]; for (int i = 0; i < 3; i++) c[i].emplace(s.get_token(), i);
        int gone1 = vf_choice(3, "first"), gone2 = vf_choice(3, "second"); c[gone1].reset(); if (vf_choice(2, "added")) c[3].emplace(s.get_token(), 3); c[gone2].reset(); if (vf_choice(2, "removed again")) c[3].reset(); bool there = !!c[3];
        request(); for (int i = 0; i < 3; i++) vf_assert(ran(i) == (i != gone1 && i != gone2), "T04.once", "a registered callback does not run when stop is requested, or another one does"); vf_assert(!there || ran(3) == 1, "T04.once", "a registered callback does not run when stop is requested"); vf_cover("history");
    }
    gone();
}
// two requests
extern "C" void vfh_two_requests()
{
    { std::stop_source s; source = &s; other = request; Slot c[2]; vfg_quiet = 1; for (int i = 0; i < 2; i++) c[i].emplace(s.get_token(), i); vfg_quiet = 0; vfg_gaps = 1; request(); nothing_else(); vf_assert(vfg_granted && ran(0) == 1 && ran(1) == 1, "T04.once", "a registered callback does not run when stop is requested"); vf_cover("two requests"); }
    gone();
}
static void victims(int v, bool second)
{
    {
        std::stop_source s; source = &s; Slot c[3]; callbacks = c; victim = v; inside = [](int id) { if (id == 1) destroys(id); }; vfg_quiet = 1; for (int i = 0; i < 3; i++) c[i].emplace(s.get_token(), i); vfg_quiet = 0; if (second) { other = remove_last; vfg_gaps = 1; vfg_switches = 2; } request(); nothing_else(); if (!second) vf_assert(ran(2) == 1, "T04.once", "a registered callback does not run when stop is requested"); vf_assert(ran(1) == 1 && (v == 0 || ran(0) == 1), "T04.once", "a registered callback does not run when stop is requested");
    }
    gone();
}
extern "C" void vfh_destroys_itself() { victims(1, false); }
extern "C" void vfh_destroys_next() { victims(0, false); }
extern "C" void vfh_destroys_previous() { victims(2, false); }
extern "C" void vfh_destroys_itself_other() { victims(1, true); }
extern "C" void vfh_destroys_next_other() { victims(0, true); }
extern "C" void vfh_destroys_itself_last() { { std::stop_source s; source = &s; Slot c[1]; callbacks = c; victim = 0; inside = [](int id) { destroys(id); }; c[0].emplace(s.get_token(), 0); request(); vf_assert(!c[0], "T04.once", "?"); } gone(); }
// a callback uses the token: the internal lock is not held
static void uses(int id) { if (id < 2) { std::stop_token t = source->get_token(); vf_assert(t.stop_requested() && !source->request_stop(), "T04.requested", "?"); Callback c(t, 3); vf_assert(ran(3) == 1, "T04.once", "a callback registered after the request does not run at once"); vf_cover("registered inside"); } }
extern "C" void vfh_uses() { { std::stop_source s; source = &s; inside = uses; Callback a(s.get_token(), 0), b(s.get_token(), 1); request(); vf_assert(ran(0) == 1 && ran(1) == 1, "T04.once", "a registered callback does not run when stop is requested"); } gone(); }
// the other thread is stopped inside the callback: nobody else has to wait for it
extern "C" void vfh_not_blocked()
{
    {
        std::stop_source s; source = &s; other = request; vfg_resumes = 0; Slot c[3]; vfg_quiet = 1; for (int i = 0; i < 3; i++) c[i].emplace(s.get_token(), i); vfg_quiet = 0; vfg_gaps = 1; act("request"); int w = vfg_spins, in = vfg_in[2]; c[0].reset(); vf_assert(!in || vfg_spins == w, "T04.unlocked", "a deregistration waits for a callback that does not concern it"); if (in) vf_cover("other callback running"); nothing_else();
    }
    gone();
}
// tokens and sources as values
extern "C" void vfh_values()
{
    {
        std::stop_source s; std::stop_token t = s.get_token(); std::optional<std::stop_source> s2; std::optional<std::stop_token> t2;
        for (int step = 0; step < 3; step++) switch (vf_choice(10, "operation"))
        {
        case 0: s2.emplace(s); break;
        case 1: t2.emplace(t); break;
        case 2: if (t2) { t = *t2; } break;
        case 3: if (s2) { s = *s2; } break;
        case 4: if (t2) { *t2 = std::move(t); t = *t2; } break;
        case 5: s2.emplace(std::move(s)); s = std::stop_source(); break;
        case 6: t2.reset(); break;
        case 7: s2.reset(); break;
        case 8: t = s.get_token(); break;
        default: s = std::stop_source(std::nostopstate); s.request_stop(); break;
        }
        (void)(t.stop_possible() || t.stop_requested()); if (t2) { (void)t2->stop_possible(); if (*t2 == t) vf_cover("shared"); } if (s2) { bool was = s2->stop_requested(); vf_assert(s2->request_stop() == (s2->stop_possible() && !was), "T04.one-requester", "?"); } vf_cover("values");
    }
}
// the last reference is a token, a source or a callback
extern "C" void vfh_last()
{
    {
        std::optional<std::stop_source> s; std::optional<std::stop_token> t; Slot c; s.emplace(); t.emplace(s->get_token()); int how = vf_choice(3, "registered"); if (how == 0) c.emplace(*t, 0); else if (how == 1) c.emplace(s->get_token(), 0); if (vf_choice(2, "requested")) { source = &*s; request(); }
        for (int k = 0; k < 3; k++) switch (vf_choice(3, "next to go")) { case 0: s.reset(); if (c && t) (void)t->stop_possible(); break; case 1: t.reset(); break; default: c.reset(); }
        vf_cover("in any order");
    }
}
// the only callback drops everything else, the source too
static std::stop_source* heap_source;
extern "C" void vfh_source_gone() { Slot c; callbacks = &c; heap_source = new std::stop_source; c.emplace(heap_source->get_token(), 0); inside = [](int) { delete heap_source; callbacks->reset(); vf_cover("source gone"); }; vfg_requested = 1; heap_source->request_stop(); vf_assert(ran(0) == 1, "T04.once", "a registered callback does not run when stop is requested"); gone(); }
// last references are dropped on two threads
static std::optional<std::stop_token>* spare; static std::optional<std::stop_source>* spare_source;
extern "C" void vfh_last_token() { { std::optional<std::stop_token> a, b; spare = &b; vfg_quiet = 1; { std::stop_source s; a = s.get_token(); b = s.get_token(); } vfg_quiet = 0; other = [] { (void)spare->value().stop_possible(); spare->reset(); }; vfg_gaps = 1; (void)a->stop_requested(); a.reset(); nothing_else(); if (vfg_gaps == 0) vf_cover("dropped"); } }
extern "C" void vfh_last_source() { { std::optional<std::stop_token> a; std::optional<std::stop_source> s; spare_source = &s; vfg_quiet = 1; s.emplace(); a = s->get_token(); vfg_quiet = 0; other = [] { spare_source->value().request_stop(); spare_source->reset(); }; vfg_gaps = 1; (void)a->stop_possible(); a.reset(); nothing_else(); } }
extern "C" void vfh_last_callback() { { std::optional<std::stop_source> s; Slot c; spare_source = &s; vfg_quiet = 1; s.emplace(); c.emplace(s->get_token(), 0); vfg_quiet = 0; other = [] { vfg_requested = 1; spare_source->value().request_stop(); spare_source->reset(); }; vfg_gaps = 1; c.reset(); nothing_else(); } gone(); }
// controls
struct Loose { std::stop_callback<Cb>* c; };
extern "C" void vfh_ctl_early() { std::stop_source s; source = &s; Callback c(s.get_token(), 0); s.request_stop(); }
extern "C" void vfh_ctl_leak() { auto* t = new std::stop_token(); { std::stop_source s; *t = s.get_token(); } t = nullptr; act("?"); }
extern "C" void vfh_ctl_running() { alignas(Callback) static char buf[sizeof(Callback)]; std::stop_source s; source = &s; other = request; auto* c = new (buf) Callback(s.get_token(), 0); vfg_gaps = 1; act("request"); reinterpret_cast<Cb*>(buf + sizeof(Callback) - sizeof(Cb))->~Cb(); nothing_else(); }
