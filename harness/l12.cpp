// L12: an aggregator calls its function when, and only when, all its arguments are there. L13: singletons.
#include "vf.h"
#include <stdexcept>
#include "Awl/Aggregator.h"
#include "Awl/SharedSingleton.h"
VFG(int, alive, 0) VFG(int, calls, 0) VFG(int, cancelled, 0)
extern "C" { int vfg_set[3] = {}; uint64_t vfg_val[3] = {}, vfg_got[3] = {}; }
struct Only { uint64_t v; bool there; Only(uint64_t x) : v(x), there(true) { vfg_alive++; } Only(Only&& o) : v(o.v), there(o.there) { o.there = false; vfg_alive++; } Only& operator=(Only&& o) { v = o.v; there = o.there; if (&o != this) o.there = false; return *this; } ~Only() { vfg_alive--; } };
static void called(uint64_t a, uint64_t b, const Only& c)
{
    vf_assert(!vfg_cancelled, "L12.cancel", "the function is called although it has been cancelled"); vf_assert(vfg_set[0] && vfg_set[1] && vfg_set[2], "L12.early", "the function is called although an argument is missing");
    vf_assert(vfg_calls || c.there, "L12.value", "an argument that has been moved away is passed"); vfg_calls++; vfg_got[0] = a; vfg_got[1] = b; vfg_got[2] = c.v;
}
template <class A> static void drive(A& a)
{
    vf_assert(!a.all(), "L12.all", "an aggregator without arguments says that it has all of them");
    for (int step = 0; step < 5 + DEEP; step++)
    {
        int op = vf_choice(5, "operation"); if (op == 4) break; uint64_t x = vf_nondet("value");
        if (op == 3) { a.cancel(); vfg_cancelled = 1; } else { vfg_set[op] = 1; vfg_val[op] = x; if (op == 0) a.template set<0>(x); else if (op == 1) a.template set<1>(x); else a.template set<2>(Only(x)); }
        bool all = vfg_set[0] && vfg_set[1] && vfg_set[2]; vf_assert(a.all() == all, "L12.all", "the aggregator is wrong about having all arguments");
        vf_assert(vfg_calls == (all && !vfg_cancelled) || (vfg_cancelled && vfg_calls == 0), "L12.call", "the function is not called when the last argument is set");
        if (vfg_calls) { for (int i = 0; i < 3; i++) vf_assert(vfg_got[i] == vfg_val[i], "L12.value", "an argument is not the value set last"); vf_cover("called"); break; }
    }
}
extern "C" void vfh_l12() { { awl::aggregator<uint64_t, const uint64_t&, Only> a([](uint64_t a, const uint64_t& b, Only c) { called(a, b, c); }); drive(a); } vf_assert(vfg_alive == 0, "L12.leak", "an argument is left behind"); }
extern "C" void vfh_l12_shared() { { auto a = awl::make_shared_aggregator(std::function<void(uint64_t, const uint64_t&, Only)>([](uint64_t a, const uint64_t& b, Only c) { called(a, b, c); })); drive(*a); } vf_assert(vfg_alive == 0, "L12.leak", "an argument is left behind"); }
extern "C" void vfh_l12_one() { uint64_t x = vf_nondet("value"); awl::aggregator<uint64_t> a([](uint64_t v) { vfg_calls++; vfg_got[0] = v; }); if (vf_choice(2, "cancelled")) { a.cancel(); a.set<0>(x); vf_assert(vfg_calls == 0 && a.all(), "L12.cancel", "the function is called although it has been cancelled"); } else { a.set<0>(x); vf_assert(vfg_calls == 1 && vfg_got[0] == x, "L12.call", "the function is not called when the last argument is set"); vf_cover("called"); } }
extern "C" void vfh_ctl_l12() { vfg_set[0] = vfg_set[1] = 1; called(1, 2, Only(3)); }
// ---- singletons ----
VFG(int, created, 0) VFG(int, destroyed, 0) VFG(int, fails, 0)
template <int K> struct One { uint64_t v = 7; One() { if (vfg_fails) throw std::runtime_error("no instance"); vfg_created++; } ~One() { v = 0; vfg_destroyed++; } One(const One&) = delete; };
template <int K, class F> static void single(F get, bool again)
{
    std::shared_ptr<One<K>> held[3]; int made = 0; bool live = false;
    for (int step = 0; step < 5 + DEEP; step++)
    {
        int op = vf_choice(5, "operation"); if (op == 4) break;
        if (op == 3) { for (auto& p : held) p.reset(); if (live) { vf_assert(vfg_destroyed == made, "L13.destroyed", "the instance outlives its last user"); live = false; } continue; }
        bool fails = vf_choice(2, "no instance can be made"); vfg_fails = fails; bool may = live || made == 0 || again, threw = false; std::shared_ptr<One<K>> p; try { p = get(); } catch (const std::runtime_error&) { threw = true; }
        vf_assert(threw == (fails && !live && may), "L13.failure", "a failure to make the instance is lost or invented");
        if (threw) { vf_assert(vfg_created == made, "L13.once", "a second instance is made"); continue; }
        vf_assert((p != nullptr) == may, "L13.instance", "the instance is missing or has come back"); if (!p) { vf_assert(vfg_created == made, "L13.once", "a second instance is made"); vf_cover("gone"); continue; }
        if (!live) { made++; live = true; }
        vf_assert(vfg_created == made && vfg_destroyed == made - 1 && p->v == 7, "L13.once", "a second instance is made while the first one lives"); for (auto& q : held) vf_assert(!q || q == p, "L13.same", "two users see different instances"); held[op] = p; vf_cover("instance");
    }
}
extern "C" void vfh_l13_shared() { single<0>([] { return awl::shared_singleton<One<0>>(); }, false); }
extern "C" void vfh_l13_ondemand() { single<1>([] { return awl::ondemand_singleton<One<1>>(); }, true); vf_cover("gone"); }
extern "C" void vfh_ctl_l13() { single<2>([] { return std::make_shared<One<2>>(); }, true); }
