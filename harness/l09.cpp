// L09: scope guards. The duty to run the action: it runs exactly once for an engaged guard at the end of its scope, never after release; moving transfers it.
#include "vf.h"
#include "Awl/ScopeGuard.h"
#include <utility>
extern "C" { int vfg_runs[4]; int vfg_inits; }
struct Act { int id; Act(int i) : id(i) {} Act(const Act& o) : id(o.id) {} Act(Act&& o) noexcept : id(o.id) { o.id = 3; } Act& operator=(Act&& o) noexcept { id = o.id; o.id = 3; return *this; } Act& operator=(const Act&) = default; void operator()() { vfg_runs[id]++; } };
using G = awl::scope_guard<Act>;
static void expect(int a, int b, const char* msg) { vf_assert(vfg_runs[0] == a && vfg_runs[1] == b && vfg_runs[3] == 0, "L09.exactly-once", msg); vf_cover("guards left"); }
extern "C" void vfh_scope()
{
    bool e = vf_choice(2, "engaged"), r = vf_choice(2, "released"); int exit = vf_choice(3, "exit: end, return, exception");
    try { auto f = [&] { G g = e ? awl::make_scope_guard(Act(0)) : awl::make_scope_guard(Act(0), false); if (vf_choice(2, "late exit")) vf_assert(vfg_runs[0] == 0, "L09.at-the-end", "the action runs before the scope ends"); if (r) g.release(); if (exit == 1) return; if (exit == 2) throw 1; }; f(); } catch (int) {}
    expect(e && !r, 0, "the action of a guard did not run exactly once, or the action of a disengaged one ran");
}
extern "C" void vfh_init()
{
    bool e = vf_choice(2, "engaged"); { auto g = awl::make_scope_guard([] { vfg_inits++; }, Act(0), e); vf_assert(vfg_inits == (e ? 1 : 0), "L09.init", "the initial action does not run exactly for an engaged guard"); }
    expect(e, 0, "the action of a guard with an initial action did not run exactly once");
}
extern "C" void vfh_move()
{
    bool e = vf_choice(2, "engaged"), r = vf_choice(2, "released before the move"), r2 = vf_choice(2, "new guard released");
    { G a(Act(0), e); if (r) a.release(); { G b(std::move(a)); if (r2) b.release(); } vf_assert(vfg_runs[0] == (e && !r && !r2), "L09.moved-with-duty", "a guard that was moved to does not run the action exactly if the old one had to"); }
    expect(e && !r && !r2, 0, "the old guard runs the action after having been moved from");
}
extern "C" void vfh_assign()
{
    bool ea = vf_choice(2, "target engaged"), eb = vf_choice(2, "source engaged");
    { G a(Act(0), ea); { G b(Act(1), eb); G& q = (a = std::move(b)); vf_assert(&q == &a, "L09.moved-with-duty", "assignment returns another guard"); } vf_assert(vfg_runs[1] == 0, "L09.moved-with-duty", "the guard that was moved from runs the action"); }
    vf_assert(vfg_runs[3] == 0, "L09.moved-with-duty", "the guard that was moved from runs the action"); vf_assert(vfg_runs[1] == eb, "L09.moved-with-duty", "after an assignment the action does not run exactly if the source had to run it"); vf_assert(vfg_runs[0] == ea, "L09.replaced", "the action of an engaged guard that is assigned to did not run exactly once");
}
// a guard is engaged unless it is told not to be
extern "C" void vfh_default() { { G g{Act(0)}; auto h = awl::make_scope_guard([] { vfg_inits++; }, Act(1)); vf_assert(vfg_inits == 1, "L09.init", "the initial action does not run exactly for an engaged guard"); } expect(1, 1, "the action of a guard did not run exactly once"); }
// an action that stays the same when it is moved from
struct Plain { int id; void operator()() { vfg_runs[id]++; } };
extern "C" void vfh_assign_plain() { bool ea = vf_choice(2, "target engaged"), eb = vf_choice(2, "source engaged"), r = vf_choice(2, "released"); { awl::scope_guard<Plain> a(Plain{0}, ea), b(Plain{1}, eb); a = std::move(b); if (r) a.release(); } expect(ea, eb && !r, "after an assignment the action does not run exactly if the source had to run it"); }
extern "C" void vfh_self() { bool r = vf_choice(2, "released"); { awl::scope_guard<Plain> a(Plain{0}); awl::scope_guard<Plain>& b = a; a = std::move(b); vf_assert(vfg_runs[0] == 0, "L09.at-the-end", "the action runs before the scope ends"); if (r) a.release(); } expect(!r, 0, "the action of a guard did not run exactly once"); }
// an action that fails
struct Fails { int id; void operator()() { vfg_runs[id]++; if (vfg_inits) throw id; } };
extern "C" void vfh_fails() { awl::scope_guard<Fails> b(Fails{1}); int t = 0; { awl::scope_guard<Fails> a(Fails{0}); vfg_inits = 1; try { a = std::move(b); } catch (int) { t = 1; } vfg_inits = 0; if (t) vf_cover("action failed"); } vf_assert(vfg_runs[0] == 1, "L09.replaced", "the action of an engaged guard that is assigned to did not run exactly once"); b.release(); }
extern "C" void vfh_virtual()
{
    awl::virtual_guard f = awl::make_fake_guard(); bool r = vf_choice(2, "released");
    { awl::virtual_guard g = awl::make_virtual_guard(Act(0)); if (r) g.release(); }
    expect(!r, 0, "the action of a type-erased guard did not run exactly once");
}
extern "C" void vfh_ctl_twice() { { G a(Act(0)); G b(Act(0)); } expect(1, 0, "control"); }
