// L10: the owning pointer. Objects count their constructions and destructions; every operation transfers or ends ownership exactly once.
#include "vf.h"
#include "Awl/UniquePtr.h"
extern "C" { int vfg_dead[8]; int vfg_made; }
struct Boom {};
struct O { int id; explicit O(int i) : id(i) { if (i == 7) throw Boom(); vfg_made++; } ~O() { vf_assert(vfg_dead[id] == 0, "L10.once", "an object is deleted twice"); vfg_dead[id]++; } };
using P = awl::unique_ptr<O>;
static void gone(int n) { for (int i = 0; i < n; i++) vf_assert(vfg_dead[i] == 1, "L10.once", "an owned object is not deleted exactly once"); vf_cover("all owners gone"); }
static void alive(int i) { vf_assert(vfg_dead[i] == 0, "L10.kept", "an object is deleted while it is owned"); }
extern "C" void vfh_make() { { P p = awl::make_unique<O>(0); alive(0); vf_assert(p && p.get() && p->id == 0 && (*p).id == 0 && p == p.get() && !(p != p.get()), "L10.value", "the pointer does not refer to its object"); P e; vf_assert(!e && e.get() == nullptr && e != p && !(e == p), "L10.value", "an empty pointer is not empty"); } gone(1); }
// arguments arrive as they were given
struct Arg { int copies = 0, moves = 0; Arg() = default; Arg(const Arg& o) : copies(o.copies + 1), moves(o.moves) {} Arg(Arg&& o) : copies(o.copies), moves(o.moves + 1) {} };
struct Holder { Arg a, b; int n; Holder(Arg x, Arg&& y, int& z) : a(std::move(x)), b(std::move(y)), n(z++) {} Holder(Arg x, const Arg&, const int&) : a(std::move(x)), n(-1) {} };
extern "C" void vfh_forward() { Arg x, y; int n = 4; auto p = awl::make_unique<Holder>(x, std::move(y), n); vf_assert(p->a.copies == 1 && p->b.copies == 0 && p->b.moves == 1 && p->n == 4 && n == 5, "L10.value", "the object is not made from the given arguments"); }
extern "C" void vfh_throw() { try { P p = awl::make_unique<O>(7); } catch (const Boom&) { vf_cover("creation failed"); } vf_assert(vfg_made == 0, "L10.once", "control"); }
extern "C" void vfh_move() { { P a(new O(0)); { P b(std::move(a)); vf_assert(!a && b.get() && b->id == 0, "L10.transfer", "a moved-from pointer is not empty or the new one does not own the object"); alive(0); } vf_assert(vfg_dead[0] == 1, "L10.once", "the new owner does not delete the object"); } gone(1); }
extern "C" void vfh_assign()
{
    bool ha = vf_choice(2, "target owns"), hb = vf_choice(2, "source owns");
    { P a(ha ? new O(0) : nullptr); { P b(hb ? new O(1) : nullptr); O* q = b.get(); P& r = (a = std::move(b)); vf_assert(&r == &a && !b && a.get() == q, "L10.transfer", "assignment does not transfer the object"); vf_assert(vfg_dead[0] == ha, "L10.replaced", "the replaced object is not deleted exactly once"); } alive(1); }
    vf_assert(vfg_dead[0] == ha && vfg_dead[1] == hb, "L10.once", "an owned object is not deleted exactly once"); vf_cover("all owners gone");
}
extern "C" void vfh_reset() { bool n = vf_choice(2, "to another object"); { P a(new O(0)); O* q = n ? new O(1) : nullptr; a.reset(q); vf_assert(a.get() == q, "L10.transfer", "reset does not take over the new object"); vf_assert(vfg_dead[0] == 1, "L10.replaced", "reset does not delete the old object"); alive(1); } if (n) gone(2); else gone(1); }
extern "C" void vfh_release() { O* q; { P a(new O(0)); O* p = a.get(); q = a.release(); vf_assert(p == q && !a, "L10.transfer", "release does not give up the object"); } alive(0); delete q; { P e; vf_assert(e.release() == nullptr, "L10.transfer", "release of an empty pointer"); } gone(1); }
static P factory(int i) { P p(new O(i)); if (vf_choice(2, "path") == 0) return p; P q(std::move(p)); return q; }
extern "C" void vfh_chain() { { P a = factory(0); a = factory(1); vf_assert(vfg_dead[0] == 1, "L10.replaced", "the replaced object is not deleted"); alive(1); P b = std::move(a); a.reset(new O(2)); b = std::move(a); alive(2); } gone(3); }
extern "C" void vfh_ctl_twice() { O* o = new O(0); P a(o); P b(o); }
