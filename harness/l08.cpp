// L08: the object pool. Every object is in exactly one place: free in the pool, owned by one chain of shared pointers, or being finalized.
#include "vf.h"
#include <memory>
#include "Awl/ObjectPool.h"
#include <utility>
// 0 none, 1 in the pool or being created, 2 handed out, 3 being finalized
VFG(int, n, 0) VFG(int, boom, 0) VFG(int, live, 0) VFG(int, nested, 0) VFG(int, fin, 0)
extern "C" { const void* vfg_at[8]; int vfg_st[8]; int vfg_fincount[8]; }
struct Obj;
static awl::object_pool<Obj>* pool();
static int idx(const void* p) { for (int i = 0; i < vfg_n; i++) if (vfg_at[i] == p) return i; return -1; }
struct Boom {};
static void take(const Obj* p);
struct Obj : awl::pooled_object
{
    int v = 7;
    Obj() { if (vfg_boom) { vfg_boom = 0; throw Boom(); } vfg_at[vfg_n] = this; vfg_st[vfg_n] = 1; vfg_fincount[vfg_n] = 0; vfg_n++; vfg_live++; }
    ~Obj() override { int i = idx(this); vf_assert(i >= 0 && vfg_st[i] == 1, "L08.deleted-while-owned", "the pool deletes an object that it does not own"); if (i >= 0) { vfg_st[i] = 0; vfg_at[i] = nullptr; } vfg_live--; }
    void Finalize() override
    {
        int i = idx(this); vf_assert(i >= 0 && vfg_st[i] == 2, "L08.finalize-once", "an object is finalized that was not handed out or is finalized already");
        vf_assert(v == 7, "L08.alive", "a finalized object has lost its contents"); if (i < 0) return; vfg_st[i] = 3; vfg_fincount[i]++; vfg_fin++;
        if (vfg_nested) { vfg_nested = 0; std::shared_ptr<Obj> q = pool()->make(); take(q.get()); vf_cover("nested make"); }
        vfg_st[i] = 1;
    }
};
static void take(const Obj* p)
{
    int i = idx(p); vf_assert(i >= 0, "L08.valid", "the pool hands out something that is not a live object"); if (i < 0) return;
    vf_assert(vfg_st[i] == 1, "L08.exclusive", "the pool hands out an object that is still owned or not yet finalized"); vfg_st[i] = 2; vf_cover("handed out");
}
static awl::object_pool<Obj>* thePool; static awl::object_pool<Obj>* pool() { return thePool; }
static void released(const Obj* p, int before) { int i = idx(p); vf_assert(i >= 0 && vfg_st[i] == 1 && vfg_fincount[i] == before + 1, "L08.finalize-once", "a released object is not finalized exactly once"); vf_cover("released"); }
static int owned() { int k = 0; for (int i = 0; i < vfg_n; i++) if (vfg_at[i] && vfg_st[i] == 2) k++; return k; }
static void drop(std::shared_ptr<Obj>& s, int others)
{
    if (!s) return; const Obj* p = s.get(); int i = idx(p), f = vfg_fincount[i]; s.reset();
    if (others) vf_assert(vfg_st[i] == 2 && vfg_fincount[i] == f, "L08.exclusive", "an object returns to the pool while it still has an owner"); else released(p, f);
}
static void step(std::shared_ptr<Obj>* s)
{
    int k = vf_choice(7, "0,1 make 2,3 release 4 share 5 failing make 6 clear");
    if (k < 2) { if (s[k]) return; int live = vfg_live, had = live - owned(); s[k] = pool()->make(); take(s[k].get()); vf_assert(vfg_live == (had ? live : live + 1), "L08.reused", "an object is created although a returned one is free, or none is created"); }
    else if (k < 4) { std::shared_ptr<Obj> other = s[3 - k]; bool sh = other && other == s[k - 2]; other.reset(); drop(s[k - 2], sh); }
    else if (k == 4) { if (s[0] && !s[1]) s[1] = s[0]; }
    else if (k == 5) { if (s[0]) return; vfg_boom = 1; int live = vfg_live, o = owned(); try { s[0] = pool()->make(); take(s[0].get()); } catch (const Boom&) { vf_assert(vfg_live == live && owned() == o, "L08.failed-creation", "a failed creation changes the pool"); vf_cover("creation failed"); } vfg_boom = 0; }
    else { int o = owned(); pool()->clear(); vf_assert(vfg_live == o, "L08.clear", "clear deletes an owned object or keeps a free one"); }
}
extern "C" void vfh_pool()
{
    {
        awl::object_pool<Obj> p; thePool = &p; std::shared_ptr<Obj> s[2];
        for (int i = 0; i < 4; i++) step(s);
        bool sh = s[0] && s[0] == s[1]; drop(s[0], sh); drop(s[1], 0);
    }
    vf_assert(vfg_live == 0, "L08.none-lost", "an object outlives the pool"); vf_cover("pool gone");
}
extern "C" void vfh_add()
{
    { awl::object_pool<Obj> p; thePool = &p; Obj* o = new Obj(); std::shared_ptr<Obj> a = p.add(o); vf_assert(a.get() == o, "L08.valid", "an added object is not the one handed out"); take(o); std::shared_ptr<Obj> b = p.make(); take(b.get()); drop(a, 0); std::shared_ptr<Obj> c = p.make(); take(c.get()); drop(b, 0); drop(c, 0); }
    vf_assert(vfg_live == 0, "L08.none-lost", "an object outlives the pool");
}
extern "C" void vfh_nested()
{
    { awl::object_pool<Obj> p; thePool = &p; std::shared_ptr<Obj> a = p.make(); take(a.get()); vfg_nested = 1; drop(a, 0); std::shared_ptr<Obj> b = p.make(); take(b.get()); drop(b, 0); }
    vf_assert(vfg_live == 0, "L08.none-lost", "an object outlives the pool");
}
// control: a second owner that does not share
extern "C" void vfh_ctl_two() { awl::object_pool<Obj> p; thePool = &p; std::shared_ptr<Obj> a = p.make(); take(a.get()); take(a.get()); }
