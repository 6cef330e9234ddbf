// L02/L03: observers and observables, any of which may be moved, destroyed or unsubscribed in any order.
// Observers and observables live in slots that are freed on destruction: touching a dead one is a memory error.
#include "vf.h"
#include "Awl/Observable.h"
#include <new>
#include <utility>
struct IEv { virtual void On(int v) = 0; virtual bool Ask(int v) = 0; };
enum { NO = 3, NS = 2 };
// reference: for every observable slot the order of the subscribed observers (by identity of the logical observer)
extern "C" { int vfg_r[NS][6]; int vfg_n[NS]; int vfg_calls[8]; int vfg_order[16]; int vfg_no; int vfg_arg; int vfg_act[8]; int vfg_wrong; int vfg_until; int vfg_fresh; }
struct Obs;
static void onCall(Obs* o);
struct Obs : awl::Observer<IEv>
{
    int id;
    explicit Obs(int i) : id(i) {}
    Obs(Obs&& o) = default; Obs& operator=(Obs&& o) = default;
    void On(int v) override { int i = id; if (i >= 0 && i < 8) vfg_calls[i]++; if (v != 42) vfg_wrong = 1; vfg_order[vfg_no++] = i; onCall(this); }
    bool Ask(int v) override { int i = id; if (i >= 0 && i < 8) vfg_calls[i]++; if (v != 42) vfg_wrong = 1; vfg_order[vfg_no++] = i; onCall(this); return i != vfg_until; }
};
struct Src : awl::Observable<IEv> { void Fire() { Notify(&IEv::On, 42); } bool Asks() { return NotifyWhileTrue(&IEv::Ask, 42); } };
static Obs* ob[NO]; static Src* sr[NS];
static void add(int s, int i) { vfg_r[s][vfg_n[s]++] = i; }
static void del(int i) { for (int s = 0; s < NS; s++) for (int k = 0; k < vfg_n[s]; k++) if (vfg_r[s][k] == i) { for (int j = k + 1; j < vfg_n[s]; j++) vfg_r[s][j - 1] = vfg_r[s][j]; vfg_n[s]--; return; } }
static int where(int i) { for (int s = 0; s < NS; s++) for (int k = 0; k < vfg_n[s]; k++) if (vfg_r[s][k] == i) return s; return -1; }
static void onCall(Obs* o)
{
    if (o->id < 0 || o->id >= 8) return;
    switch (vfg_act[o->id]) { case 1: o->UnsubscribeSelf(); break; case 2: o->UnsubscribeSafe(); break; case 3: { int i = o->id; if (ob[i] == o) ob[i] = nullptr; delete o; break; } case 4: sr[where(o->id)]->Unsubscribe(o); break; default: break; }
}
static void clearCalls() { for (int& c : vfg_calls) c = 0; vfg_no = 0; vfg_wrong = 0; }
static void verify(const char* msg)
{
    for (int s = 0; s < NS; s++) { if (!sr[s]) continue; clearCalls(); sr[s]->Fire(); vf_assert(vfg_no == vfg_n[s] && !vfg_wrong, "L02.exactly-registered", msg); for (int k = 0; k < vfg_n[s]; k++) vf_assert(vfg_order[k] == vfg_r[s][k], "L02.exactly-registered", msg);
        vf_assert(sr[s]->empty() == (vfg_n[s] == 0) && sr[s]->size() == (size_t)vfg_n[s], "L02.counted", "empty or size of an observable does not agree with its observers"); }
    for (int i = 0; i < NO; i++) if (ob[i]) vf_assert(ob[i]->IsSubscribed() == (where(ob[i]->id) >= 0), "L02.self-knowledge", "an observer does not know whether it is subscribed");
    vf_cover("verified");
}
static void dropSrc(int s) { delete sr[s]; sr[s] = nullptr; vfg_n[s] = 0; }
static bool step()
{
    int k = vf_choice(12, "0,1 unsubscribe 2,3 destroy observer 4 move-construct observer 5 move-assign observer 6 destroy observable 7 move-construct observable 8 move-assign observable 9 safe unsubscribe 10 subscribe 11 subscribe elsewhere");
    switch (k)
    {
    case 0: case 1: { Obs* o = ob[k]; if (!o || where(o->id) < 0) return false; int s = where(o->id); sr[s]->Unsubscribe(o); del(o->id); return true; }
    case 2: case 3: { int i = k - 2; if (!ob[i]) return false; del(ob[i]->id); delete ob[i]; ob[i] = nullptr; return true; }
    case 4: { if (!ob[0]) return false; Obs* n = new Obs(std::move(*ob[0])); ob[0]->id = -2 - vfg_fresh++; delete ob[0]; ob[0] = n; return true; }
    case 5: { if (!ob[0] || !ob[1]) return false; del(ob[1]->id); *ob[1] = std::move(*ob[0]); ob[0]->id = -2 - vfg_fresh++; return true; }
    case 6: { if (!sr[0]) return false; dropSrc(0); return true; }
    case 7: { if (!sr[0]) return false; Src* n = new Src(std::move(*sr[0])); vf_assert(sr[0]->empty(), "L02.moved-from", "a moved-from observable still has observers"); delete sr[0]; sr[0] = n; return true; }
    case 8: { if (!sr[0] || !sr[1]) return false; *sr[1] = std::move(*sr[0]); for (int j = 0; j < vfg_n[0]; j++) vfg_r[1][j] = vfg_r[0][j]; vfg_n[1] = vfg_n[0]; vfg_n[0] = 0; return true; }
    case 9: { if (!ob[2]) return false; ob[2]->UnsubscribeSafe(); del(ob[2]->id); return true; }
    case 10: case 11: { int s = k - 10; if (!ob[1] || !sr[s] || where(ob[1]->id) >= 0) return false; sr[s]->Subscribe(ob[1]); add(s, ob[1]->id); return true; }
    }
    return false;
}
static void setup() { for (int s = 0; s < NS; s++) sr[s] = new Src(); for (int i = 0; i < NO; i++) { ob[i] = new Obs(i); int w = i == 2 ? 1 + vf_choice(2, "observer 2: second observable or none") : 0; if (w < 2) { sr[w]->Subscribe(ob[i]); add(w, i); } } }
extern "C" void vfh_lifetime()
{
    setup(); verify("after subscription the observers are not notified once each in order");
    for (int i = 0; i < 3; i++) { if (!step()) return; verify("not exactly the registered observers are notified, in order"); }
    bool first = vf_choice(2, "observers or observables die first");
    for (int r = 0; r < 2; r++) { if (first == (r == 0)) { for (int i = 0; i < NO; i++) { if (ob[i]) del(ob[i]->id); delete ob[i]; ob[i] = nullptr; } } else { for (int s = 0; s < NS; s++) { delete sr[s]; sr[s] = nullptr; vfg_n[s] = 0; } } verify("an observer or observable that died is still reached"); }
    vf_cover("all gone");
}
// ---- L03
static int alive0; extern "C" { int vfg_exp[4]; int vfg_ne; }
extern "C" void vfh_notify()
{
    sr[0] = new Src(); int n = vf_choice(4, "observers"); for (int i = 0; i < n; i++) { ob[i] = new Obs(i); sr[0]->Subscribe(ob[i]); add(0, i); }
    vfg_until = -1; vfg_ne = n; bool ask = vf_choice(2, "until false"); if (ask) { vfg_until = vf_choice(4, "the observer that stops"); if (vfg_until < n) vfg_ne = vfg_until + 1; }
    for (int i = 0; i < n; i++) vfg_act[i] = vf_choice(5, "in the call: nothing, unsubscribe, safe, delete, unsubscribe at the observable");
    clearCalls(); bool r = true; if (ask) r = sr[0]->Asks(); else sr[0]->Fire();
    vf_assert(!vfg_wrong, "L03.argument", "an observer is called with another argument");
    vf_assert(vfg_no == vfg_ne, "L03.each-once", "a notification does not call every observer once up to the first that stops it");
    for (int i = 0; i < vfg_ne; i++) vf_assert(vfg_order[i] == i, "L03.in-order", "the observers are not called in the order of subscription");
    vf_assert(r == !(ask && vfg_until < n), "L03.reported", "a notification that stops at an observer that returns false does not report it");
    // the survivors are still registered, the others are not
    int k = 0; for (int i = 0; i < n; i++) if (i >= vfg_ne || vfg_act[i] == 0) { vfg_exp[k++] = i; if (ob[i]) vfg_act[i] = 0; }
    for (int i = 0; i < n; i++) vfg_act[i] = 0; clearCalls(); sr[0]->Fire(); vf_assert(vfg_no == k, "L03.removed", "an observer that unsubscribed in the call is called again, or another one was lost"); for (int i = 0; i < k; i++) vf_assert(vfg_order[i] == vfg_exp[i], "L03.removed", "after a notification the registered observers are not those that stayed");
    vf_cover("notified");
}
struct Bad : Src { void Late(Obs* o) { IEv* p = o; p->On(42); (void)o->IsSubscribed(); } };
extern "C" void vfh_ctl_late() { sr[0] = new Src(); ob[0] = new Obs(0); sr[0]->Subscribe(ob[0]); add(0, 0); vfg_act[0] = 3; Bad b; b.Late(ob[0]); sr[0]->Fire(); vf_assert(vfg_no == 2, "L03.removed", "control"); vf_assert(vfg_no == 2, "L02.exactly-registered", "control"); }
