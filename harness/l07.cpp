// L07: the ring. Elements register the address they live at; every construction must hit a free slot,
// every use, copy and destruction a live one. Shapes: any capacity 1..3, any start, any fill; one operation, any element copy may fail.
#include "vf.h"
#include "Awl/Ring.h"
#include <new>
#include <utility>
VFG(int, nlive, 0) VFG(int, budget, -1) VFG(int, nref, 0) VFG(int, scope, 0) VFG(int, copies, 0)
extern "C" { const void* vfg_addr[24]; int vfg_ref[12]; }
struct Boom {};
static int find(const void* p) { for (int i = 0; i < vfg_nlive; i++) if (vfg_addr[i] == p) return i; return -1; }
struct E
{
    int v;
    static void enter(const void* p) { vf_assert(find(p) < 0, "L07.free-slot", "an element is constructed in a slot that still holds one"); vfg_addr[vfg_nlive++] = p; }
    static void mayThrow() { if (vfg_budget > 0 && --vfg_budget == 0) throw Boom(); }
    explicit E(int x) : v(x) { enter(this); }
    E(const E& o) : v(0) { vf_assert(find(&o) >= 0, "L07.live-source", "an element is copied from a slot that holds none"); mayThrow(); enter(this); v = o.v; vfg_copies++; }
    E(E&& o) : v(0) { vf_assert(find(&o) >= 0, "L07.live-source", "an element is moved from a slot that holds none"); mayThrow(); enter(this); v = o.v; o.v = -1; }
    E& operator=(const E&) = delete;
    ~E() { int i = find(this); vf_assert(i >= 0, "L07.destroy-live", "an element is destroyed that is not alive"); if (i >= 0) { vfg_addr[i] = vfg_addr[vfg_nlive - 1]; vfg_nlive--; } }
    bool operator==(const E& o) const { return v == o.v; }
};
using R = awl::ring<E>;
// a ring of any capacity, start and fill; reference contents in vfg_ref
static void build(R& r, int cap)
{
    int start = vf_choice(cap, "start"), n = vf_choice(cap + 1, "fill");
    for (int i = 0; i < start; i++) { E x(99); r.push_back(x); } for (int i = 0; i < start; i++) r.pop_front();
    for (int i = 0; i < n; i++) { E x(10 + i); r.push_back(x); vfg_ref[i] = 10 + i; }
    vfg_nref = n;
}
static void check(R& r, int cap, int extra)
{
    vf_assert(r.size() == (size_t)vfg_nref && r.size() <= r.capacity() && r.capacity() == (size_t)cap, "L07.size", "size or capacity is not what the operations imply");
    vf_assert(r.empty() == (vfg_nref == 0) && r.full() == (vfg_nref == cap), "L07.size", "empty or full does not agree with the contents");
    vf_assert(vfg_nlive == vfg_nref + extra, "L07.no-lost-element", "an element that left the ring is still alive or one in the ring is not");
    for (int i = 0; i < vfg_nref; i++) { const E& e = r[i]; vf_assert(find(&e) >= 0, "L07.window", "a position inside the ring refers to a slot without an element"); vf_assert(e.v == vfg_ref[i], "L07.contents", "the ring does not hold the expected elements in order"); vf_assert(&r.at(i) == &e, "L07.contents", "the checked access refers to another element"); }
    int k = 0; for (const E& e : r) { vf_assert(k < vfg_nref && e.v == vfg_ref[k], "L07.iteration", "iteration does not visit the elements in order"); if (++k > cap) break; }
    vf_assert(k == vfg_nref, "L07.iteration", "iteration does not visit every element once");
    k = vfg_nref; for (auto i = r.rbegin(); i != r.rend(); ++i) { --k; vf_assert(k >= 0 && i->v == vfg_ref[k], "L07.iteration", "backward iteration does not visit the elements in order"); if (k <= 0) { ++i; vf_assert(i == r.rend(), "L07.iteration", "backward iteration does not end after the first element"); break; } }
    vf_assert(k == 0, "L07.iteration", "backward iteration does not visit every element once");
    const R& c = r; k = vfg_nref; for (auto i = c.rbegin(); i != c.rend(); ++i) { --k; vf_assert(k >= 0 && i->v == vfg_ref[k], "L07.iteration", "backward iteration of a const ring does not visit the elements in order"); if (k <= 0) break; }
    vf_assert(k == 0, "L07.iteration", "backward iteration of a const ring does not visit every element once");
    k = 0; for (const E& e : c) { vf_assert(k < vfg_nref && e.v == vfg_ref[k], "L07.iteration", "iteration of a const ring does not visit the elements in order"); if (++k > cap) break; }
    vf_assert(k == vfg_nref, "L07.iteration", "iteration of a const ring does not visit every element once");
    if (vfg_nref) { vf_assert(r.front().v == vfg_ref[0] && r.back().v == vfg_ref[vfg_nref - 1], "L07.contents", "front or back is not the first or last element"); }
    vf_cover("state compared");
}
// after a failed operation: whatever is in the window is alive, nothing else is
static void valid(R& r, int extra)
{
    vf_assert(r.size() <= r.capacity(), "L07.size", "more elements than the capacity after a failed operation");
    vf_assert((size_t)vfg_nlive == r.size() + extra, "L07.after-failure", "after a failed element constructor the ring counts an element that is not alive, or lost one");
    for (size_t i = 0; i < r.size(); i++) vf_assert(find(&r[i]) >= 0, "L07.after-failure", "after a failed element constructor a position inside the ring refers to a slot without an element");
    vf_cover("element constructor failed");
}
static void gone() { vf_assert(vfg_nlive == 0, "L07.no-lost-element", "an element outlives the ring"); vf_cover("all destroyed"); }
static void addBack(int v, int cap) { if (vfg_nref == cap) { for (int i = 1; i < cap; i++) vfg_ref[i - 1] = vfg_ref[i]; vfg_ref[cap - 1] = v; } else vfg_ref[vfg_nref++] = v; }
static void addFront(int v, int cap) { if (vfg_nref < cap) vfg_nref++; for (int i = vfg_nref - 1; i > 0; i--) vfg_ref[i] = vfg_ref[i - 1]; vfg_ref[0] = v; }
static void dropFront() { for (int i = 1; i < vfg_nref; i++) vfg_ref[i - 1] = vfg_ref[i]; vfg_nref--; }

template <class F> static void push(F f, bool back)
{
    int cap = 1 + vf_choice(3 + DEEP, "capacity - 1");
    {
        R r(cap); build(r, cap); E x(50); vfg_budget = vf_choice(3, "0 no failure, 1 or 2: that element copy fails"); bool ok = true;
        try { f(r, x); } catch (const Boom&) { ok = false; }
        vfg_budget = -1;
        if (ok) { if (back) addBack(50, cap); else addFront(50, cap); check(r, cap, 1); } else valid(r, 1);
    }
    gone();
}
extern "C" void vfh_push_back() { push([](R& r, E& x) { r.push_back((const E&)x); }, true); }
extern "C" void vfh_push_back_move() { push([](R& r, E& x) { r.push_back(std::move(x)); }, true); }
extern "C" void vfh_push_front() { push([](R& r, E& x) { r.push_front((const E&)x); }, false); }
extern "C" void vfh_push_front_move() { push([](R& r, E& x) { r.push_front(std::move(x)); }, false); }
extern "C" void vfh_push_own()
{
    int cap = 1 + vf_choice(3 + DEEP, "capacity - 1");
    {
        R r(cap); build(r, cap); if (vfg_nref == 0) return; bool fr = vf_choice(2, "own element: front or back") == 0; const E& o = fr ? r.front() : r.back(); int v = o.v;
        if (vf_choice(2, "push back or front") == 0) { r.push_back(o); addBack(v, cap); } else { r.push_front(o); addFront(v, cap); }
        check(r, cap, 0);
    }
    gone();
}
extern "C" void vfh_pop()
{
    int cap = 1 + vf_choice(3 + DEEP, "capacity - 1");
    {
        R r(cap); build(r, cap); if (vfg_nref == 0) return;
        if (vf_choice(2, "pop front or back") == 0) { r.pop_front(); dropFront(); } else { r.pop_back(); vfg_nref--; }
        check(r, cap, 0); { E x(60); r.push_back(x); addBack(60, cap); } check(r, cap, 0);
    }
    gone();
}
extern "C" void vfh_clear() { int cap = 1 + vf_choice(3 + DEEP, "capacity - 1"); { R r(cap); build(r, cap); r.clear(); vfg_nref = 0; check(r, cap, 0); { E x(60); r.push_front(x); addFront(60, cap); } check(r, cap, 0); } gone(); }
extern "C" void vfh_at()
{
    int cap = 1 + vf_choice(3 + DEEP, "capacity - 1"); R r(cap); build(r, cap); int i = vf_choice(5, "position"); if (i == 4) i = -1; bool thrown = false;
    try { if (vf_choice(2, "const")) { const R& c = r; c.at(i); } else r.at(i); } catch (const std::out_of_range&) { thrown = true; }
    vf_assert(thrown == (i < 0 || i >= vfg_nref), "L07.checked-access", "the checked access does not raise an error exactly for the positions outside the ring");
}
extern "C" void vfh_reserve()
{
    int cap = 1 + vf_choice(3 + DEEP, "capacity - 1");
    {
        R r(cap); build(r, cap); int nc = 1 + vf_choice(4, "new capacity - 1"); vfg_budget = vf_choice(4, "failing element move"); bool ok = true;
        try { r.reserve(nc); } catch (const Boom&) { ok = false; }
        vfg_budget = -1; if (ok) { while (vfg_nref > nc) dropFront(); check(r, nc, 0); { E x(60); r.push_back(x); addBack(60, nc); } check(r, nc, 0); } else valid(r, 0);
    }
    gone();
}
extern "C" void vfh_default()
{
    {
        R r; vf_assert(r.size() == 0 && r.empty() && r.capacity() == 0 && r.begin() == r.end(), "L07.default-empty", "a default-constructed ring is not empty");
        int k = vf_choice(6, "default ring: nothing, clear, copy, move, assign, reserve");
        if (k == 1) { r.clear(); vf_assert(r.size() == 0, "L07.default-empty", "clear of an empty ring"); } else if (k == 2) { R q(r); vf_assert(q.size() == 0 && q.empty(), "L07.default-empty", "copy of an empty ring"); }
        else if (k == 3) { R q(std::move(r)); vf_assert(q.size() == 0 && r.size() == 0, "L07.default-empty", "move of an empty ring"); } else if (k == 4) { R q(2); { E x(1); q.push_back(x); } q = r; vf_assert(q.size() == 0 && q.empty(), "L07.default-empty", "assignment of an empty ring"); }
        else if (k == 5) { r.reserve(2); vfg_nref = 0; check(r, 2, 0); { E x(60); r.push_back(x); addBack(60, 2); } check(r, 2, 0); }
    }
    gone();
}
extern "C" void vfh_copy()
{
    int cap = 1 + vf_choice(3 + DEEP, "capacity - 1");
    {
        R r(cap); build(r, cap); int n = vfg_nref; vfg_budget = vf_choice(4, "failing element copy"); bool ok = true;
        try { R q(r); vfg_budget = -1; check(q, cap, n); check(r, cap, n); vf_assert(q == r, "L07.contents", "a copy differs from its source"); { E x(60); q.push_back(x); } check(r, cap, (int)q.size()); } catch (const Boom&) { ok = false; }
        vfg_budget = -1; (void)ok; check(r, cap, 0);
    }
    gone();
}
extern "C" void vfh_assign()
{
    int cap = 1 + vf_choice(2, "capacity - 1");
    {
        R q(2); int m = vf_choice(3, "old elements"); for (int i = 0; i < m; i++) { E x(5); q.push_back(x); }
        R r(cap); build(r, cap); int n = vfg_nref; vfg_budget = vf_choice(3, "failing element copy"); bool ok = true;
        try { R& z = (q = r); vf_assert(&z == &q, "L07.contents", "assignment returns another object"); } catch (const Boom&) { ok = false; }
        vfg_budget = -1; if (ok) { check(q, cap, n); check(r, cap, n); } else valid(q, n);
        R& self = r; r = self; check(r, cap, (int)q.size());
    }
    gone();
}
extern "C" void vfh_move()
{
    int cap = 1 + vf_choice(2, "capacity - 1");
    {
        R r(cap); build(r, cap); int n = vfg_nref;
        if (vf_choice(2, "construct or assign") == 0) { R q(std::move(r)); check(q, cap, 0); vf_assert(r.size() == 0 && r.empty() && r.begin() == r.end(), "L07.moved-from", "a moved-from ring still claims to hold elements"); vf_assert(r.capacity() == 0, "L07.moved-from", "a moved-from ring still claims a buffer"); if (vf_choice(2, "reuse")) { r.reserve(2); { E x(60); r.push_back(x); } } }
        else { R q(2); int m = vf_choice(3, "old elements"); for (int i = 0; i < m; i++) { E x(5); q.push_back(x); } q = std::move(r); check(q, cap, 0); vf_assert(r.size() == 0 && r.empty(), "L07.moved-from", "a moved-from ring still claims to hold elements"); if (vf_choice(2, "assign again")) { r = q; check(r, cap, n); } }
    }
    gone();
}
// an element given away is moved into the ring, never copied; so are the elements a new buffer takes over
extern "C" void vfh_given()
{
    int cap = 1 + vf_choice(3 + DEEP, "capacity - 1");
    {
        R r(cap); build(r, cap); E x(50); vfg_copies = 0; int k = vf_choice(3, "push back, push front or reserve");
        if (k == 0) { r.push_back(std::move(x)); addBack(50, cap); } else if (k == 1) { r.push_front(std::move(x)); addFront(50, cap); } else { r.reserve(cap + 1); cap++; }
        vf_assert(vfg_copies == 0, "L07.given", "an element that was given away is copied");
        if (k < 2) vf_assert(x.v == -1, "L07.given", "an element that was given away is not taken"); check(r, cap, 1);
    }
    gone();
}
extern "C" void vfh_self_move()
{
    int cap = 1 + vf_choice(2, "capacity - 1");
    { R r(cap); build(r, cap); R& self = r; r = std::move(self); check(r, cap, 0); const R& c = r; if (vfg_nref) vf_assert(&c.front() == &r.front() && &c.back() == &r.back() && &c[0] == &r[0], "L07.contents", "front or back of a const ring is another element"); }
    gone();
}
template <class I> static void walk(R& r, I b, I e)
{
    int n = vfg_nref, i = vf_choice(n + 1, "position"), j = vf_choice(n + 1, "other position");
    I p = b + i, q = b; q += j;
    vf_assert(p - b == i && q - p == j - i && e - b == n && e - i == b + (n - i), "L07.iterator-arithmetic", "a distance between positions is not what the additions imply");
    vf_assert((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j), "L07.iterator-arithmetic", "positions do not compare like their distances from the beginning");
    if (i < n) vf_assert((*p).v == vfg_ref[i] && p->v == vfg_ref[i] && &*p == &r[i], "L07.iterator-arithmetic", "a position reached by an addition is not that element");
    I m = e; m -= n - i; vf_assert(m == p, "L07.iterator-arithmetic", "a position reached by a subtraction is another one");
    if (i < n) { I a = p++; vf_assert(a == b + i && p == b + (i + 1), "L07.iterator-arithmetic", "the postfix increment does not advance by one and return the old position"); I& z = --p; vf_assert(&z == &p && p == a, "L07.iterator-arithmetic", "the decrement does not undo the increment"); I& y = ++p; vf_assert(&y == &p && p == b + (i + 1), "L07.iterator-arithmetic", "the increment does not advance by one"); I d = p--; vf_assert(d == b + (i + 1) && p == a, "L07.iterator-arithmetic", "the postfix decrement does not go back by one and return the old position"); }
    vf_cover("positions compared");
}
extern "C" void vfh_iterator()
{
    int cap = 1 + vf_choice(3 + DEEP, "capacity - 1");
    { R r(cap); build(r, cap); if (vf_choice(2, "const ring")) { const R& c = r; walk(r, c.begin(), c.end()); R::const_iterator k = r.begin(); vf_assert(k == c.begin() && k == c.cbegin() && R::const_iterator(r.end()) == c.cend(), "L07.iterator-arithmetic", "the read-only form of a position is another position"); } else walk(r, r.begin(), r.end()); }
    gone();
}
// control: a slot that is filled twice
extern "C" void vfh_ctl_twice() { alignas(E) char b[sizeof(E)]; new (b) E(1); new (b) E(2); }
