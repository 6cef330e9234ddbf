// L04: observable set. Any content of 0..2 elements, any sequence of two operations; two observers compare every callback with the change being made.
#include "vf.h"
#include "Awl/QuickList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/ObservableSet.h"
struct T { int a, b; T(int x, int y) : a(x), b(y) {} explicit T(int x) : a(x), b(0) {} bool operator<(const T& o) const { return a < o.a; } };
using S = awl::observable_set<T>;
enum { ADD = 1, REM, CLR };
// expected events: kind, key, and which set; the position is counted per observer
extern "C" { int vfg_kind[16]; int vfg_key[16]; int vfg_pos[2]; }
VFG(int, nexp, 0) VFG(int, content, 0)   // content: bit k set when key k is in the observed set
static void expect(int kind, int key) { vfg_kind[vfg_nexp] = kind; vfg_key[vfg_nexp] = key; vfg_nexp++; }
struct Rec : awl::Observer<awl::INotifySetChanged<T>>
{
    int n; const S* s; Rec(int i, const S& x) : n(i), s(&x) {}
    bool next(int kind, int key) { int p = vfg_pos[n]++; bool ok = p < vfg_nexp && vfg_kind[p] == kind && vfg_key[p] == key;
        vf_assert(p < vfg_nexp, "L04.only-changes", "a change is announced that the operation does not make"); if (p < vfg_nexp) vf_assert(ok, "L04.exact", "the announced change is not the one the operation makes"); return ok; }
    void OnAdded(const T& v) override { next(ADD, v.a); bool in = false; for (auto i = s->begin(); i != s->end(); ++i) if (&*i == &v) in = true; vf_assert(in, "L04.added-present", "an added element is announced that is not in the container"); vf_cover("added"); }
    void OnRemoving(const T& v) override { next(REM, v.a); bool in = false; for (auto i = s->begin(); i != s->end(); ++i) if (&*i == &v) in = true; vf_assert(in, "L04.removed-present", "a removed element is announced after it has left the container"); vf_cover("removed"); }
    void OnClearing() override { next(CLR, 0); int k = 0; for (auto i = s->begin(); i != s->end(); ++i) k |= 1 << i->a; vf_assert(k == vfg_content && k, "L04.cleared-present", "clearing is announced when the elements have left the container or there are none"); vf_cover("cleared"); }
};
static void done() { for (int i = 0; i < 2; i++) vf_assert(vfg_pos[i] == vfg_nexp, "L04.announced", "a change of the container is not announced"); vf_cover("all announced"); }
// every way to read the container shows the same content
template <class X> static void reads(X& s)
{
    int n = 0; for (auto i = s.begin(); i != s.end(); ++i) { const T& v = *i; T key(v.a);
        vf_assert(&s[n] == &v && &s.at(n) == &v && s.index_of(key) == (size_t)n && s.find(key) == i && s.contains(key) && s.lower_bound(key) == i, "L04.reads", "the reads of the container do not agree with each other"); auto j = i; ++j; vf_assert(s.upper_bound(key) == j, "L04.reads", "the reads of the container do not agree with each other");
        if (n == 0) vf_assert(&s.front() == &v, "L04.reads", "the reads of the container do not agree with each other"); if (j == s.end()) vf_assert(&s.back() == &v, "L04.reads", "the reads of the container do not agree with each other"); if (++n > 3) return; }
    vf_assert(s.size() == (size_t)n && s.empty() == (n == 0), "L04.reads", "the reads of the container do not agree with each other"); for (auto i = s.rbegin(); i != s.rend(); ++i) { --n; vf_assert(n >= 0 && &*i == &s[n < 0 ? 0 : n], "L04.reads", "the reads of the container do not agree with each other"); if (n < 0) break; } vf_assert(n == 0, "L04.reads", "the reads of the container do not agree with each other");
    T absent(9); vf_assert(s.find(absent) == s.end() && !s.contains(absent), "L04.reads", "an absent element is found");
}
static void same(const S& s) { int k = 0; for (auto i = s.begin(); i != s.end(); ++i) k |= 1 << i->a; vf_assert(k == vfg_content, "L04.content", "the container does not hold what the operations imply"); }
static void op(S& s)
{
    int o = vf_choice(8, "insert, insert rvalue, emplace, erase by key, erase by iterator, clear, migrate, emplace with two arguments"), k = 1;
    if (o < 5 || o == 7) k = vf_choice(3, "key"); bool in = (vfg_content >> k) & 1; T v(k);
    switch (o)
    {
    case 0: case 1: case 2: case 7: { if (!in) { expect(ADD, k); vfg_content |= 1 << k; } auto [i, ok] = o == 0 ? s.insert(v) : o == 1 ? s.insert(std::move(v)) : o == 2 ? s.emplace(k) : s.emplace(k, 7); vf_assert(ok == !in && i->a == k, "L04.result", "the result of an insertion does not tell what was done"); break; }
    case 3: { if (in) expect(REM, k); auto r = s.erase(v); vf_assert(r == (in ? 1u : 0u), "L04.result", "the result of an erasure does not tell what was done"); vfg_content &= ~(1 << k); break; }
    case 4: { if (!in) return; expect(REM, k); auto i = s.find(v); s.erase(i); vfg_content &= ~(1 << k); break; }
    case 5: { if (vfg_content) expect(CLR, 0); s.clear(); vfg_content = 0; break; }
    // elements of another set replace the content, the observers stay
    case 6: { S t; int n = vf_choice(3, "elements of the other set"); if (vfg_content) expect(CLR, 0); for (int i = 0; i < n; i++) { t.insert(T(i)); expect(ADD, i); }
        // while it is announced that the set is cleared, it still holds the old elements
        s.migrate(std::move(t)); vfg_content = (1 << n) - 1; vf_assert(t.empty(), "L04.content", "a set whose elements were moved away still has elements"); break; }
    }
    same(s); done();
}
static void fill(S& s) { int m = vf_choice(4, "keys in the set"); for (int i = 0; i < 2; i++) if (m >> i & 1) s.insert(T(i)); vfg_content = m; }
extern "C" void vfh_ops() { S s; fill(s); Rec a(0, s), b(1, s); s.Subscribe(&a); s.Subscribe(&b); op(s); op(s); s.Unsubscribe(&a); s.Unsubscribe(&b); s.clear(); done(); }
extern "C" void vfh_destroy() { Rec* a; Rec* b; { S s; fill(s); a = new Rec(0, s); b = new Rec(1, s); s.Subscribe(a); s.Subscribe(b); if (vfg_content) expect(CLR, 0); } done(); vf_assert(!a->IsSubscribed() && !b->IsSubscribed(), "L04.unsubscribed", "an observer of a destroyed container is still subscribed"); delete a; delete b; }
// moving a set announces nothing and takes the observers along
extern "C" void vfh_move() { S s; fill(s); S t(std::move(s)); Rec a(0, t), b(1, t); t.Subscribe(&a); t.Subscribe(&b); S u(std::move(t)); same(u); done(); a.s = b.s = &u; op(u); vf_assert(t.empty() && s.empty(), "L04.content", "a moved-from set has elements"); if (vfg_content) expect(CLR, 0); u.clear(); vfg_content = 0; done(); }
// move assignment announces that the target is cleared, then it becomes the other set with its observers
extern "C" void vfh_assign()
{
    S s, t; int m = vf_choice(4, "keys in the target"); for (int i = 0; i < 2; i++) if (m >> i & 1) s.insert(T(i)); Rec x(0, s), y(1, s); s.Subscribe(&x); s.Subscribe(&y); vfg_content = m; if (m) expect(CLR, 0);
    fill(t); int after = vfg_content; vfg_content = m; Rec a(0, s), b(1, s); t.Subscribe(&a); t.Subscribe(&b);
    s = std::move(t); done(); vfg_content = after; same(s); vf_assert(!x.IsSubscribed() && !y.IsSubscribed() && t.empty(), "L04.unsubscribed", "the observers of an assigned-to set stay subscribed");
    op(s); if (vfg_content) expect(CLR, 0); s.clear(); vfg_content = 0; done();
}
// the other set's observers are told that it loses its elements
extern "C" void vfh_migrated() { S t; fill(t); Rec a(0, t), b(1, t); t.Subscribe(&a); t.Subscribe(&b); if (vfg_content) expect(CLR, 0); { S s; s.migrate(std::move(t)); same(s); done(); vf_assert(t.empty() && a.IsSubscribed(), "L04.content", "a set whose elements were moved away still has elements"); vfg_content = 0; op(t); } t.Unsubscribe(&a); t.Unsubscribe(&b); }
extern "C" void vfh_reads() { S s; int m = vf_choice(8, "content"); for (int i = 0; i < 3; i++) if (m >> i & 1) s.insert(T(i)); const S& c = s; reads(s); reads(c); S t; for (int i = 2; i >= 0; i--) if (m >> i & 1) t.emplace(i); vf_assert(s == t && !(s != t), "L04.reads", "equal containers are not equal"); t.insert(T(3)); vf_assert(s != t && !(s == t), "L04.reads", "different containers are equal"); vf_cover("read"); }
extern "C" void vfh_list() { S s{T(0), T(1), T(0)}; vfg_content = 3; same(s); Rec a(0, s), b(1, s); s.Subscribe(&a); s.Subscribe(&b); op(s); if (vfg_content) expect(CLR, 0); s.clear(); vfg_content = 0; done(); }
extern "C" void vfh_ctl_silent() { S s; Rec a(0, s), b(1, s); s.Subscribe(&a); s.insert(T(1)); }
