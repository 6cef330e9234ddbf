// L05: mirrors and foreign-key sets. Any initial content, any sequence of two (thorough: three) operations on the source; afterwards every derived container is compared with the source.
#include "vf.h"
#include "Awl/QuickList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/MirrorSet.h"
#include "Awl/ForeignSet.h"
#include <memory>
struct A { int pk, fk; };
struct PK { int operator()(const A& a) const { return a.pk; } }; struct FK { int operator()(const A& a) const { return a.fk; } };
enum { N = 3, F = 2 };
VFG(int, content, 0) extern "C" { int vfg_fk[N]; int vfg_groups[F]; }
template <class T> struct Make; 
template <> struct Make<A> { static A get(int k) { return A{k, vfg_fk[k]}; } static const A& ref(const A& a) { return a; } };
static A pool[N];
template <> struct Make<A*> { static A* get(int k) { pool[k] = A{k, vfg_fk[k]}; return &pool[k]; } static const A& ref(const A* a) { return *a; } };
template <class T> using Src = awl::observable_set<T, awl::KeyCompare<T, PK>>;
template <class T> using Mir = awl::mirror_set<T, awl::KeyCompare<T, PK>>;
template <class T> using For = awl::foreign_set<T, PK, FK>;
template <class S> static int keys(const S& s) { int k = 0, n = 0; for (auto i = s.begin(); i != s.end(); ++i) { const A& a = Make<typename S::value_type>::ref(*i); k |= 1 << a.pk; vf_assert(a.fk == vfg_fk[a.pk], "L05.value", "a mirrored element is not the announced one"); if (++n > N) break; } vf_assert(s.size() == (size_t)n, "L05.value", "the size of a mirror does not agree with its content"); return k; }
template <class S, class X> static void foreign(const X& f, const S& s, int content)
{
    int seen = 0, groups = 0;
    for (auto g = f.begin(); g != f.end(); ++g)
    {
        vf_assert(!g->empty(), "L05.no-empty-group", "a group without elements is kept"); if (g->empty()) return; int fk = (*g->begin())->fk; vf_assert(!(groups >> fk & 1), "L05.one-group", "two groups have the same key"); groups |= 1 << fk;
        for (auto i = g->begin(); i != g->end(); ++i) { vf_assert((*i)->fk == fk, "L05.right-group", "an element is in the group of another key"); vf_assert(!(seen >> (*i)->pk & 1), "L05.once", "an element is held twice"); seen |= 1 << (*i)->pk; bool in = false; for (auto j = s.begin(); j != s.end(); ++j) if (&Make<typename S::value_type>::ref(*j) == *i) in = true; vf_assert(in, "L05.not-stale", "a group holds an element that the source no longer has"); }
    }
    vf_assert(seen == content, "L05.foreign-follows", "the groups do not hold the elements of the source"); vf_assert(f.empty() == (content == 0) && f.size() == (size_t)((groups & 1) + (groups >> 1)), "L05.foreign-follows", "the number of groups is wrong");
    for (int k = 0; k < F; k++) vf_assert((f.find(k) != f.end()) == bool(groups >> k & 1), "L05.foreign-follows", "a group is not found by its key");
    vf_cover("groups compared");
}
// every way to read a mirror shows the same content
template <class X> static void reads(X& s)
{
    int n = 0; for (auto i = s.begin(); i != s.end(); ++i) { const A& v = *i; int key = v.pk;
        vf_assert(&s[n] == &v && &s.at(n) == &v && s.index_of(key) == (size_t)n && s.find(key) == i && s.contains(key) && s.lower_bound(key) == i, "L05.reads", "the reads of a mirror do not agree with each other"); auto j = i; ++j; vf_assert(s.upper_bound(key) == j, "L05.reads", "the reads of a mirror do not agree with each other");
        if (n == 0) vf_assert(&s.front() == &v, "L05.reads", "the reads of a mirror do not agree with each other"); if (j == s.end()) vf_assert(&s.back() == &v, "L05.reads", "the reads of a mirror do not agree with each other"); if (++n > N) return; }
    vf_assert(s.size() == (size_t)n && s.empty() == (n == 0), "L05.reads", "the reads of a mirror do not agree with each other"); for (auto i = s.rbegin(); i != s.rend(); ++i) { --n; vf_assert(n >= 0 && &*i == &s[n < 0 ? 0 : n], "L05.reads", "the reads of a mirror do not agree with each other"); if (n < 0) break; } vf_assert(n == 0, "L05.reads", "the reads of a mirror do not agree with each other");
    vf_assert(s.find(9) == s.end() && !s.contains(9), "L05.reads", "an absent element is found");
}
template <class X> static void group_reads(const X& f)
{
    size_t n = 0; for (auto g = f.begin(); g != f.end(); ++g) { int fk = (*g->begin())->fk; vf_assert(&f[n] == &*g && &f.at(n) == &*g && f.index_of(fk) == n, "L05.reads", "the reads of the groups do not agree with each other"); if (n == 0) vf_assert(&f.front() == &*g, "L05.reads", "the reads of the groups do not agree with each other"); if (++n > F) return; if (n == f.size()) vf_assert(&f.back() == &*g, "L05.reads", "the reads of the groups do not agree with each other"); }
    for (auto g = f.rbegin(); g != f.rend(); ++g) { vf_assert(n > 0 && &f[n ? n - 1 : 0] == &*g, "L05.reads", "the reads of the groups do not agree with each other"); if (!n--) break; } vf_assert(n == 0, "L05.reads", "the reads of the groups do not agree with each other");
}
// an observer of a derived container
VFG(int, told, 0) VFG(int, calls, 0)
template <class V> static int key_of(const V& v) { if constexpr (std::is_same_v<V, A>) return v.pk; else return (*v.begin())->fk; }
template <class V> struct Told : awl::Observer<awl::INotifySetChanged<V>>
{
    void OnAdded(const V& v) override { int k = key_of(v); vf_assert(!(vfg_told >> k & 1), "L05.announced", "an observer of a derived container is told of something that it was told before"); vfg_told |= 1 << k; vfg_calls++; }
    void OnRemoving(const V& v) override { int k = key_of(v); vf_assert(vfg_told >> k & 1, "L05.announced", "an observer of a derived container is told of the removal of something that is not there"); vfg_told &= ~(1 << k); vfg_calls++; }
    void OnClearing() override { vfg_told = 0; vfg_calls++; }
};
template <class S> static void op(S& s)
{
    using T = typename S::value_type; int o = vf_choice(6, "insert, erase by key, erase by iterator, clear, migrate, move into itself through another"), k = o < 3 ? vf_choice(N, "key") : 0;
    if (o == 0) { s.insert(Make<T>::get(k)); vfg_content |= 1 << k; } else if (o == 1) { s.erase(k); vfg_content &= ~(1 << k); } else if (o == 2) { auto i = s.find(k); if (i == s.end()) return; s.erase(i); vfg_content &= ~(1 << k); }
    else if (o == 3) { s.clear(); vfg_content = 0; } else if (o == 4) { S t; t.insert(Make<T>::get(1)); t.insert(Make<T>::get(2)); s.migrate(std::move(t)); vfg_content = 6; } else { S t(std::move(s)); s = std::move(t); }
}
static void keying() { bool b = vf_choice(2, "foreign keys: 0 0 1 or 0 1 0") == 0; vfg_fk[0] = 0; vfg_fk[1] = b ? 0 : 1; vfg_fk[2] = b ? 1 : 0; }
template <class S> static void fill(S& s) { using T = typename S::value_type; int m = vf_choice(8, "initial content"); for (int i = 0; i < N; i++) if (m >> i & 1) s.insert(Make<T>::get(i)); vfg_content = m; }
#ifdef VF_DEEP
enum { OPS = 3 };
#else
enum { OPS = 2 };
#endif
extern "C" void vfh_mirror()
{
    using T = A; keying(); Src<T> s; fill(s); Mir<T> m; m.reflect(s); Mir<T> mm; mm.reflect(m); vf_assert(keys(m) == vfg_content && keys(mm) == vfg_content, "L05.initial", "the initial content is not taken over");
    for (int i = 0; i < OPS; i++) { op(s); vf_assert(keys(m) == vfg_content, "L05.mirror-follows", "a mirror does not hold the elements of its source"); vf_assert(keys(mm) == vfg_content, "L05.mirror-follows", "a mirror of a mirror does not hold the elements of the source"); vf_cover("mirrors compared"); }
}
template <class T> static void foreign_run(bool moved)
{
    keying(); Src<T> s; fill(s); For<T> f(s); foreign(f, s, vfg_content);
    for (int i = 0; i < OPS; i++) { op(s); foreign(f, s, vfg_content); }
}
extern "C" void vfh_foreign() { foreign_run<A>(false); }
extern "C" void vfh_foreign_ptr() { foreign_run<A*>(false); }
extern "C" void vfh_foreign_mirror() { keying(); Src<A> s; fill(s); Mir<A> m; m.reflect(s); For<A> f(m); foreign(f, m, vfg_content); op(s); foreign(f, m, vfg_content); }
// the derived container is moved: the registration moves along
extern "C" void vfh_moved() { keying(); Src<A> s; fill(s); if (vf_choice(2, "mirror or foreign") == 0) { Mir<A> m; m.reflect(s); Mir<A> n(std::move(m)); vf_assert(!m.IsSubscribed() && n.IsSubscribed() && m.empty(), "L05.moved", "a moved mirror does not take registration and content along"); op(s); vf_assert(keys(n) == vfg_content, "L05.mirror-follows", "a moved mirror does not follow its source"); Mir<A> o; o = std::move(n); op(s); vf_assert(keys(o) == vfg_content, "L05.mirror-follows", "a moved mirror does not follow its source"); } else { For<A> f(s); For<A> g(std::move(f)); op(s); foreign(g, s, vfg_content); } }
// the source dies first: nothing of it is kept; the derived container dies first: the source forgets it
extern "C" void vfh_source_dies() { keying(); Mir<A>* m = new Mir<A>; Mir<A>* mm = new Mir<A>; For<A>* f; { Src<A> s; fill(s); m->reflect(s); mm->reflect(*m); f = new For<A>(s); vf_assert(keys(*m) == vfg_content, "L05.initial", "the initial content is not taken over"); }
    vf_assert(m->empty() && mm->empty() && f->empty(), "L05.not-stale", "elements of a destroyed source are kept"); vf_assert(!m->IsSubscribed() && !f->IsSubscribed() && mm->IsSubscribed(), "L05.detached", "a derived container is still registered with a destroyed source"); delete m; vf_assert(!mm->IsSubscribed(), "L05.detached", "a derived container is still registered with a destroyed source"); delete mm; delete f; vf_cover("source gone"); }
extern "C" void vfh_read_mirror() { keying(); Src<A> s; fill(s); Mir<A> m, n; m.reflect(s); n.reflect(s); const Mir<A>& c = m; reads(c); if (vfg_content & 2) vf_assert(m.find(1)->pk == 1, "L05.reads", "the reads of a mirror do not agree with each other"); }
extern "C" void vfh_read_groups() { keying(); Src<A> s; fill(s); For<A> f(s); group_reads(f); vf_cover("groups read"); }
// the observers of a derived container follow it until they unsubscribe
extern "C" void vfh_told_mirror() { keying(); Src<A> s; fill(s); Mir<A> m; m.reflect(s); Told<A> o; vfg_told = vfg_content; m.Subscribe(&o); op(s); vf_assert(vfg_told == vfg_content, "L05.announced", "an observer of a mirror is not told of a change"); m.Unsubscribe(&o); int c = vfg_calls; op(s); vf_assert(vfg_calls == c && !o.IsSubscribed(), "L05.announced", "an observer is told of a change after it has unsubscribed"); vf_cover("told"); }
static int groups_of(int content) { int g = 0; for (int i = 0; i < N; i++) if (content >> i & 1) g |= 1 << vfg_fk[i]; return g; }
extern "C" void vfh_told_groups() { keying(); Src<A> s; fill(s); For<A> f(s); Told<For<A>::value_type> o; vfg_told = groups_of(vfg_content); f.Subscribe(&o); op(s); vf_assert(vfg_told == groups_of(vfg_content), "L05.announced", "an observer of the groups is not told of a change"); f.Unsubscribe(&o); int c = vfg_calls; op(s); vf_assert(vfg_calls == c && !o.IsSubscribed(), "L05.announced", "an observer is told of a change after it has unsubscribed"); }
extern "C" void vfh_derived_dies() { keying(); Src<A> s; fill(s); { Mir<A>* m = new Mir<A>; m->reflect(s); For<A>* f = new For<A>(s); Mir<A> rest; rest.reflect(s); if (vf_choice(2, "order")) { delete m; op(s); delete f; } else { delete f; op(s); delete m; } vf_assert(keys(rest) == vfg_content, "L05.mirror-follows", "a mirror does not hold the elements of its source"); } op(s); vf_assert(keys(s) == vfg_content, "L05.value", "the source is changed"); }
// replacing the source's content by move assignment: the old elements are dropped from everything derived from it
extern "C" void vfh_replaced() { keying(); Src<A> s; fill(s); Mir<A> m; m.reflect(s); For<A> f(s); Src<A> t; Mir<A> tm; int full = vf_choice(2, "other set empty or not"); if (full) t.insert(A{1, vfg_fk[1]}); tm.reflect(t); s = std::move(t); vf_assert(m.empty() && f.empty(), "L05.not-stale", "elements of a replaced source are kept"); vfg_content = full ? 2 : 0; op(s); vf_assert(keys(tm) == vfg_content, "L05.mirror-follows", "a mirror does not follow its moved source"); }
extern "C" void vfh_ctl_late() { keying(); Src<A> s; Mir<A> m; s.insert(A{0, 0}); vfg_content = 1; vf_assert(keys(m) == vfg_content, "L05.mirror-follows", "control"); }
