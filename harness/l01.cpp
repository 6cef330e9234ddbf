// L01: intrusive lists. Two lists of 0..3 elements each, any operation; afterwards both traversals, every link and every bystander are compared with the reference order.
#include "vf.h"
#include "Awl/QuickList.h"
#include <utility>
AWL_DECLARE_QUICK_LINK(other_link)
struct E : awl::quick_link, other_link { int id = 0; };
using L = awl::quick_list<E>; using K = awl::quick_list<E, other_link>;
extern "C" { int vfg_ra[10]; int vfg_rb[10]; int vfg_na, vfg_nb; }
enum { N = 7 };
struct Seq { int* r; int* n; void back(int x) { r[(*n)++] = x; } void front(int x) { for (int i = *n; i > 0; i--) r[i] = r[i - 1]; r[0] = x; (*n)++; } void at(int p, int x) { for (int i = *n; i > p; i--) r[i] = r[i - 1]; r[p] = x; (*n)++; } void del(int p) { for (int i = p + 1; i < *n; i++) r[i - 1] = r[i]; (*n)--; } int pos(int x) { for (int i = 0; i < *n; i++) if (r[i] == x) return i; return -1; } };
static Seq A() { return {vfg_ra, &vfg_na}; } static Seq B() { return {vfg_rb, &vfg_nb}; }
static void check(L& l, Seq s, E* e)
{
    int k = 0; for (auto i = l.begin(); i != l.end(); ++i) { vf_assert(k < *s.n && *i == &e[s.r[k]], "L01.forward", "the forward traversal does not visit the elements of the list in order"); if (++k > *s.n) break; }
    vf_assert(k == *s.n, "L01.forward", "the forward traversal misses an element");
    for (auto i = l.rbegin(); i != l.rend(); ++i) { --k; vf_assert(k >= 0 && *i == &e[s.r[k < 0 ? 0 : k]], "L01.backward", "the backward traversal does not visit the elements in opposite order"); if (k < 0) break; }
    vf_assert(k == 0, "L01.backward", "the backward traversal misses an element");
    k = *s.n; for (auto i = l.end(); i != l.begin();) { --i; --k; vf_assert(k >= 0 && *i == &e[s.r[k < 0 ? 0 : k]], "L01.backward", "decrementing an iterator does not go back to the preceding element"); if (k < 0) break; }
    vf_assert(l.empty() == (*s.n == 0) && l.size() == (size_t)*s.n && l.contains_one() == (*s.n == 1) && l.empty_or_contains_one() == (*s.n <= 1), "L01.size", "empty, size or contains_one does not agree with the content");
    if (*s.n) vf_assert(l.front() == &e[s.r[0]] && l.back() == &e[s.r[*s.n - 1]], "L01.ends", "front or back is not the first or last element");
    const L& c = l; auto j = l.begin(); for (auto i = c.begin(); i != c.end(); ++i, ++j) { vf_assert(k < *s.n && *i == *j, "L01.forward", "the traversal of a constant list does not visit the elements of the list in order"); if (++k > *s.n) break; }
    vf_assert(k == *s.n, "L01.forward", "the traversal of a constant list misses an element");
    for (auto i = c.rbegin(); i != c.rend(); ++i) { --k; vf_assert(k >= 0 && *i == &e[s.r[k < 0 ? 0 : k]], "L01.backward", "the backward traversal of a constant list does not visit the elements in opposite order"); if (k < 0) break; }
    vf_assert(k == 0, "L01.backward", "the backward traversal of a constant list misses an element");
    if (*s.n) vf_assert(c.front() == l.front() && c.back() == l.back(), "L01.ends", "front or back of a constant list is not the first or last element");
    vf_cover("lists compared");
}
static void links(E* e)
{
    for (int i = 0; i < N; i++) { awl::quick_link& q = e[i]; bool in = A().pos(i) >= 0 || B().pos(i) >= 0;
        vf_assert((q.awl::forward_link<awl::quick_link>::next() != nullptr) == in && (q.awl::backward_link<awl::quick_link>::next() != nullptr) == in, "L01.detached", "a link does not know whether it is in a list, on one of its sides");
        if (in) vf_assert(q.successor()->predecessor() == &q && q.predecessor()->successor() == &q, "L01.mutual", "a link's neighbour does not point back at it"); }
}
static void other(K& k, E* e) { int n = 0; for (auto i = k.begin(); i != k.end(); ++i) { vf_assert(*i == &e[n], "L01.bystander", "another list of the same elements is changed"); if (++n > N) break; } vf_assert(n == N, "L01.bystander", "another list of the same elements is changed"); n = N; for (auto i = k.rbegin(); i != k.rend(); ++i) { --n; vf_assert(n >= 0 && *i == &e[n < 0 ? 0 : n], "L01.bystander", "another list of the same elements is changed"); if (n < 0) break; } }
struct W { E e[N]; K k; W() { for (int i = 0; i < N; i++) { e[i].id = i; k.push_back(&e[i]); } } ~W() {} };
static void fill(L& l, Seq s, W& w, int base) { int n = vf_choice(4, "elements"); for (int i = 0; i < n; i++) { l.push_back(&w.e[base + i]); s.back(base + i); } }
static void all(L& a, L& b, W& w) { check(a, A(), w.e); check(b, B(), w.e); links(w.e); other(w.k, w.e); }
extern "C" void vfh_push() { W w; L a, b; fill(a, A(), w, 0); fill(b, B(), w, 3); if (vf_choice(2, "front or back") == 0) { a.push_front(&w.e[6]); A().front(6); } else { a.push_back(&w.e[6]); A().back(6); } all(a, b, w); }
extern "C" void vfh_insert()
{
    W w; L a, b; fill(a, A(), w, 0); fill(b, B(), w, 3); if (vfg_na == 0) return; int p = vf_choice(3, "position"); if (p >= vfg_na) return;
    if (vf_choice(2, "iterator") == 0) { auto i = a.begin(); for (int k = 0; k < p; k++) ++i; L::insert(i, &w.e[6]); A().at(p + 1, 6); } else { auto i = a.rbegin(); for (int k = 0; k < p; k++) i++; L::insert(i, &w.e[6]); A().at(vfg_na - 1 - p, 6); }
    all(a, b, w);
}
extern "C" void vfh_link_insert()
{
    W w; L a, b; fill(a, A(), w, 0); fill(b, B(), w, 3); if (vfg_na == 0) return; int p = vf_choice(3, "position"); if (p >= vfg_na) return; awl::quick_link* q = &w.e[vfg_ra[p]];
    if (vf_choice(2, "after or before") == 0) { q->insert_after(&w.e[6]); A().at(p + 1, 6); } else { q->insert_before(&w.e[6]); A().at(p, 6); } all(a, b, w);
}
extern "C" void vfh_remove()
{
    W w; L a, b; fill(a, A(), w, 0); fill(b, B(), w, 3); if (vfg_na == 0) return; int k = vf_choice(7, "pop front, pop back, erase by iterator, by reverse iterator, by element, exclude, safe exclude"), p = vf_choice(3, "position"); if (p >= vfg_na) return; if (k < 2 && p) return;
    E* x = &w.e[vfg_ra[p]]; awl::quick_link* q = x;
    if (k == 0) { vf_assert(a.pop_front() == &w.e[vfg_ra[0]], "L01.ends", "pop_front returns another element"); A().del(0); } else if (k == 1) { vf_assert(a.pop_back() == &w.e[vfg_ra[vfg_na - 1]], "L01.ends", "pop_back returns another element"); A().del(vfg_na - 1); }
    else { if (k == 2) { auto i = a.begin(); for (int j = 0; j < p; j++) i++; L::erase(i); } else if (k == 3) { auto i = a.rbegin(); for (int j = vfg_na - 1; j > p; j--) ++i; L::erase(i); } else if (k == 4) L::erase(x); else if (k == 5) q->exclude(); else { q->safe_exclude(); q->safe_exclude(); } A().del(p); vf_assert(!q->included(), "L01.detached", "a removed element is still included"); }
    all(a, b, w); E* y = k < 2 ? &w.e[6] : x; a.push_back(y); A().back((int)(y - w.e)); all(a, b, w);
}
extern "C" void vfh_splice() { W w; L a, b; fill(a, A(), w, 0); fill(b, B(), w, 3); if (vf_choice(2, "to the front or back") == 0) { a.push_front(b); for (int i = vfg_nb - 1; i >= 0; i--) A().front(vfg_rb[i]); } else { a.push_back(b); for (int i = 0; i < vfg_nb; i++) A().back(vfg_rb[i]); } vfg_nb = 0; all(a, b, w); b.push_back(&w.e[6]); B().back(6); all(a, b, w); }
extern "C" void vfh_move()
{
    W w; L a; fill(a, A(), w, 0);
    if (vf_choice(2, "construct or assign") == 0) { L b(std::move(a)); for (int i = 0; i < vfg_na; i++) B().back(vfg_ra[i]); vfg_na = 0; all(a, b, w); b.push_front(&w.e[6]); B().front(6); a.push_back(&w.e[5]); A().back(5); all(a, b, w); }
    else { L b; b = std::move(a); for (int i = 0; i < vfg_na; i++) B().back(vfg_ra[i]); vfg_na = 0; all(a, b, w); b.push_back(&w.e[6]); B().back(6); L& s = b; s = std::move(b); all(a, b, w); }
}
extern "C" void vfh_init() { W w; int n = vf_choice(3, "n"); for (int i = 0; i < n; i++) A().back(i); L b; if (n == 0) { L a({}); all(a, b, w); } else if (n == 1) { L a({&w.e[0]}); all(a, b, w); } else { L a({&w.e[0], &w.e[1]}); all(a, b, w); } }
extern "C" void vfh_clear() { W w; L a, b; fill(a, A(), w, 0); a.clear(); vfg_na = 0; check(a, A(), w.e); a.push_back(&w.e[6]); A().back(6); check(a, A(), w.e); }
// movable links
AWL_DECLARE_MOVABLE_LINK(mv_link)
struct M : mv_link { int id = 0; M() = default; M(M&&) = default; M& operator=(M&&) = default; };
extern "C" void vfh_movable()
{
    using ML = awl::quick_list<M, mv_link>; M e[4]; ML a; int n = vf_choice(4, "elements"); for (int i = 0; i < n; i++) a.push_back(&e[i]); int p = vf_choice(4, "moved element");
    M* x; M built; int kind = vf_choice(3, "assign to free element, to an included one, construct"); M* c = nullptr;
    if (kind == 0) { built = std::move(e[p]); x = &built; } else if (kind == 1) { ML z; z.push_back(&built); M other; z.push_back(&other); built = std::move(e[p]); x = &built; vf_assert(z.front() == &other && z.contains_one(), "L01.mutual", "an element that is assigned to is not excluded from its former list"); z.pop_front(); vf_assert(z.empty(), "L01.mutual", "former list"); } else { c = new M(std::move(e[p])); x = c; }
    vf_assert(!e[p].included() && x->included() == (p < n), "L01.reinserted", "moving an element does not transfer its place in the list");
    int k = 0; for (auto i = a.begin(); i != a.end(); ++i) { vf_assert(k < n && *i == (k == p ? x : &e[k]), "L01.reinserted", "a moved element does not take the place of the old one"); if (++k > n) break; } vf_assert(k == n, "L01.reinserted", "moving an element loses one");
    for (auto i = a.rbegin(); i != a.rend(); ++i) { --k; vf_assert(k >= 0 && *i == (k == p ? x : &e[k < 0 ? 0 : k]), "L01.reinserted", "a moved element does not take the place of the old one (backwards)"); if (k < 0) break; } vf_cover("element moved");
}
// singly linked
struct S : awl::single_link { int id = 0; };
extern "C" void vfh_single()
{
    using SL = awl::single_list<S>; S e[4]; SL a; int n = vf_choice(4, "elements"); for (int i = n - 1; i >= 0; i--) a.push_front(&e[i]);
    int k = 0; for (auto i = a.begin(); i != a.end(); ++i) { vf_assert(k < n && *i == &e[k], "L01.forward", "the singly linked list is not in order"); if (++k > n) break; } vf_assert(k == n && a.size() == (size_t)n && a.empty() == (n == 0), "L01.size", "size of the singly linked list");
    if (n) { vf_assert(a.pop_front() == &e[0] && !e[0].included(), "L01.detached", "a popped element is still included"); vf_assert(a.size() == (size_t)n - 1, "L01.size", "pop_front"); a.push_front(&e[3]); vf_assert(a.front() == &e[3], "L01.ends", "push_front"); }
    a.clear(); vf_assert(a.empty() && a.size() == 0, "L01.size", "a cleared list is not empty");
}
extern "C" void vfh_ctl_half() { W w; L a, b; a.push_back(&w.e[0]); a.push_back(&w.e[1]); A().back(0); A().back(1); ((awl::forward_link<awl::quick_link>&)w.e[0]).set_next((awl::quick_link*)&w.e[0]); all(a, b, w); }
