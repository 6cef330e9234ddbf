// L06: vector_set. Any insertion order (the rank of every new element is unknown), any removals; after every operation
// tree links, subtree counts, list order, and all lookups are compared with the order the operations imply.
#include "vf.h"
#include "Awl/QuickList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/SingleNodeIterator.h"
#include "Awl/VectorSet.h"
#ifdef VF_DEEP
enum { INS = 5, CAP = 14 };
#else
enum { INS = 4, CAP = 14 };
#endif
extern "C" { int vfg_ord[24]; int vfg_rank[24]; }   // ids in ascending order; rank by id
VFG(int, n, 0) VFG(int, live, 0) VFG(int, mayfail, 0) VFG(int, failed, 0)
static void rerank() { for (int i = 0; i < vfg_n; i++) vfg_rank[vfg_ord[i]] = i; }
static void ref_add(int p, int id) { for (int i = vfg_n; i > p; i--) vfg_ord[i] = vfg_ord[i - 1]; vfg_ord[p] = id; vfg_n++; rerank(); }
static void ref_del(int p) { for (int i = p + 1; i < vfg_n; i++) vfg_ord[i - 1] = vfg_ord[i]; vfg_n--; rerank(); }
struct T
{
    int id;
    explicit T(int i) : id(i) { vfg_live++; }
    T(const T& o) : id(o.id) { if (vfg_mayfail && vf_choice(2, "element copy: 0 ok 1 throws")) { vfg_failed = 1; throw 1; } vfg_live++; }
    T(T&& o) : id(o.id) { vfg_live++; }
    ~T() { vfg_live--; }
};
struct Less { bool operator()(const T& a, const T& b) const { return vfg_rank[a.id] < vfg_rank[b.id]; } };
using S = awl::vector_set<T, Less>;
// key between ranks: compares with elements by position p: elements with rank < p are less, the others greater
struct Gap { int p; };
struct Less2 { using is_transparent = void;
    bool operator()(const T& a, const T& b) const { return vfg_rank[a.id] < vfg_rank[b.id]; }
    bool operator()(const T& a, const Gap& g) const { return vfg_rank[a.id] < g.p; }
    bool operator()(const Gap& g, const T& a) const { return !(vfg_rank[a.id] < g.p); } };
using S2 = awl::vector_set<T, Less2>;
namespace awl { class VectorSetTest { public:
    template <class X> static void tree(const X& s)
    {
        const typename X::Node* st[16]; int d = 0, k = 0; const typename X::Node* x = s.m_root; const typename X::Node* all[24];
        if (x) vf_assert(x->parent == nullptr, "L06.links", "the root has a parent");
        while (x || d)
        {
            while (x) { if (x->left) vf_assert(x->left->parent == x, "L06.links", "a child does not point to its parent"); if (x->right) vf_assert(x->right->parent == x, "L06.links", "a child does not point to its parent"); st[d++] = x; x = x->left; if (d > CAP) { vf_assert(false, "L06.links", "the tree has a cycle"); return; } }
            x = st[--d];
            vf_assert(k < vfg_n && x->value.id == vfg_ord[k], "L06.order", "the tree does not hold the elements in order"); if (k >= vfg_n) return;
            std::size_t c = (x->left ? x->left->count + 1 : 0) + (x->right ? x->right->count + 1 : 0);
            vf_assert(x->count == c, "L06.count", "the element count of a subtree is wrong");
            all[k++] = x; x = x->right;
        }
        vf_assert(k == vfg_n, "L06.order", "the tree misses an element");
        int j = 0; for (auto i = s.m_list.begin(); i != s.m_list.end(); ++i) { vf_assert(j < k && *i == all[j], "L06.list", "the list does not hold the nodes of the tree in order"); if (++j > k) break; }
        vf_assert(j == k, "L06.list", "the list misses an element");
    }
    // any tree without a red child of a red node, element i is the i-th in order
    using Node = S::Node; using Color = S::Color;
    static Node* node(Node* parent, Color c) { Node* p = new (std::allocator<Node>().allocate(1)) Node(T(0)); p->parent = parent; p->color = c; p->left = p->right = nullptr; p->count = 0; return p; }
    static Node* any(Node* parent, int depth) { if (!depth) return nullptr; int c = vf_choice(parent->color == Color::Red ? 2 : 3, "subtree: 0 none 1 black 2 red"); if (!c) return nullptr; Node* p = node(parent, c == 1 ? Color::Black : Color::Red); p->left = any(p, depth - 1); p->right = any(p, depth - 1); return p; }
    // every tree of black height b
    static Node* full(Node* parent, int b, bool red) { bool r = red && vf_choice(2, "root of the subtree: 0 black 1 red"); if (!r && b == 0) return nullptr; Node* p = node(parent, r ? Color::Red : Color::Black); p->left = full(p, r ? b : b - 1, !r); p->right = full(p, r ? b : b - 1, !r); return p; }
    static void number(S& s, Node* x) { if (!x) return; number(s, x->left); x->value.id = vfg_n; vfg_ord[vfg_n] = vfg_n; vfg_n++; s.m_list.push_back(x); number(s, x->right); x->count = (x->left ? x->left->count + 1 : 0) + (x->right ? x->right->count + 1 : 0); }
    static void build_any(S& s) { Node* r = s.m_root = node(nullptr, Color::Black); if (vf_choice(2, "0 left 1 right is higher")) { r->left = any(r, 1); r->right = any(r, 3); } else { r->left = any(r, 3); r->right = any(r, 1); } number(s, r); rerank(); }
    static void build_full(S& s) { s.m_root = full(nullptr, 1 + vf_choice(2, "black height - 1"), false); number(s, s.m_root); rerank(); }
}; }
template <class X> static void check(X& s)
{
    awl::VectorSetTest::tree(s); const X& c = s;
    vf_assert(s.size() == (size_t)vfg_n && s.empty() == (vfg_n == 0), "L06.size", "size or empty does not agree with the content");
    int k = 0; for (auto i = c.begin(); i != c.end(); ++i) { vf_assert(k < vfg_n && i->id == vfg_ord[k], "L06.iteration", "the iteration does not visit the elements in order"); if (++k > vfg_n) break; }
    vf_assert(k == vfg_n, "L06.iteration", "the iteration misses an element");
    for (auto i = c.rbegin(); i != c.rend(); ++i) { --k; vf_assert(k >= 0 && i->id == vfg_ord[k < 0 ? 0 : k], "L06.iteration", "the reverse iteration does not visit the elements in opposite order"); if (k < 0) break; }
    vf_assert(k == 0, "L06.iteration", "the reverse iteration misses an element");
    vf_cover("compared");
}
// all lookups by one key and one index
template <class X> static void lookups(X& s)
{
    const X& c = s;
    for (int i = 0; i < vfg_n; i++)
    {
        int id = vfg_ord[i]; T key(id); auto it = s.find(key); auto ci = c.find(key);
        vf_assert(it != s.end() && it->id == id && ci != c.end() && ci->id == id && s.contains(key), "L06.find", "an element of the set is not found by its key");
        if (it == s.end()) return;
        vf_assert(s.index_of(it) == (size_t)i && s.index_of(ci) == (size_t)i && s.index_of(key) == (size_t)i, "L06.index", "the index of an element is not its position");
        vf_assert(s.at(i).id == id && c.at(i).id == id && s[i].id == id && c[i].id == id && s.find_by_index(i) == it && c.find_by_index(i) == ci, "L06.access", "access by index does not yield the element at this position");
        auto [f, fi] = s.find2(key); vf_assert(f == it && fi == (size_t)i, "L06.index", "find2 does not yield the element and its position");
        vf_assert(s.lower_bound(key) == it && c.lower_bound(key) == ci, "L06.bounds", "lower_bound of an element's key is not this element");
        auto nx = it; ++nx; vf_assert(s.upper_bound(key) == nx, "L06.bounds", "upper_bound of an element's key is not the next element");
        auto cx = ci; ++cx; vf_assert(c.upper_bound(key) == cx, "L06.bounds", "upper_bound of an element's key is not the next element");
    }
    if (vfg_n) vf_assert(s.front().id == vfg_ord[0] && s.back().id == vfg_ord[vfg_n - 1], "L06.access", "front or back is not the first or last element");
    vf_assert(s.find_by_index(vfg_n) == s.end(), "L06.access", "an index behind the last element is found");
    bool thrown = false; try { (void)s.at(vfg_n); } catch (const std::out_of_range&) { thrown = true; } vf_assert(thrown, "L06.access", "checked access behind the last element does not throw");
    vf_cover("looked up");
}
template <class X> static void add(X& s, int id, int p)
{
    ref_add(p, id); T v(id); int how = id % 3;
    if (how == 0) { auto [i, ok] = s.insert(v); vf_assert(ok && i->id == id, "L06.inserted", "inserting a new element is not reported or yields another element"); }
    else if (how == 1) { auto [i, ok] = s.insert(std::move(v)); vf_assert(ok && i->id == id, "L06.inserted", "inserting a new element is not reported or yields another element"); }
    else { auto [i, ok] = s.emplace(id); vf_assert(ok && i->id == id, "L06.inserted", "emplacing a new element is not reported or yields another element"); }
}
template <class X> static void build(X& s, int n) { for (int id = 0; id < n; id++) { int p = vf_choice(id + 1, "rank of the new element"); add(s, id, p); awl::VectorSetTest::tree(s); } }
static void gone() { vf_assert(vfg_live == 0, "L06.destroyed", "an element is not destroyed exactly once"); vf_cover("all gone"); }
extern "C" void vfh_insert()
{
    { S s; check(s); build(s, INS); check(s); lookups(s);
    int id = vf_choice(INS, "duplicate"); T d(id); int l = vfg_live; auto [i, ok] = s.insert(d); vf_assert(!ok && i->id == id && i == s.find(d), "L06.unique", "a second element with the same key is inserted"); auto [j, ok2] = s.emplace(id); vf_assert(!ok2 && j == i && vfg_live == l, "L06.unique", "a second element with the same key is emplaced");
    auto [k, ok3] = s.insert(std::move(d)); vf_assert(!ok3 && k == i, "L06.unique", "a second element with the same key is inserted"); check(s); }
    gone();
}
extern "C" void vfh_gap()
{
    { S2 s; build(s, INS - 1); const S2& c = s; int p = vf_choice(INS, "gap"); Gap g{p};
    vf_assert(s.find(g) == s.end() && c.find(g) == c.end() && !s.contains(g), "L06.find", "a key that is not in the set is found");
    auto e = s.begin(); for (int i = 0; i < p; i++) ++e; auto ce = c.begin(); for (int i = 0; i < p; i++) ++ce;
    vf_assert(s.lower_bound(g) == e && s.upper_bound(g) == e && c.lower_bound(g) == ce && c.upper_bound(g) == ce, "L06.bounds", "the bound of an absent key is not the first greater element");
    bool t = false; try { (void)s.index_of(g); } catch (const std::out_of_range&) { t = true; } vf_assert(t, "L06.index", "the index of an absent key is returned");
    vf_assert(std::get<0>(s.find2(g)) == s.end() && s.erase(g) == 0, "L06.find", "a key that is not in the set is found"); check(s); }
    gone();
}
template <class X> static void remove(X& s) { int p = vf_choice(vfg_n, "position to remove"); int id = vfg_ord[p];
    if (id % 2) { s.erase(s.find_by_index(p)); ref_del(p); } else { T key(id); vf_assert(s.erase(key) == 1, "L06.erased", "erasing an element by key does not report one"); ref_del(p); } awl::VectorSetTest::tree(s); }
extern "C" void vfh_remove() { { S s; build(s, 4); remove(s); remove(s); check(s); lookups(s); add(s, 4, vf_choice(vfg_n + 1, "rank of the new element")); check(s);
#ifdef VF_DEEP
    remove(s); check(s);
#endif
    } gone(); }
// larger trees: six histories that together reach every branch of the insertion and removal fix-ups
struct History { int ins[11], del[11]; };
static const History histories[] = {
    {{2,10,9,8,0,1,7,3,6,5,4},{2,8,4,3,5,0,1,9,7,10,6}},
    {{2,1,0,6,7,3,8,5,10,4,9},{0,8,6,1,7,10,5,3,9,4,2}},
    {{2,5,4,9,3,10,7,1,0,6,8},{8,7,3,5,2,4,6,0,9,1,10}},
    {{2,4,9,1,3,7,10,8,6,0,5},{1,5,6,4,10,2,9,7,0,3,8}},
    {{2,7,4,9,0,10,8,1,5,3,6},{4,0,10,8,1,3,2,5,7,9,6}},
    {{6,0,1,8,10,7,3,9,4,5,2},{6,9,8,5,2,10,0,7,4,3,1}}, };
extern "C" void vfh_large()
{
    { S s; const History& h = histories[vf_choice(6, "history")];
    for (int i = 0; i < 11; i++) { int id = h.ins[i], p = 0; for (int k = 0; k < vfg_n; k++) if (vfg_ord[k] < id) p = k + 1; add(s, id, p); awl::VectorSetTest::tree(s); }
    check(s); lookups(s);
    for (int i = 0; i < 11; i++) { int p = vfg_rank[h.del[i]]; T key(h.del[i]); vf_assert(s.erase(key) == 1, "L06.erased", "erasing an element by key does not report one"); ref_del(p); check(s); if (i == 5) lookups(s); } }
    gone();
}
// one operation on any tree
static void remove_one(S& s) { int p = vf_choice(vfg_n, "position to remove"); if (vfg_n % 2) s.erase(s.find_by_index(p)); else { T key(vfg_ord[p]); vf_assert(s.erase(key) == 1, "L06.erased", "erasing an element by key does not report one"); } ref_del(p); awl::VectorSetTest::tree(s); vf_cover("removed from any tree"); }
static void insert_one(S& s) { add(s, vfg_n, vf_choice(vfg_n + 1, "rank of the new element")); awl::VectorSetTest::tree(s); vf_cover("inserted into any tree"); }
extern "C" void vfh_any_remove() { { S s; awl::VectorSetTest::build_any(s); remove_one(s); } gone(); }
extern "C" void vfh_full_remove() { { S s; awl::VectorSetTest::build_full(s); remove_one(s); } gone(); }
extern "C" void vfh_full_insert() { { S s; awl::VectorSetTest::build_full(s); insert_one(s); } gone(); }
extern "C" void vfh_copy()
{
    { S s; build(s, 3); int k = vf_choice(6, "copy, assign, self assign, move, move assign, self compare");
    if (k == 0) { S t(s); check(t); vf_assert(t == s && !(t != s), "L06.copy", "a copy is not equal to its source"); T key(vfg_ord[0]); t.erase(key); check(s); vf_assert(t != s, "L06.copy", "sets of different size compare equal"); }
    else if (k == 1) { S t; T x(1); t.insert(x); t = s; check(t); check(s); vf_assert(t == s, "L06.copy", "a copy is not equal to its source"); }
    else if (k == 2) { S& r = s; s = r; check(s); }
    else if (k == 3) { S t(std::move(s)); check(t); lookups(t); vf_assert(s.empty() && s.size() == 0 && s.begin() == s.end(), "L06.moved-from", "a moved-from set is not empty"); T x(1); s.insert(x); vf_assert(s.size() == 1 && s.front().id == 1, "L06.moved-from", "a moved-from set cannot be used again"); check(t); }
    else if (k == 4) { S t; T x(1); t.insert(x); t = std::move(s); check(t); lookups(t); vf_assert(s.empty() && s.size() == 0 && s.begin() == s.end(), "L06.moved-from", "a moved-from set is not empty"); T y(2); s.insert(y); vf_assert(s.size() == 1 && s.front().id == 2, "L06.moved-from", "a moved-from set cannot be used again"); check(t); }
    else { s.clear(); vfg_n = 0; check(s); add(s, 5, 0); check(s); } }
    gone();
}
extern "C" void vfh_construct()
{
    int k = vf_choice(2, "list or range");
    { vfg_ord[0] = 2; vfg_ord[1] = 0; vfg_ord[2] = 1; vfg_n = 3; rerank();
    if (k == 0) { S s{T(0), T(1), T(2), T(0)}; check(s); lookups(s); } else { T a[4] = {T(0), T(1), T(2), T(0)}; S s(a, a + 4, Less()); check(s); lookups(s); } }
    gone();
}
// an element whose copy fails: nothing is lost, nothing leaks, the set stays as it was
extern "C" void vfh_throw()
{
    { S s; build(s, 2); int k = vf_choice(3, "insert, copy, emplace"); vfg_mayfail = 1;
    try {
        if (k == 0) { ref_add(1, 2); T v(2); try { s.insert(v); } catch (int) { ref_del(1); throw; } }
        else if (k == 1) { S t(s); vfg_mayfail = 0; check(t); }
        else { ref_add(1, 2); T v(2); try { s.emplace(v); } catch (int) { ref_del(1); throw; } }
    } catch (int) { vf_cover("element copy failed"); }
    vfg_mayfail = 0; check(s); }
    gone();
}
// nodes come from the given allocator and go back to it
extern "C" { int vfg_alloc[8]; }
template <class U> struct Al { using value_type = U; int id = 0; Al() = default; explicit Al(int i) : id(i) {} template <class V> Al(const Al<V>& o) : id(o.id) {}
    U* allocate(size_t n) { vfg_alloc[id]++; return static_cast<U*>(::operator new(n * sizeof(U))); } void deallocate(U* p, size_t) { vfg_alloc[id]--; ::operator delete(p); } bool operator==(const Al&) const = default; };
using SA = awl::vector_set<T, Less, Al<T>>;
extern "C" void vfh_alloc()
{
    { vfg_ord[0] = 1; vfg_ord[1] = 0; vfg_n = 2; rerank(); int k = vf_choice(4, "comparator and allocator, list, range, copy"); Al<T> al(5); T a[3] = {T(0), T(1), T(0)};
    auto use = [](SA& s) { check(s); s.emplace(1); s.insert(T(0)); check(s); vf_assert(vfg_alloc[0] == 0 && vfg_alloc[5] >= 2, "L06.allocator", "a node does not come from the given allocator"); vf_assert(s.get_allocator().id == 5, "L06.allocator", "the set does not keep the given allocator"); };
    if (k == 0) { SA s(Less(), al); s.emplace(1); s.insert(a[0]); use(s); T key(0); s.erase(key); ref_del(1); check(s); SA t(Less(), Al<T>(6)); t = std::move(s); check(t); vf_assert(vfg_alloc[6] == 0 && vfg_alloc[5] == 1, "L06.allocator", "a moved node changes its allocator"); }
    else if (k == 1) { SA s({T(0), T(1), T(0)}, Less(), al); use(s); }
    else if (k == 2) { SA s(a, a + 3, Less(), al); use(s); }
    else { SA s(a, a + 3, Less(), al); SA t(s); use(t); } }
    for (int i = 0; i < 8; i++) vf_assert(vfg_alloc[i] == 0, "L06.allocator", "a node is not returned to the allocator it comes from");
    gone();
}
extern "C" void vfh_ctl_order() { S s; T a(0), b(1); vfg_ord[0] = 1; vfg_ord[1] = 0; vfg_n = 2; vfg_rank[0] = 0; vfg_rank[1] = 1; s.insert(a); s.insert(b); check(s); }
