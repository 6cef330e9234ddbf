// K01: comparers over unknown keys. Every primitive comparison is recorded with the part it compares.
#include "vf.h"
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include "Awl/KeyCompare.h"
#include "Awl/CompositeCompare.h"
#include "Awl/TransparentCompositeCompare.h"
#include "Awl/ReverseCompare.h"
#include "Awl/String.h"
enum { NONE = 3 };
VFG(int, cmps, 0) VFG(int, eqmask, 0) VFG(int, ltmask, 0) VFG(int, gtmask, 0) VFG(int, lexic, 0) VFG(int, self, 0)
// the sign of (left, right) of every part is chosen first, so every path knows the order
struct Key { int v; int part; };
static void compared(const Key& l, const Key& r)
{
    vf_assert(l.part == r.part, "K01.same-accessor", "a comparer compares different parts of its operands");
    if (vfg_lexic && !vfg_self) for (int p = 0; p < l.part; p++) vf_assert(((vfg_ltmask | vfg_gtmask) >> p & 1) == 0, "K01.earlier-equal", "a later key part is consulted although an earlier part differs");
    vfg_cmps++;
}
inline bool operator<(const Key& l, const Key& r) { compared(l, r); return l.v < r.v; }
struct Rev { int tag = 0; bool operator()(const Key& l, const Key& r) const { vf_assert(tag == 7, "K01.configured", "a comparer does not use the comparison it was given"); return r < l; } };
struct P
{
    Key a, b, c;
    const Key& first() const { return a; }
    Key second() const { return b; }
    AWL_TUPLIZABLE(a, b, c)
};
struct Pair { P x, y; };
static int rel(int p) { return vfg_ltmask >> p & 1 ? -1 : vfg_gtmask >> p & 1 ? 1 : 0; }
static Pair keys()
{
    int l[NONE], r[NONE];
    for (int p = 0; p < 3; p++)
    {
        vf_symbolic(&l[p], sizeof(int), "left"); vf_symbolic(&r[p], sizeof(int), "right");
        switch (vf_choice(3, "part is equal, less, greater")) { case 0: r[p] = l[p]; break; case 1: vf_assume(l[p] < r[p]); vfg_ltmask |= 1 << p; break; default: vf_assume(r[p] < l[p]); vfg_gtmask |= 1 << p; }
    }
    return {P{{l[0], 0}, {l[1], 1}, {l[2], 2}}, P{{r[0], 0}, {r[1], 1}, {r[2], 2}}};
}
// expected: sign of the order of x and y
template <class C, class V> static void objects(const C& c, const V& x, const V& y, int s)
{
    vf_assert(c(x, y) == (s < 0), "K01.order", "a comparer orders two objects differently than their keys");
    vf_assert(c(y, x) == (s > 0), "K01.order", "a comparer orders two exchanged objects differently than their keys");
    vfg_self = 1; vf_assert(!c(x, x) && !c(y, y), "K01.irreflexive", "a comparer orders an object before itself"); vfg_self = 0;
    vf_assert(vfg_cmps > 0, "K01.compared", "a comparer does not compare the keys"); vf_cover("compared");
}
template <class C, class V, class K> static void mixed(const C& c, const V& x, const V& y, const K& kx, const K& ky, int s)
{
    objects(c, x, y, s);
    vf_assert(c(x, ky) == (s < 0), "K01.siblings", "the object/key overload disagrees with the object/object overload");
    vf_assert(c(ky, x) == (s > 0), "K01.siblings", "the key/object overload disagrees with the object/object overload");
    vf_assert(c(kx, y) == (s < 0), "K01.siblings", "the key/object overload disagrees with the object/object overload");
    vf_assert(c(y, kx) == (s > 0), "K01.siblings", "the object/key overload disagrees with the object/object overload");
    vfg_self = 1; vf_assert(!c(x, kx) && !c(kx, x), "K01.irreflexive", "a comparer orders an object before or after its own key"); vfg_self = 0;
    vf_cover("mixed compared");
}
using Less = std::less<void>;
extern "C" void vfh_member()
{
    Pair k = keys(); int s = rel(0);
    auto sx = std::make_shared<P>(k.x), sy = std::make_shared<P>(k.y); auto ux = std::make_unique<P>(k.x), uy = std::make_unique<P>(k.y);
    switch (vf_choice(10, "comparer"))
    {
    case 0: mixed(awl::make_compare(&P::a), k.x, k.y, k.x.a, k.y.a, s); break;
    case 1: mixed(awl::make_compare(&P::second), k.x, k.y, k.x.b, k.y.b, rel(1)); break;
    case 2: mixed(awl::member_compare<&P::a>(), k.x, k.y, k.x.a, k.y.a, s); break;
    case 3: mixed(awl::pointer_compare<&P::b>(), (const P*)&k.x, (const P*)&k.y, k.x.b, k.y.b, rel(1)); break;
    case 4: mixed(awl::shared_compare<&P::c>(), sx, sy, k.x.c, k.y.c, rel(2)); break;
    case 5: mixed(awl::unique_compare<&P::a>(), ux, uy, k.x.a, k.y.a, s); break;
    case 6: mixed(awl::smart_compare<std::shared_ptr<P>, &P::second>(), sx, sy, k.x.b, k.y.b, rel(1)); break;
    case 7: mixed(awl::tuplizable_compare<P, 2>(), k.x, k.y, k.x.c, k.y.c, rel(2)); break;
    case 8: mixed(awl::tuplizable_compare<P*, 1>(), (const P*)&k.x, (const P*)&k.y, k.x.b, k.y.b, rel(1)); break;
    default: mixed(awl::make_shared_compare(&P::first), sx, sy, k.x.a, k.y.a, s); break;
    }
}
// a comparison object with state reaches every variant
extern "C" void vfh_configured()
{
    Pair k = keys(); int s = -rel(0); Rev r{7};
    auto sx = std::make_shared<P>(k.x), sy = std::make_shared<P>(k.y); auto ux = std::make_unique<P>(k.x), uy = std::make_unique<P>(k.y);
    using G = awl::getter<&P::a>;
    switch (vf_choice(5, "comparer"))
    {
    case 0: mixed(awl::make_compare(&P::a, r), k.x, k.y, k.x.a, k.y.a, s); break;
    case 1: mixed(awl::make_compare(&P::first, r), k.x, k.y, k.x.a, k.y.a, s); break;
    case 2: mixed(awl::make_shared_compare(&P::first, r), sx, sy, k.x.a, k.y.a, s); break;
    case 3: mixed(awl::unique_compare<&P::a, Rev>(G(), r), ux, uy, k.x.a, k.y.a, s); break;
    default: mixed(awl::pointer_compare<&P::a, Rev>(G(), r), (const P*)&k.x, (const P*)&k.y, k.x.a, k.y.a, s); break;
    }
}
static int lex(int n) { for (int p = 0; p < n; p++) if (int r = rel(p)) return r; return 0; }
extern "C" void vfh_composite()
{ vfg_lexic = 1;
    Pair k = keys();
    switch (vf_choice(5, "comparer"))
    {
    case 0: objects(awl::compose_comparers<P>(awl::make_compare(&P::a)), k.x, k.y, lex(1)); break;
    case 1: objects(awl::compose_comparers<P>(awl::make_compare(&P::a), awl::make_compare(&P::b)), k.x, k.y, lex(2)); break;
    case 2: objects(awl::compose_comparers<P>(awl::make_compare(&P::first), awl::make_compare(&P::second), awl::make_compare(&P::c)), k.x, k.y, lex(3)); break;
    case 3: objects(awl::CompositeCompare<P, awl::member_compare<&P::a>, awl::tuplizable_compare<P, 1>, awl::member_compare<&P::c>>(), k.x, k.y, lex(3)); break;
    default: // the second part descends
    { int s = rel(0) ? rel(0) : rel(1) ? -rel(1) : rel(2); objects(awl::compose_comparers<P>(awl::make_compare(&P::a), awl::make_compare(&P::b, Rev{7}), awl::make_compare(&P::c)), k.x, k.y, s); }
    }
}
extern "C" void vfh_transparent()
{ vfg_lexic = 1;
    Pair k = keys();
    switch (vf_choice(3, "comparer"))
    {
    case 0: { auto c = awl::compose_transparent_comparers<P>(awl::make_compare(&P::a), awl::make_compare(&P::b)); using C = decltype(c); typename C::key_type kx(k.x.a, k.x.b), ky(k.y.a, k.y.b); mixed(c, k.x, k.y, kx, ky, lex(2)); } break;
    case 1: { auto c = awl::compose_transparent_comparers<P>(awl::make_compare(&P::a), awl::make_compare(&P::b), awl::make_compare(&P::c)); using C = decltype(c); typename C::key_type kx(k.x.a, k.x.b, k.x.c), ky(k.y.a, k.y.b, k.y.c); mixed(c, k.x, k.y, kx, ky, lex(3)); } break;
    default: // keys made of references and of values that are gone
    {
        auto c = awl::compose_transparent_comparers<P>(awl::make_compare(&P::a), awl::make_compare(&P::b), awl::make_compare(&P::c, Rev{7})); using C = decltype(c);
        int s = lex(2) ? lex(2) : -rel(2); auto kx = C::make_key(k.x.a, Key(k.x.b), k.x.c); auto ky = C::make_key(Key(k.y.a), k.y.b, Key(k.y.c));
        vf_assert(c(k.x, ky) == (s < 0), "K01.siblings", "a made key is ordered differently than the object"); vf_assert(c(ky, k.x) == (s > 0), "K01.siblings", "a made key is ordered differently than the object");
        vf_assert(c(kx, k.y) == (s < 0), "K01.siblings", "a made key is ordered differently than the object"); vf_assert(c(k.y, kx) == (s > 0), "K01.siblings", "a made key is ordered differently than the object");
    }
    }
}
extern "C" void vfh_reverse()
{
    Pair k = keys();
    switch (vf_choice(3, "comparer"))
    {
    case 0: objects(awl::reverse_comparer<P>(awl::make_compare(&P::a)), k.x, k.y, -rel(0)); break;
    case 1: mixed(awl::reverse_transparent_comparer<P>(awl::make_compare(&P::b)), k.x, k.y, k.x.b, k.y.b, -rel(1)); break;
    default: vfg_lexic = 1; objects(awl::reverse_comparer<P>(awl::compose_comparers<P>(awl::make_compare(&P::a), awl::make_compare(&P::b, Rev{7}))), k.x, k.y, rel(0) ? -rel(0) : rel(1)); break;
    }
}
// member-wise comparison of objects
struct Q { int a; bool b; AWL_TUPLIZABLE(a, b) };
AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(Q)
extern "C" void vfh_memberwise()
{
    Q x, y; vf_symbolic(&x.a, sizeof(int), "left"); vf_symbolic(&y.a, sizeof(int), "right"); int s = 0;
    switch (vf_choice(3, "equal, less, greater")) { case 0: y.a = x.a; break; case 1: vf_assume(x.a < y.a); s = -1; break; default: vf_assume(y.a < x.a); s = 1; }
    x.b = vf_choice(2, "left"); y.b = vf_choice(2, "right"); if (!s) s = (int)x.b - (int)y.b;
    vf_assert((x < y) == (s < 0) && (x > y) == (s > 0) && (x <= y) == (s <= 0) && (x >= y) == (s >= 0) && (x == y) == (s == 0) && (x != y) == (s != 0), "K01.memberwise", "the member-wise operators do not compare the members in their order");
    vf_assert(awl::objects_less(x, y) == (s < 0) && awl::objects_greater(x, y) == (s > 0) && awl::objects_equal(x, y) == (s == 0), "K01.memberwise", "the member-wise functions do not compare the members in their order");
}
// C strings
extern "C" int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static const char* const words[] = {"", "a", "B", "b", "ab", "Ab", "aB", "abc", "b0", "AC"};
static const int folded[] = {0, 1, 6, 6, 2, 2, 2, 3, 7, 4}; // rank without case
static const int exact[] = {0, 4, 3, 8, 6, 2, 5, 7, 9, 1};  // rank by character code
extern "C" void vfh_strings()
{
    int i = vf_choice(10, "left"), j = vf_choice(10, "right");
    vf_assert(awl::CStringInsensitiveLess<char>()(words[i], words[j]) == (folded[i] < folded[j]), "K01.strings", "the case-insensitive string order is not the alphabetical one");
    vf_assert(awl::CStringLess<char>()(words[i], words[j]) == (exact[i] < exact[j]), "K01.strings", "the string order is not the one of the characters"); vf_cover("strings");
}
// control: a comparer that is reflexive
struct Bad { bool operator()(const P& x, const P& y) const { return !(y.a < x.a); } };
extern "C" void vfh_ctl_reflexive() { Pair k = keys(); objects(Bad(), k.x, k.y, rel(0)); }
