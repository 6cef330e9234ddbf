// K08: comparing and hashing strings and structures: every form of the same text is treated alike.
#define __NO_CTYPE
#include "vf.h"
#include <cctype>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <array>
#include <list>
#include "Awl/String.h"
#include "Awl/Crypto/FixedHash.h"
#include "Awl/Hashable.h"
#include "Awl/RangeUtil.h"
#include "Awl/Math.h"
enum { MAX = 3 + DEEP };
// the C library: lower case is a fixed function of the character
extern "C" int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + ('a' - 'A') : c; }
extern "C" unsigned towlower(unsigned c) { return (unsigned)tolower((int)c); }
extern "C" int strcmp(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
extern "C" int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
extern "C" wchar_t* wmemcpy(wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) a[i] = b[i]; return a; }
extern "C" size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
extern "C" int wcscmp(const wchar_t* a, const wchar_t* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b ? 0 : *a < *b ? -1 : 1; }
// upper and lower case of a letter, a letter between, one that is between the cases, one outside of ASCII, the end
extern "C" { int vfg_pick[8]; }
template <class C> static C any(int site, bool zero) { static const int of[] = {'B', 'b', 'C', '_', 0x80, 0}; int k = vf_choice(zero ? 6 : 5, "character"); vfg_pick[site] = k; return (C)of[k]; }
template <class C, int S> static int text(C* p, bool zero = false) { int n = vf_choice(MAX, "length"); vfg_pick[S] = vfg_pick[S + 1] = -1; if (n > 0) p[0] = any<C>(S, zero); if (n > 1) p[1] = any<C>(S + 1, zero); if (DEEP && n > 2) p[2] = any<C>(S + 1, zero); p[n] = 0; return n; }
template <class C> static int order(const C* a, int n, const C* b, int m, bool lower)
{
    for (int i = 0; i < n && i < m; i++) { long x = lower ? tolower((int)a[i]) : sizeof(C) == 1 ? (long)(unsigned char)a[i] : (long)a[i], y = lower ? tolower((int)b[i]) : sizeof(C) == 1 ? (long)(unsigned char)b[i] : (long)b[i]; if (x != y) return x < y ? -1 : 1; }
    return n == m ? 0 : n < m ? -1 : 1;
}
template <class C> static void compare()
{
    C a[MAX + 1], b[MAX + 1]; int n = text<C, 0>(a), m = text<C, 2>(b);
    if (vf_choice(2, "ignoring the case"))
    {
        int o = order(a, n, b, m, true); awl::CStringInsensitiveLess<C> less;
        vf_assert(less(a, b) == (o < 0) && less(b, a) == (o > 0), "K08.order", "texts are not ordered by their lower case characters, the shorter one first");
        std::basic_string<C> s(a, n), t(b, m); awl::StringInsensitiveEqual<C> eq; vf_assert(eq(s, t) == (o == 0) && eq(t, s) == (o == 0), "K08.equal", "texts that differ in the case only, and no others, should be equal");
    }
    else
    {
        int o = order(a, n, b, m, false); awl::CStringLess<C> less;
        vf_assert(less(a, b) == (o < 0) && less(b, a) == (o > 0), "K08.order", "texts are not ordered like their characters");
        std::basic_string<C> s(a, n), t(b, m); awl::StringEqual<C> eq; vf_assert(eq(s, t) == (o == 0), "K08.equal", "different texts are equal or equal texts are not");
    }
    vf_cover("compared");
}
extern "C" void vfh_compare() { compare<char>(); }
extern "C" void vfh_compare_wide() { compare<wchar_t>(); }
// a hash that takes down what it is given
extern "C" { int vfg_given[8]; } VFG(int, count, 0) VFG(int, calls, 0)
struct Recorder { using value_type = int; static constexpr size_t size() { return 4; } template <class I> int operator()(I b, I e) const { vfg_calls++; vfg_count = 0; for (; b != e && vfg_count < 8; ++b) vfg_given[vfg_count++] = (int)*b; return 7; } };
template <class C> static void recorded(int v, const C* p, int n) { vf_assert(v == 7 && vfg_calls == 1, "K08.hash-form", "the result of the hash function is not returned"); vfg_calls = 0; vf_assert(vfg_count == n, "K08.hash-form", "a form of a text is hashed with more or fewer characters"); for (int i = 0; i < n; i++) vf_assert(vfg_given[i] == (int)p[i], "K08.hash-form", "a form of a text is hashed with other characters"); }
template <class C> static void forms()
{
    awl::crypto::FixedHash<Recorder> h; C a[MAX + 1]; int n = text<C, 4>(a, true);
    std::basic_string<C> s(a, n); recorded(h(s), a, n); std::basic_string_view<C> v(a, n); recorded(h(v), a, n); recorded(h(a, a + n), a, n);
    if (n == 2) { C l[3] = {a[0], a[1], 0}; recorded(h(l), a, 2); recorded(h(awl::fixed_string<C, 2>(l)), a, 2); } else if (n == 1) { C l[2] = {a[0], 0}; recorded(h(l), a, 1); } else { C l[1] = {0}; recorded(h(l), a, 0); }
    vf_cover("hashed");
}
extern "C" void vfh_hash_forms() { forms<char>(); }
extern "C" void vfh_hash_forms_wide() { forms<char16_t>(); }
// structures and vectors: equal ones have equal hashes, and every field and element, and their order, counts
struct Tag { size_t h; bool operator==(const Tag&) const = default; };
namespace std { template <> struct hash<Tag> { size_t operator()(const Tag& t) const { return t.h; } }; }
struct Two { Tag a; unsigned char gap; Tag b; AWL_TUPLIZABLE(a, gap, b) }; AWL_HASHABLE(Two)
struct One { Tag a; AWL_TUPLIZABLE(a) }; AWL_HASHABLE(One)
extern "C" void vfh_fields()
{
    size_t x = vf_nondet("x"), y = vf_nondet("y"); unsigned char g = 3; Two p{{x}, g, {y}}, q{{x}, g, {y}}; std::hash<Two> h;
    vf_assert(h(p) == h(q), "K08.hash-equal", "equal structures have different hashes"); std::vector<Tag> v{{x}, {y}}, w; w.reserve(9); w.push_back({x}); w.push_back({y}); std::hash<std::vector<Tag>> hv; vf_assert(hv(v) == hv(w), "K08.hash-equal", "equal vectors have different hashes");
    One o{{x}}, o2{{x}}; vf_assert(std::hash<One>()(o) == std::hash<One>()(o2), "K08.hash-equal", "equal structures have different hashes");
    vf_cover("fields hashed");
}
extern "C" void vfh_every_field()
{
    Two p{{1}, 3, {2}}, q = p; std::hash<Two> h; switch (vf_choice(3, "field")) { case 0: q.a.h = 4; break; case 1: q.gap = 4; break; default: q.b.h = 4; } vf_assert(h(p) != h(q), "K08.hash-field", "a field does not influence the hash of its structure");
    std::vector<Tag> v{{1}, {2}, {3}}, w = v; w[vf_choice(3, "element")].h = 9; std::hash<std::vector<Tag>> hv; vf_assert(hv(v) != hv(w), "K08.hash-field", "an element does not influence the hash of its vector"); vf_assert(hv({{1}, {2}}) != hv({{2}, {1}}) && hv({{1}}) != hv({{1}, {1}}), "K08.hash-field", "the order or the number of elements does not influence the hash");
}
// is an element out of place?
extern "C" void vfh_position()
{
    int n = 1 + vf_choice(3, "length - 1"), k = vf_choice(n, "position"); int a[3]; std::vector<int> l; for (int j = 0; j < n; j++) { vfg_pick[j] = a[j] = vf_choice(3, "element"); l.push_back(a[j]); } auto i = l.begin() + k;
    bool bad = (k > 0 && !(a[k - 1] < a[k])) || (k + 1 < n && !(a[k] < a[k + 1]));
    vf_assert(awl::position_changed(l, std::less<int>(), i) == bad, "K08.position", "an element that is out of place is not found, or one that is in place is"); vf_cover("placed");
}
extern "C" void vfh_clamp()
{
    int lo = (int)vf_nondet("lo"), hi = (int)vf_nondet("hi"), x = (int)vf_nondet("x"), v = x; vf_assume(lo <= hi); awl::math::clamp(v, lo, hi);
    vf_assert(v == (x < lo ? lo : x > hi ? hi : x), "K08.clamp", "a value is limited to something else than its nearest limit"); vf_assert(awl::math::sign(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "K08.sign", "the sign of a number is another one"); vf_cover("limited");
}
extern "C" void vfh_ctl_lost() { awl::crypto::FixedHash<Recorder> h; char a[3] = {'a', 'b', 0}; recorded(h(std::string_view(a, 1)), a, 2); }
