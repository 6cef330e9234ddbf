// K09, part 2: tuples of reflected members, getters and tuple helpers on unknown values.
#include "vf.h"
#include <array>
#include <cstdint>
#include "Awl/Mp/TypeDescriptor.h"
#include "Awl/Getters.h"
using namespace awl;
static long any() { return (long)vf_nondet("a value"); }
struct P { int a; short b; char c; int d; AWL_TUPLIZABLE(d, a, c) };
struct M { int x, y; AWL_TUPLIZABLE(x, y) }; AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(M)
template <class T> static bool refers(T& p) { auto t = object_as_tuple(p); return std::tuple_size_v<decltype(t)> == 3 && &std::get<0>(t) == &p.d && &std::get<1>(t) == &p.a && &std::get<2>(t) == &p.c; }
extern "C" void vfh_members()
{
    P p{1, 2, 3, 4}; const P k{5, 6, 7, 8}; vf_assert(refers(p) && refers(k), "K09.members", "the tuple of a structure does not consist of references to its listed members in order"); auto c = object_as_const_tuple(p); vf_assert(&std::get<0>(c) == &p.d && &std::get<1>(c) == &p.a && &std::get<2>(c) == &p.c, "K09.members", "the tuple of a structure does not consist of references to its listed members in order");
    int v = (int)any(); std::get<0>(p.as_tuple()) = v; vf_assert(p.d == v && p.a == 1 && p.b == 2 && p.c == 3, "K09.members", "a member is not changed through its tuple, or another one is"); vf_cover("members");
}
extern "C" void vfh_compared()
{
    int i = vf_choice(8, "left"), j = vf_choice(8, "right"); P x{i >> 1 & 1, 9, (char)(i & 1), i >> 2}, y{j >> 1 & 1, 5, (char)(j & 1), j >> 2}; vf_assert(objects_equal(x, y) == (i == j) && objects_less(x, y) == (i < j) && objects_greater(x, y) == (i > j), "K09.compared", "objects do not compare as the tuples of their listed members");
    M l{i >> 2, i & 3}, r{j >> 2, j & 3}; vf_assert((l == r) == (i == j) && (l != r) == (i != j) && (l < r) == (i < j) && (l > r) == (i > j) && (l <= r) == (i <= j) && (l >= r) == (i >= j), "K09.compared", "a memberwise operator does not compare as the tuples of the listed members"); vf_cover("compared");
}
struct G { int v = 3; const char* s = "x"; int w = 0; int twice() const { return 2 * v; } const int& ref() const { return w; } AWL_TUPLIZABLE(s, v) };
extern "C" void vfh_getters()
{
    G g, h; h.v = (int)(any() & 1023); h.w = (int)any(); auto f = make_getter(&G::v); auto m = make_getter(&G::twice); getter<&G::v> s; tuplizable_getter<G, 1> t;
    vf_assert(f(g) == 3 && &f(h) == &h.v && m(g) == 6 && m(h) == 2 * h.v && s(h) == h.v && getter<&G::twice>()(h) == 2 * h.v && &getter<&G::ref>()(h) == &h.w && &t(h) == &h.v, "K09.getters", "a getter gives another part or another object"); vf_cover("getters");
}
struct Log { int n = 0; long a[8] = {}; void put(long v) { a[n++] = v; } bool is(int k, long x, long y, long z) { return n == k && a[0] == x && a[1] == y && a[2] == z; } };
extern "C" void vfh_each()
{
    int x = (int)(any() & 1023); long z = any() & 1023; Log l, m, k, o; std::tuple<int, char, long> t(x, 'c', z); const auto& c = t; for_each(c, [&](const auto& v) { m.put(v); }); for_each(t, [&](auto& v) { l.put(v); v = 7; }); vf_assert(l.is(3, x, 'c', z) && m.is(3, x, 'c', z) && t == std::make_tuple(7, (char)7, 7L), "K09.each", "an element of a tuple is not visited once, in order");
    for_each_index(t, [&](auto& v, auto i) { k.put(i * 10 + (long)v); }); for_each_index(c, [&](const auto& v, auto i) { o.put(i * 10 + (long)v); }); vf_assert(k.is(3, 7, 17, 27) && o.is(3, 7, 17, 27), "K09.each", "an element of a tuple is visited with another index");
    int a = 1; long b = 2; for_each(std::tie(a, b), [&](auto& v) { v += x; }); for_each_index(std::tie(a, b), [](auto& v, auto i) { v += (int)i; }); vf_assert(a == 1 + x && b == 3L + (long)x, "K09.each", "the object an element refers to is not the one that is visited"); vf_cover("each");
}
template <class T> struct Box { T v{}; Box() = default; Box(const T& t) : v(t) {} };
template <size_t I> struct At { long v = -1; At() = default; At(long t) : v(t * 10 + (long)I) {} };
extern "C" void vfh_transformed()
{
    int e = (int)(any() & 1023); std::tuple<int, char> t(e, 'c'); const auto& c = t; auto x = transform_tuple(t, [](auto& v) { long r = v * 2L; v = 1; return r; }); vf_assert(x == std::make_tuple(e * 2L, 'c' * 2L) && t == std::make_tuple(1, (char)1), "K09.transformed", "a tuple is not transformed element by element"); t = std::make_tuple(e, 'c');
    auto y = transform_tuple(c, [](auto v) { return v; }); vf_assert(y == t, "K09.transformed", "a tuple is not transformed element by element"); auto b = transform_t2t<Box>(t); auto a = transform_t2ti<At>(t); vf_assert(std::get<0>(b).v == e && std::get<1>(b).v == 'c' && std::get<0>(a).v == (long)e * 10 && std::get<1>(a).v == 'c' * 10 + 1, "K09.transformed", "a template is not made from its own element"); vf_cover("transformed");
}
struct Base { int b = 0; }; struct D1 : Base {}; struct Pad { long p = 0; }; struct D2 : Pad, Base {};
extern "C" void vfh_arrays()
{
    int e = (int)(any() & 1023); std::tuple<D1, D2> t; std::get<0>(t).b = 1; std::get<1>(t).b = e; const auto& c = t; auto a = tuple_cast<Base>(t); auto k = tuple_cast<const Base>(c);
    vf_assert(a.size() == 2 && a[0] == static_cast<Base*>(&std::get<0>(t)) && a[1] == static_cast<Base*>(&std::get<1>(t)) && k.size() == 2 && k[0] == a[0] && k[1] == a[1], "K09.arrays", "the array of a tuple has another address");
    auto v = tuple_to_array(c, [](const auto& d) { return d.b; }); auto n = tuple_to_array(t, [](auto& d) { int o = d.b; d.b = 9; return o; }); vf_assert(v.size() == 2 && v[0] == 1 && v[1] == e && n[0] == 1 && n[1] == e && std::get<0>(t).b == 9 && std::get<1>(t).b == 9, "K09.arrays", "the array of a tuple does not have every element at its own index"); vf_cover("arrays");
}
extern "C" void vfh_similar()
{
    int a = (int)any(); const int b = (int)any(); auto t = make_universal_tuple(a, b, 3); auto s = make_similar_tuple<std::tuple<int&, const int&, int>>(a, b, 3); auto w = make_similar_tuple<std::tuple<int, long>>(a, 5L);
    vf_assert(&std::get<0>(t) == &a && &std::get<1>(t) == &b && std::get<2>(t) == 3 && &std::get<0>(s) == &a && &std::get<1>(s) == &b && std::get<2>(s) == 3 && std::get<0>(w) == a && std::get<1>(w) == 5, "K09.similar", "a reference becomes one to another object, or a value another value"); vf_cover("similar");
}
extern "C" void vfh_strings()
{
    char x = (char)('a' + vf_choice(3, "character")); char m[] = {'a', x, 0}; fixed_string<char, 2> a(m); fixed_string<char, 3> b("cde"); auto c = a + b; auto e = fixed_string<char, 0>("") + a; auto w = fixed_string<wchar_t, 2>::from_ascii("xy");
    vf_assert(c.size() == 5 && c[0] == 'a' && c[1] == x && c[2] == 'c' && c[3] == 'd' && c[4] == 'e' && c.data()[5] == 0 && c.end() - c.begin() == 5 && e.size() == 2 && e[1] == x && w[0] == L'x' && w[1] == L'y' && w.data()[2] == 0, "K09.strings", "a fixed string does not have exactly its characters, joined in order");
    fixed_string<char, 2> k("ab"); vf_assert((a == k) == (x == 'b') && (a != k) == (x != 'b') && (k == a) == (x == 'b') && a != b && !(a == b) && b != a && !(b == a), "K09.strings", "fixed strings that differ are equal, or equal ones differ"); fixed_string<char, 2> h("bb"); vf_assert(!(a == h) && a != h, "K09.strings", "fixed strings that differ are equal, or equal ones differ"); k[1] = 'q'; vf_assert(k[0] == 'a' && k[1] == 'q', "K09.strings", "another character is changed"); vf_cover("strings");
}
extern "C" void vfh_addresses()
{
    int v = 1; int* p = &v; const int* q = &v; vf_assert(object_address(v) == &v && object_address(p) == &v && object_address(q) == &v, "K09.addresses", "the address of another object is taken"); std::unique_ptr<int> u(new int(5)); const auto& r = u; vf_assert(object_address(u) == u.get() && object_address(r) == u.get() && *object_address(u) == 5, "K09.addresses", "the address of another object is taken"); vf_cover("addresses");
}
extern "C" void vfh_ctl_members() { P p{1, 2, 3, 4}; vf_assert(&std::get<0>(p.as_tuple()) == &p.a, "K09.members", "control"); }
