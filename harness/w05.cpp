// W05: reading a value stored with another version of its type.
#include "vtstypes.h"
template <class N> static bool reading(const Reader<Vs<N>, Play>& r, Play& in, N& n)
{
    try { r.ReadV(in, n); return true; }
    catch (const IoException&) { return false; }
    catch (...) { vf_assert(false, "W05.io-error", "another version of a type is reported with something other than an I/O exception"); return false; }
}
template <class O, class N> static void version()
{
    const O o = gen<O>(); using W = Writer<awl::mp::variant_from_struct<O>, Rec>; W w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Reader<Vs<N>, Play> r; Play in; r.ReadOldPrototypes(in); N n{};
    vf_assert(reading(r, in, n), "W05.accepted", "a stored version that has only added, removed, reordered or renamed fields is refused");
    vf_assert(vfg_pos == vfg_n, "W05.consumed", "the reader does not end exactly at the end of the stored object"); vf_assert(matches(n, o), "W05.values", "a member does not get the stored value of the same name, or a new member loses its value");
    vf_cover("nested version read");
}
template <class O, class N> static void versions()
{
    const O o1 = gen<O>(), o2 = gen<O>(); using W = Writer<awl::mp::variant_from_struct<O>, Rec>; W w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o1); int mid = vfg_n; w.WriteV(out, o2);
    Reader<Vs<N>, Play> r; Play in; r.ReadOldPrototypes(in); N n1{}, n2{};
    vf_assert(reading(r, in, n1), "W05.accepted", "a stored version that has only added, removed, reordered or renamed fields is refused");
    vf_assert(vfg_pos == mid, "W05.consumed", "the reader does not end exactly at the end of the stored object"); vf_assert(matches(n1, o1), "W05.values", "a member does not get the stored value of the same name, or a new member loses its value");
    vf_assert(reading(r, in, n2), "W05.accepted", "a stored version that has only added, removed, reordered or renamed fields is refused");
    vf_assert(vfg_pos == vfg_n, "W05.consumed", "the reader does not end exactly at the end of the stored object"); vf_assert(matches(n2, o2), "W05.values", "a member does not get the stored value of the same name, or a new member loses its value");
    vf_cover("another version read");
}
#define X(name, o, n) extern "C" void vfh_##name() { versions<o, n>(); }
VTS_PAIRS(X)
#undef X
#define X(name, o, n) extern "C" void vfh_##name() { version<o, n>(); }
VTS_NESTED(X)
// a field whose type has changed is never read
template <class N, class F> static void mismatch(F same)
{
    const v1::P o = gen<v1::P>(); using W = Writer<awl::mp::variant_from_struct<v1::P>, Rec>; W w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o);
    Reader<Vs<N>, Play> r; Play in; r.ReadOldPrototypes(in); N n; int start = vfg_pos;
    for (int i = 0; i < 2; i++, vfg_pos = start) vf_assert(!reading(r, in, n), "W05.mismatch", "a stored field of another type than the member is accepted");
    vf_assert(same(n), "W05.mismatch", "a member is read from a field of another type"); vf_cover("type mismatch");
}
extern "C" void vfh_type_scalar() { mismatch<v2::TypeA>([](const v2::TypeA& n) { return ::eq(n.a, 1.5f); }); }
extern "C" void vfh_type_string() { mismatch<v2::TypeC>([](const v2::TypeC& n) { return n.c == 5; }); }
extern "C" void vfh_type_struct() { mismatch<v2::TypeS>([](const v2::TypeS& n) { return n.d.x == 1 && n.d.gone == 2; }); }
namespace v3 { struct S { v1::Leaf a; int b; AWL_REFLECT(a, b) }; struct T { int a = 6; int b; AWL_REFLECT(a, b) }; }
extern "C" void vfh_struct_scalar()
{
    v3::S s{leaf(), sym<int>()}; Writer<awl::mp::variant_from_struct<v3::S>, Rec> w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, s); Reader<Vs<v3::T>, Play> r; Play in; r.ReadOldPrototypes(in); v3::T t;
    vf_assert(!reading(r, in, t) && t.a == 6, "W05.mismatch", "a stored structure is read into a scalar member");
}
// a type of the stored object that the reader does not know
struct Unknown { int a; uint16_t w; AWL_REFLECT(a, w) }; struct Known { int a = 1; AWL_REFLECT(a) };
extern "C" void vfh_unknown_type()
{
    Unknown u{sym<int>(), sym<uint16_t>()}; Rec out; WriteV(out, u); Play in; Known k; bool refused = false; int a = k.a;
    try { ReadV<Known, Play>(in, k); } catch (const IoException&) { refused = true; }
    vf_assert(refused && k.a == a, "W05.mismatch", "a stored type that is not in the type table is accepted");
}
// removing fields can be forbidden
extern "C" void vfh_not_found()
{
    const v1::P o = gen<v1::P>(); using W = Writer<awl::mp::variant_from_struct<v1::P>, Rec>; W w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Reader<Vs<v2::NoMiddle>, Play> r; r.allowDelete = false; Play in; r.ReadOldPrototypes(in); v2::NoMiddle n;
    bool refused = false; try { r.ReadV(in, n); } catch (const FieldNotFoundException&) { refused = true; } catch (...) { } vf_assert(refused, "W05.not-found", "a stored field without a member is not reported although removing fields is forbidden");
    Reader<Vs<v2::Reorder>, Play> q; q.allowDelete = false; vfg_pos = 0; q.ReadOldPrototypes(in); v2::Reorder m; vf_assert(reading(q, in, m) && matches(m, o), "W05.not-found", "a read is refused although every stored field has a member");
}
// two types that are stored differently must not be mistaken for each other
template <class O, class N> static void apart(O o)
{
    Writer<awl::mp::variant_from_struct<O>, Rec> w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Reader<awl::mp::variant_from_structs<N>, Play> r; Play in; bool refused = false; N n{}; decltype(n.f) was = n.f;
    try { r.ReadOldPrototypes(in); r.ReadV(in, n); } catch (const IoException&) { refused = true; }
    vf_assert(refused && ::eq(n.f, was), "W05.representation", "a stored field is read into a member whose type is stored differently");
}
template <class T> struct F { T f{}; AWL_REFLECT(f) };
template <class A, class B> static void both(A a, B b) { if (vf_choice(2, "direction")) apart<F<A>, F<B>>({a}); else apart<F<B>, F<A>>({b}); }
extern "C" void vfh_apart()
{
    switch (vf_choice(8, "types"))
    {
    case 0: both<int, int64_t>(1, 2); break;
    case 1: both<float, int>(1, 2); break;
    case 2: both<std::string, std::u16string>("ab", u"cd"); break;
    case 3: both<std::vector<int>, std::array<int, 2>>({1, 2}, {3, 4}); break;
    case 4: both<std::optional<int>, std::shared_ptr<int>>(1, {}); break;
    case 5: both<Dec, uint64_t>({}, 3); break;
    case 6: both<std::vector<std::string>, std::string>({"a"}, "b"); break;
    default: both<std::array<int, 2>, std::array<int, 3>>({1, 2}, {1, 2, 3}); break;
    }
}
extern "C" void vfh_packed_vector() { both<std::vector<bool>, std::vector<uint8_t>>({true, true}, {1, 1}); }
extern "C" void vfh_packed_array() { both<std::array<bool, 3>, std::array<uint8_t, 3>>({true, true}, {1, 1}); }
// types with equal names are stored equally
template <class A, class B, class E> static void alike(A a, E e)
{
    F<A> o{a}; Writer<awl::mp::variant_from_struct<F<A>>, Rec> w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Reader<awl::mp::variant_from_structs<F<B>>, Play> r; Play in; F<B> n{}; r.ReadOldPrototypes(in);
    try { r.ReadV(in, n); } catch (...) { vf_assert(false, "W05.alike", "a type with the same name is refused"); return; }
    vf_assert(vfg_pos == vfg_n && e(n.f), "W05.alike", "two types with equal names are stored differently");
}
extern "C" void vfh_alike()
{
    int x = sym<int>();
    switch (vf_choice(8, "types"))
    {
    case 0: alike<int, uint32_t>(x, [&](uint32_t v) { return v == (uint32_t)x; }); break;
    case 1: alike<std::vector<int>, std::set<int>>({5, 7}, [](const std::set<int>& v) { return v.size() == 2 && v.find(5) != v.end() && v.find(7) != v.end(); }); break;
    case 2: alike<std::string, std::vector<char>>("ab", [](const std::vector<char>& v) { return v.size() == 2 && v[0] == 'a' && v[1] == 'b'; }); break;
    case 3: alike<std::vector<int>, std::deque<int>>({x, 7}, [&](const std::deque<int>& v) { return v.size() == 2 && v[0] == x; }); break;
    case 4: alike<std::map<int, int>, std::unordered_map<int, int>>({{3, x}}, [&](const std::unordered_map<int, int>& v) { auto i = v.find(3); return v.size() == 1 && i != v.end() && i->second == x; }); break;
    case 5: alike<Time, int64_t>(Time(std::chrono::nanoseconds(x)), [&](int64_t v) { return v == x; }); break;
    case 6: alike<Level, uint8_t>(Level::mid, [](uint8_t v) { return v == 1; }); break;
    default: alike<std::set<std::string>, std::vector<std::string>>({"q"}, [](const std::vector<std::string>& v) { return v.size() == 1 && v[0] == "q"; }); break;
    }
}
// controls
extern "C" void vfh_ctl_values() { const v1::P o = gen<v1::P>(); Rec out; WriteV(out, o); Play in; v1::P n; ReadV<v1::P, Play>(in, n); n.a++; vf_assert(matches(n, o), "W05.values", "control"); }
extern "C" void vfh_ctl_accepted() { v1::P o{1, true, "x", 2}; Writer<awl::mp::variant_from_struct<v1::P>, Rec> w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Reader<Vs<v2::TypeA>, Play> r; Play in; r.ReadOldPrototypes(in); v2::TypeA n; vf_assert(reading(r, in, n), "W05.accepted", "control"); }
// one stored structure read as two different ones: either both get their fields or the read is refused
namespace v3 { struct Two { v1::Leaf l, m; AWL_REFLECT(l, m) }; struct Turned { int gone = 1; int more = 2; int x; AWL_REFLECT(gone, more, x) }; struct Both { v1::Leaf l; Turned m; AWL_REFLECT(l, m) }; struct Both2 { Turned l; v1::Leaf m; AWL_REFLECT(l, m) }; }
template <class N> static void split()
{
    v3::Two o{leaf(), leaf()}; Writer<awl::mp::variant_from_struct<v3::Two>, Rec> w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Reader<Vs<N>, Play> r; Play in; r.ReadOldPrototypes(in); N n;
    if (!reading(r, in, n)) { vf_cover("split refused"); return; }
    auto same = [](const v1::Leaf& a, const v1::Leaf& b) { return a.x == b.x && a.gone == b.gone; }; auto turned = [](const v3::Turned& a, const v1::Leaf& b) { return a.x == b.x && a.gone == b.gone && a.more == 2; };
    if constexpr (std::is_same_v<N, v3::Both>) vf_assert(same(n.l, o.l) && turned(n.m, o.m), "W05.values", "a member does not get the stored value of the same name"); else vf_assert(turned(n.l, o.l) && same(n.m, o.m), "W05.values", "a member does not get the stored value of the same name");
    vf_assert(vfg_pos == vfg_n, "W05.consumed", "the reader does not end exactly at the end of the stored object");
}
extern "C" void vfh_split() { split<v3::Both>(); }
extern "C" void vfh_split2() { split<v3::Both2>(); }
// the same with as many fields in another order
namespace v4 { struct Flipped { int gone = 1; int x; AWL_REFLECT(gone, x) }; struct Other { int x; int more = 2; AWL_REFLECT(x, more) }; template <class A, class B> struct Pair { A l; B m; AWL_REFLECT(l, m) }; }
inline bool kept(const v1::Leaf& n, const v1::Leaf& o) { return n.x == o.x && n.gone == o.gone; }
inline bool kept(const v4::Flipped& n, const v1::Leaf& o) { return n.x == o.x && n.gone == o.gone; }
inline bool kept(const v4::Other& n, const v1::Leaf& o) { return n.x == o.x && n.more == 2; }
template <class A, class B> static void split_pair()
{
    v3::Two o{leaf(), leaf()}; Writer<awl::mp::variant_from_struct<v3::Two>, Rec> w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Reader<Vs<v4::Pair<A, B>>, Play> r; Play in; r.ReadOldPrototypes(in); v4::Pair<A, B> n;
    if (!reading(r, in, n)) { vf_cover("split refused"); return; }
    vf_assert(kept(n.l, o.l) && kept(n.m, o.m), "W05.values", "a member does not get the stored value of the same name"); vf_assert(vfg_pos == vfg_n, "W05.consumed", "the reader does not end exactly at the end of the stored object");
}
extern "C" void vfh_split_order() { switch (vf_choice(4, "structures")) { case 0: split_pair<v1::Leaf, v4::Flipped>(); break; case 1: split_pair<v4::Flipped, v1::Leaf>(); break; case 2: split_pair<v4::Flipped, v4::Other>(); break; default: split_pair<v4::Other, v1::Leaf>(); } }
// one reader for several stored versions, one after the other
template <class O, class N> static void stored(Reader<Vs<N>, Play>& r, N& n, const O& o)
{
    vfg_n = vfg_pos = 0; using W = Writer<awl::mp::variant_from_struct<O>, Rec>; W w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Play in; r.ReadOldPrototypes(in);
    vf_assert(reading(r, in, n), "W05.accepted", "a stored version that has only added, removed, reordered or renamed fields is refused"); vf_assert(vfg_pos == vfg_n, "W05.consumed", "the reader does not end exactly at the end of the stored object");
}
namespace v5 { struct P { bool b; double d; int a; AWL_REFLECT(b, d, a) }; }
inline bool matches(const v2::Add& n, const v5::P& o) { return EQ1(a) && EQ1(b) && EQ1(d) && n.z0 == 11 && n.z1 == "z" && n.z2 == 13 && n.c == "own"; }
extern "C" void vfh_cleared()
{
    Reader<Vs<v2::Add>, Play> r; const v1::P o1 = gen<v1::P>(); const v5::P o2{symbool(), sym<double>(), sym<int>()}; bool turn = vf_choice(2, "the other one first");
    for (int i = 0; i < 2; i++) { v2::Add n; n.c = "own"; if ((i == 1) != turn) { stored(r, n, o2); vf_assert(matches(n, o2), "W05.cleared", "an object is read as the version that was read before"); } else { stored(r, n, o1); vf_assert(matches(n, o1), "W05.cleared", "an object is read as the version that was read before"); } r.ClearPrototypes(); }
    vf_cover("cleared");
}
// stored without its types: the reader is told that they are its own
extern "C" void vfh_initialized()
{
    const v1::P o = gen<v1::P>(); Reader<Vs<v1::P>, Play> r; r.Initialize(); { Writer<Vs<v1::P>, Rec> w; Rec out; w.WriteV(out, o); } Play in; v1::P n; vf_assert(reading(r, in, n), "W05.initialized", "an object stored by the same version without its types is refused");
    vf_assert(vfg_pos == vfg_n && matches(n, o), "W05.initialized", "an object stored by the same version without its types is read wrongly"); vf_cover("initialized");
}
// types that have got another name
extern "C" void vfh_type_map()
{
    using A = F<float>; using B = F<int>; A o{sym<float>()}; Writer<awl::mp::variant_from_struct<A>, Rec> w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, o); Reader<awl::mp::variant_from_structs<B, bool>, Play> r; Play in; B n{5}; bool mapped = vf_choice(2, "mapped"), refused = false;
    auto name = [](auto t) { return std::string(awl::mp::make_type_name<decltype(t)>().c_str()); };
    try { if (mapped) r.ReadOldPrototypes(in, {{name(1.0f), name(1)}, {name(true), name(1.0f)}}); else r.ReadOldPrototypes(in, {{name(1.0), name(1)}}); r.ReadV(in, n); } catch (const IoException&) { refused = true; }
    float f; __builtin_memcpy(&f, &n.f, sizeof f); vf_assert(refused == !mapped, "W05.type-map", "a renamed type is refused, or another one is renamed"); vf_assert(refused ? n.f == 5 : ::eq(f, o.f) && vfg_pos == vfg_n, "W05.type-map", "a field of a renamed type is read wrongly"); vf_cover("type map");
}
