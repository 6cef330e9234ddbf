// Pairs of versions of a structure: what was stored (v1) and what is read (v2).
#pragma once
#include "rwtypes.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/FieldMap.h"
template <class T> struct Same { static bool eq(const T& a, const T& b) { return ::eq(a, b); } };
#define EQ1(m) ::eq(n.m, o.m)
namespace v1
{
    struct P { int a; bool b; std::string c; double d; AWL_REFLECT(a, b, c, d) };
    struct Leaf { int x; int gone; AWL_REFLECT(x, gone) };
    struct Empty : awl::EmptyStringizable {};
    struct Top { Leaf l; std::vector<Leaf> v; std::optional<Leaf> o; std::map<int, Leaf> m; Leaf dropped; std::vector<Leaf> dv; std::variant<int, Leaf> var; int last; AWL_REFLECT(l, v, o, m, dropped, dv, var, last) };
    struct Hold { Empty e; int i; Leaf f; int j; AWL_REFLECT(e, i, f, j) };
    struct Other { std::string x; int y; AWL_REFLECT(x, y) };
    struct Coll { std::vector<Leaf> keep; std::vector<Other> gone; Other o; std::map<int, Other> gone2; std::optional<Other> gone3; AWL_REFLECT(keep, gone, o, gone2, gone3) };
    struct Mix { std::shared_ptr<int> t; std::array<int, 2> r; std::optional<int> u; std::string s; AWL_REFLECT(t, r, u, s) };
}
namespace v2
{
    struct Reorder { double d; std::string c; bool b; int a; AWL_REFLECT(d, c, b, a) };
    struct Add { int z0 = 11; int a; bool b; std::string z1 = "z"; std::string c; double d; int z2 = 13; AWL_REFLECT(z0, a, b, z1, c, d, z2) };
    struct Append { int a; bool b; std::string c; double d; int z = 12; AWL_REFLECT(a, b, c, d, z) };
    struct NoFirst { bool b; std::string c; double d; AWL_REFLECT(b, c, d) };
    struct NoMiddle { int a; double d; AWL_REFLECT(a, d) };
    struct NoLast { int a; bool b; std::string c; AWL_REFLECT(a, b, c) };
    struct Mixed { double d; std::string n = "n"; int a; AWL_REFLECT(d, n, a) };
    struct Renamed { std::string c2; int a; bool b; double d; AWL_REFLECT(c2, a, b, d) };
    struct TypeA { float a = 1.5f; bool b; std::string c; double d; AWL_REFLECT(a, b, c, d) };
    struct TypeC { int a = 4; bool b; int c = 5; double d; AWL_REFLECT(a, b, c, d) };
    struct TypeS { int a = 4; v1::Leaf d{1, 2}; AWL_REFLECT(a, d) };
    struct Leaf { int added = 9; int x; AWL_REFLECT(added, x) };
    struct Empty { int e0 = 3; std::string e1 = "e"; AWL_REFLECT(e0, e1) };
    struct Top { int last; std::vector<Leaf> v; Leaf l; std::variant<int, Leaf> var; std::optional<Leaf> o; std::map<int, Leaf> m; std::string fresh = "f"; AWL_REFLECT(last, v, l, var, o, m, fresh) };
    struct Hold { Empty e; int i; Leaf f; int j; AWL_REFLECT(e, i, f, j) };
    using v1::Other;
    struct Coll { std::vector<Leaf> keep; Other o; AWL_REFLECT(keep, o) };
    struct Mix { std::string s; std::optional<int> u; std::array<int, 2> r; AWL_REFLECT(s, u, r) };
}
template <> class awl::io::FieldMap<v2::Renamed> { public: static std::string_view GetNewName(std::string_view old) { return old == "c" ? "c2" : old; } };
inline v1::Leaf leaf() { return {sym<int>(), sym<int>()}; }
inline v1::Other other() { return {"oo", sym<int>()}; }
template <> struct Gen<v1::P> { static v1::P make() { return {sym<int>(), symbool(), "text", sym<double>()}; } };
template <> struct Gen<v1::Leaf> { static v1::Leaf make() { return leaf(); } };
template <> struct Gen<v1::Top> { static v1::Top make() { v1::Top t; t.l = leaf(); for (int k = shape(3); k > 0; k--) t.v.push_back(leaf()); if (symbool()) { t.o = leaf(); t.m[4] = leaf(); t.dv.push_back(leaf()); t.var = sym<int>(); } else t.var = leaf(); t.dropped = leaf(); t.last = sym<int>(); return t; } };
template <> struct Gen<v1::Hold> { static v1::Hold make() { return {{}, sym<int>(), leaf(), sym<int>()}; } };
template <> struct Gen<v1::Coll> { static v1::Coll make() { v1::Coll c; if (symbool()) c.keep.push_back(leaf()); for (int k = shape(3); k > 0; k--) c.gone.push_back(other()); c.o = other(); if (symbool()) { c.gone2[1] = other(); c.gone3 = other(); } return c; } };
template <> struct Gen<v1::Mix> { static v1::Mix make() { return {gen<std::shared_ptr<int>>(), {sym<int>(), sym<int>()}, gen<std::optional<int>>(), "mix"}; } };
// what the current version must contain after reading what was stored
inline bool matches(const v1::P& n, const v1::P& o) { return EQ1(a) && EQ1(b) && EQ1(c) && EQ1(d); }
inline bool matches(const v2::Reorder& n, const v1::P& o) { return EQ1(a) && EQ1(b) && EQ1(c) && EQ1(d); }
inline bool matches(const v2::Add& n, const v1::P& o) { return EQ1(a) && EQ1(b) && EQ1(c) && EQ1(d) && n.z0 == 11 && n.z1 == "z" && n.z2 == 13; }
inline bool matches(const v2::Append& n, const v1::P& o) { return EQ1(a) && EQ1(b) && EQ1(c) && EQ1(d) && n.z == 12; }
inline bool matches(const v2::NoFirst& n, const v1::P& o) { return EQ1(b) && EQ1(c) && EQ1(d); }
inline bool matches(const v2::NoMiddle& n, const v1::P& o) { return EQ1(a) && EQ1(d); }
inline bool matches(const v2::NoLast& n, const v1::P& o) { return EQ1(a) && EQ1(b) && EQ1(c); }
inline bool matches(const v2::Mixed& n, const v1::P& o) { return EQ1(a) && EQ1(d) && n.n == "n"; }
inline bool matches(const v2::Renamed& n, const v1::P& o) { return EQ1(a) && EQ1(b) && ::eq(n.c2, o.c) && EQ1(d); }
inline bool matches(const v2::Leaf& n, const v1::Leaf& o) { return EQ1(x) && n.added == 9; }
inline bool matches(const v1::Leaf& n, const v1::Leaf& o) { return EQ1(x) && EQ1(gone); }
inline bool matches(const v2::Top& n, const v1::Top& o)
{
    if (!matches(n.l, o.l) || n.v.size() != o.v.size() || n.o.has_value() != o.o.has_value() || n.m.size() != o.m.size() || n.var.index() != o.var.index() || n.last != o.last || n.fresh != "f") return false;
    for (size_t i = 0; i < o.v.size(); i++) if (!matches(n.v[i], o.v[i])) return false;
    if (o.o && !matches(*n.o, *o.o)) return false;
    if (o.m.size() == 1 && (n.m.find(4) == n.m.end() || !matches(n.m.find(4)->second, o.m.find(4)->second))) return false;
    return o.var.index() == 0 ? std::get<0>(n.var) == std::get<0>(o.var) : matches(std::get<1>(n.var), std::get<1>(o.var));
}
inline bool matches(const v2::Hold& n, const v1::Hold& o) { return n.e.e0 == 3 && n.e.e1 == "e" && matches(n.f, o.f) && EQ1(i) && EQ1(j); }
inline bool matches(const v2::Other& n, const v1::Other& o, int) { return EQ1(x) && EQ1(y); }
inline bool matches(const v2::Coll& n, const v1::Coll& o) { if (n.keep.size() != o.keep.size()) return false; for (size_t i = 0; i < o.keep.size(); i++) if (!matches(n.keep[i], o.keep[i])) return false; return matches(n.o, o.o, 0); }
inline bool matches(const v2::Mix& n, const v1::Mix& o) { return EQ1(s) && EQ1(u) && n.r == o.r; }
// the types that may have to be skipped
template <class N> using Vs = awl::mp::variant_from_structs<N, int, bool, std::string, double, v1::Leaf, std::vector<v1::Leaf>, std::map<int, v1::Leaf>, std::optional<v1::Leaf>, std::shared_ptr<int>>;
#define VTS_PAIRS(X) X(same, v1::P, v1::P) X(reorder, v1::P, v2::Reorder) X(add, v1::P, v2::Add) X(append, v1::P, v2::Append) X(nofirst, v1::P, v2::NoFirst) X(nomiddle, v1::P, v2::NoMiddle) X(nolast, v1::P, v2::NoLast) \
 X(mixed, v1::P, v2::Mixed) X(renamed, v1::P, v2::Renamed) X(hold, v1::Hold, v2::Hold)
#define VTS_NESTED(X) X(top, v1::Top, v2::Top) X(coll, v1::Coll, v2::Coll) X(mix, v1::Mix, v2::Mix)
