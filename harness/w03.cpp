// W03: a read that fails anywhere leaves the object as it was.
#include "vtstypes.h"
#include "Awl/Io/PlainSerializable.h"
#include "Awl/Io/VersionTolerantSerializable.h"
#include <atomic>
namespace v1
{
    struct M { int a; std::string s; std::vector<int> v; std::optional<int> o; Leaf l; AWL_REFLECT(a, s, v, o, l) };
    struct U { std::atomic<int> a; std::string s; std::vector<int> v; std::optional<int> o; AWL_REFLECT(a, s, v, o) };
}
namespace v2
{
    struct M { int fresh = 8; std::optional<int> o; std::string s; std::vector<int> v; Leaf l; AWL_REFLECT(fresh, o, s, v, l) };
    struct BadM { std::string s; std::vector<int> v; std::optional<int> o; v1::Leaf l; std::string a; AWL_REFLECT(s, v, o, l, a) };
    struct U { std::optional<int> o; std::vector<int> v; std::atomic<int> fresh; std::string s; AWL_REFLECT(o, v, fresh, s) };
    struct BadU { std::atomic<int> fresh; std::string s; std::vector<int> v; std::string a; AWL_REFLECT(fresh, s, v, a) };
}
static int val(const std::atomic<int>& a) { return a.load(); }
template <class T> static const T& val(const T& a) { return a; }
// the members that both have
template <class A, class B> static bool same(const A& x, const B& y)
{
    if (!::eq(x.s, y.s) || !::eq(x.v, y.v)) return false;
    if constexpr (requires { x.o; y.o; }) if (!::eq(x.o, y.o)) return false;
    if constexpr (requires { x.a; y.a; }) if (!::eq(val(x.a), val(y.a))) return false;
    if constexpr (requires { x.fresh; y.fresh; }) if (val(x.fresh) != val(y.fresh)) return false;
    if constexpr (requires { x.l; y.l; }) { if (x.l.x != y.l.x) return false; if constexpr (requires { x.l.gone; y.l.gone; }) if (x.l.gone != y.l.gone) return false; if constexpr (requires { x.l.added; y.l.added; }) if (x.l.added != y.l.added) return false; }
    return true;
}
template <class T, class F> static void fill(T& t, F num, bool more)
{
    t.a = num(); t.s = more ? "second" : "fst"; t.v.push_back(num()); if (more) { t.v.push_back(num()); } else t.o = num(); if constexpr (requires { t.l; }) t.l = {num(), num()};
}
template <class T, class F> static void fillnew(T& t, F num) { t.s = "previous"; t.v.push_back(num()); t.v.push_back(num()); t.v.push_back(num()); if constexpr (requires { t.o; }) t.o = num(); if constexpr (requires { t.fresh; }) t.fresh = num(); if constexpr (requires { val(t.a) + 1; }) t.a = num(); else if constexpr (requires { t.a.size(); }) t.a = "prev"; if constexpr (requires { t.l; }) t.l = {num(), num()}; }
// copies what fillnew and fill have set
template <class T> static void assign(T& d, const T& s) { d.s = s.s; d.v = s.v; if constexpr (requires { d.o; }) d.o = s.o; if constexpr (requires { d.fresh; }) d.fresh = val(s.fresh); if constexpr (requires { d.a; }) d.a = val(s.a); if constexpr (requires { d.l; }) d.l = s.l; }
static int num() { return sym<int>(); }
static int from(int n, int last) { return n < last ? 0 : n - last; }
// the recorded stream is read with a failure at every read, of any exception type, or cut at every item
template <template <class, class, class, bool> class S, class O, class N, bool accepted> static void failing(int kind, bool more)
{
    O o; fill(o, num, more); Rec out; S<O, Play, Rec, true>(o).Write(out);
    { N t; S<N, Play, Rec, true> r(t); Play in; try { r.Read(in); } catch (const IoException&) { } }
    const int reads = vfg_reads, all = vfg_pos; vfg_reads = 0; vfg_pos = 0;
    N n; fillnew(n, num); N was; assign(was, n); S<N, Play, Rec, true> r(n); Play in; bool failed = false, must = true;
    if (kind < 3) { vfg_throwkind = kind; vfg_throwat = from(reads, 24) + vf_choice(std::min(reads, 24), "failing read"); }
    else if (kind == 3) vfg_lim = from(all, 100) + vf_choice(std::min(all, 100), "bytes left");
    else must = false;
    try { r.Read(in); } catch (...) { failed = true; }
    vf_assert(!failed || must || !accepted, "W03.accepted", "a stored value cannot be read although nothing failed");
    if (failed) { vf_cover("read failed"); vf_assert(same(n, was), "W03.unchanged", "the object has changed although reading it failed"); }
    else { vf_assert(!must && accepted, "W03.reported", "a failing read is not reported"); if constexpr (accepted) { vf_assert(same(n, o), "W03.complete", "the read value is not the stored one"); if constexpr (std::is_same_v<N, v2::M>) vf_assert(n.fresh == 8, "W03.complete", "a new member does not get its default value"); } vf_cover("read succeeded"); }
}
// without the guarantee: reading what was stored, into an object that held something else
template <template <class, class, class, bool> class S> static void direct()
{
    v1::M o, n; fill(o, num, symbool()); fillnew(n, num); Rec out; S<v1::M, Play, Rec, false>(o).Write(out); S<v1::M, Play, Rec, false> r(n); Play in; bool failed = false; try { r.Read(in); } catch (...) { failed = true; }
    vf_assert(!failed, "W03.accepted", "a stored value cannot be read although nothing failed"); if (!failed) vf_assert(same(n, o) && vfg_pos == vfg_n, "W03.complete", "the read value is not the stored one"); vf_cover("read directly");
}
template <class T, class I, class O, bool a> using Vt = VersionTolerantSerializable<T, I, O, a>;
template <class T, class I, class O, bool a> using Pl = PlainSerializable<T, I, O, a>;
#define K(n, k) extern "C" void vfh_plain##n() { failing<Pl, v1::M, v1::M, true>(k, symbool()); } extern "C" void vfh_same##n() { failing<Vt, v1::M, v1::M, true>(k, false); } extern "C" void vfh_same_unmovable##n() { failing<Vt, v1::U, v1::U, true>(k, true); } \
 extern "C" void vfh_version##n() { failing<Vt, v1::M, v2::M, true>(k, true); } extern "C" void vfh_version_unmovable##n() { failing<Vt, v1::U, v2::U, true>(k, false); } extern "C" void vfh_mismatch##n() { failing<Vt, v1::M, v2::BadM, false>(k, true); } extern "C" void vfh_mismatch_unmovable##n() { failing<Vt, v1::U, v2::BadU, false>(k, true); }
K(_io, 0) K(_memory, 1) K(_other, 2) K(_cut, 3) K(, 4)
extern "C" void vfh_direct_plain() { direct<Pl>(); } extern "C" void vfh_direct_versions() { direct<Vt>(); }
extern "C" void vfh_ctl_changed() { v1::P o{1, true, "x", 2}; Rec out; Pl<v1::P, Play, Rec, true>(o).Write(out); vfg_lim = 6; v1::P n{sym<int>(), false, "y", 3}; int was = n.a; Play in; try { awl::io::Read(in, n); } catch (...) { vf_assert(n.a == was, "W03.unchanged", "control"); } }
