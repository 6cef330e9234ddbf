// W02: any single item of the stream is replaced with any kind of other content; the reader stays inside its objects and reports.
#include "rwtypes.h"
#include "Awl/Io/Vts.h"
VFG(int, asserted, 0) VFG(int, corrupt, -1) VFG(int, corrupt2, -1)
extern "C" void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { vf_assert(false, "W02.no-assertion", "stream content reaches a debug assertion"); vf_assume(false); __builtin_unreachable(); }
template <class I> static I other(int n)
{
    I v; if (int k = vf_choice(n + 1, "stored number")) return (I)(k - 1);
    vf_symbolic(&v, sizeof v, "stored number"); vf_assume(v >= (I)n); return v;
}
static const uint64_t sizes[] = {0, 1, 2, 3, 5, 1ull << 61, (1ull << 62) + 1, (1ull << 63) + 1, ~0ull, ~0ull - 7};
enum { NOTHING, SIZES, SELECTORS };
VFG(int, words, SIZES) VFG(int, bound, 3)
struct Wild : Play
{
    size_t Read(uint8_t* p, size_t n)
    {
        bool hit = vfg_reads == vfg_corrupt || vfg_reads == vfg_corrupt2; size_t k = Play::Read(p, n); if (!hit || k < n) return k;
        if (n == 8 && vfg_words == SIZES) { uint64_t v = sizes[vf_choice(10, "stored size")]; std::memcpy(p, &v, 8); }
        else if (n == 8 && vfg_words == SELECTORS) { uint64_t v = other<uint64_t>(vfg_bound); std::memcpy(p, &v, 8); }
        else if (n == 2) { uint16_t v = other<uint16_t>(vfg_bound); std::memcpy(p, &v, 2); }
        else if (n == 1) { uint8_t v = other<uint8_t>(vfg_bound); std::memcpy(p, &v, 1); }
        else for (size_t i = 0; i < n; i++) p[i] = 'Z';
        vf_cover("item replaced"); return k;
    }
};
template <class T> struct Rule { static constexpr int words = SIZES; static bool valid(const T&) { return true; } };
template <> struct Rule<Var> { static constexpr int words = SELECTORS; static bool valid(const Var& v) { return v.index() < 3; } };
template <> struct Rule<Level> { static constexpr int words = SELECTORS; static bool valid(Level v) { return (unsigned)v < 3; } };
template <class F> static void guarded(F f)
{
    try { f(); vf_cover("accepted"); }
    catch (const IoException&) { vf_cover("reported"); }
    catch (const std::bad_alloc&) { vf_cover("too large"); }
    catch (const std::length_error&) { vf_cover("too large"); }
    catch (...) { vf_assert(false, "W02.io-error", "stream content makes the reader fail with something other than an I/O exception"); }
    vf_assert(vfg_pos <= vfg_n, "W02.bounded", "more bytes are consumed than the stream has");
}
static void pick() { int n = vfg_reads; vfg_reads = 0; vfg_pos = 0; if (n == 0) vf_assume(false); vfg_corrupt = vf_choice(n, "replaced item"); }
template <class T> static void any()
{
    const T w = gen<T>(); Rec out; Write(out, w); { Play in; T r = Blank<T>::make(); Read(in, r); }
    pick(); vfg_words = Rule<T>::words; T r = Blank<T>::make(); Wild in;
    guarded([&] { Read(in, r); vf_assert(Rule<T>::valid(r), "W02.valid", "an invalid selector in the stream is accepted"); });
}
#define X(n, ...) extern "C" void vfh_##n() { any<__VA_ARGS__>(); }
RW_TYPES(X)
// a length limit holds for every length
template <class S> static void limited()
{
    Rec out; uint64_t len = sizes[vf_choice(10, "stored length")]; Write(out, len); for (int i = 0; i < 64; i++) Write(out, (uint8_t)'a');
    Play in; S r; bool refused = false; const uint64_t most = 8 / sizeof(typename S::value_type);
    try { Read(in, r, LimitedContext(8)); } catch (const IoException&) { refused = true; } catch (...) { vf_assert(false, "W02.limit", "a length above the limit is not reported as an I/O error"); }
    vf_assert(refused == (len > most), "W02.limit", "the length limit is not applied exactly"); vf_assert(!refused || vfg_pos == 8, "W02.limit", "a text above the limit is read before it is refused");
}
extern "C" void vfh_limit() { limited<std::string>(); }
extern "C" void vfh_limit16() { limited<std::u16string>(); }
extern "C" void vfh_limitw() { limited<std::wstring>(); }
// the metadata of a version tolerant stream and the objects behind it
namespace v2 { struct Leaf { int x; int gone; AWL_REFLECT(x, gone) }; }
namespace v1 { struct A { int i; std::string s; v2::Leaf f; std::vector<v2::Leaf> v; AWL_REFLECT(i, s, f, v) }; }
namespace v2 { struct B { v2::Leaf f; int i; int k; AWL_REFLECT(f, i, k) }; }
template <class N> static void metadata(int part, int parts)
{
    v1::A a{1, "s", {2, 3}, {{4, 5}}}; Writer<awl::mp::variant_from_struct<v1::A>, Rec> w; Rec out; w.WriteNewPrototypes(out); w.WriteV(out, a); using R = Reader<awl::mp::variant_from_structs<N, v1::A>, Wild>;
    { R r; Wild in; r.ReadOldPrototypes(in); N n{}; r.ReadV(in, n); }
    int n = vfg_reads; vfg_reads = 0; vfg_pos = 0; int from = n * part / parts, to = n * (part + 1) / parts; vf_assert(to > from, "W02.parts", "nothing to replace"); vfg_corrupt = from + vf_choice(to - from, "replaced item"); vfg_words = SIZES;
    R r; Wild in; guarded([&] { r.ReadOldPrototypes(in); N n{}; r.ReadV(in, n); });
}
#define M(k) extern "C" void vfh_meta##k() { metadata<v1::A>(k, 4); } extern "C" void vfh_metadiff##k() { metadata<v2::B>(k, 4); }
M(0) M(1) M(2) M(3)
extern "C" void vfh_ctl_trusted() { uint8_t table[4] = {}; Rec out; Write(out, (size_t)3); Wild in; vfg_corrupt = 0; vfg_words = SELECTORS; size_t i; Read(in, i); vf_assert(table[i] == 0, "W02.bounded", "control"); }
extern "C" void vfh_ctl_valid() { std::vector<int> v; v.push_back(1); any<std::vector<int>>(); vf_assert(vfg_pos == vfg_n, "W02.valid", "control"); }
