// K03: enumeration tables, unknown values and any of a set of names.
#include "vf.h"
#include <iterator>
#include "rwstream.h"
#include "Awl/EnumTraits.h"
#include "Awl/Reflection.h"
#include "Awl/Io/Rw/EnumReadWrite.h"
extern "C" int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
namespace ns { AWL_SEQUENTIAL_ENUM(Shade, Dark, DarkRed, red, x) AWL_SEQUENTIAL_ENUM(One, Single) AWL_SEQUENTIAL_ENUM(Tight, Up,Down /* not up */ , Left) enum class Free : int { First = -5, Second = 300 }; }
AWL_ENUM_TRAITS(ns, Shade)
AWL_ENUM_TRAITS(ns, One)
AWL_ENUM_TRAITS(ns, Tight)
using ns::Shade; using ns::One; using ns::Tight; using ns::Free;
static const char* const shades[] = {"Dark", "DarkRed", "red", "x"};
static const char* const tights[] = {"Up", "Down", "Left"};
static const char* const ones[] = {"Single"};
template <class T> struct Info; template <> struct Info<Shade> { static constexpr int n = 4; static const char* name(int i) { return shades[i]; } }; template <> struct Info<One> { static constexpr int n = 1; static const char* name(int i) { return ones[i]; } };
template <> struct Info<Tight> { static constexpr int n = 3; static const char* name(int i) { return tights[i]; } };
template <class T, class F> static void guarded(uint8_t v, F f)
{
    bool raised = false;
    try { f(); }
    catch (const std::exception&) { raised = true; }
    catch (const awl::Exception&) { raised = true; }
    vf_assert(raised == (v >= Info<T>::n), "K03.validated", "a value outside the enumeration is accepted or a value inside it is refused"); vf_cover(raised ? "refused" : "accepted");
}
template <class T> static void value()
{
    using Tr = awl::EnumTraits<T>; constexpr int N = Info<T>::n;
    vf_assert(Tr::count() == N && Tr::names().size() == N, "K03.table", "the table of names and the enumeration have different sizes");
    uint8_t v;
    if (int k = vf_choice(N + 1, "value inside or outside")) v = (uint8_t)(k - 1);
    else { vf_symbolic(&v, 1, "value"); vf_assume(v >= N); }
    T e = static_cast<T>(v), r{}; uint8_t i = 0; vf_symbolic(&r, 1, "previous"); vf_symbolic(&i, 1, "previous");
    switch (vf_choice(7, "operation"))
    {
    case 0: { const char* p = nullptr; guarded<T>(v, [&] { p = awl::enum_to_string(e).c_str(); }); if (v < N) vf_assert(std::strcmp(p, Info<T>::name(v)) == 0, "K03.name", "an enumerator is converted to the name of another one"); } break;
    case 1: guarded<T>(v, [&] { i = awl::enum_to_index(e); }); if (v < N) vf_assert(i == v, "K03.index", "an enumerator is converted to the index of another one"); break;
    case 2: guarded<T>(v, [&] { r = awl::enum_from_index<T>(v); }); if (v < N) vf_assert(r == e, "K03.index", "an index is converted to another enumerator"); break;
    case 3: guarded<T>(v, [&] { awl::validate_enum(e); }); break;
    case 4: guarded<T>(v, [&] { awl::validate_enum_index<T>(v); }); break;
    case 5: guarded<T>(v, [&] { Rec s; awl::io::Write(s, e); }); break;
    default: { Rec o; awl::io::Write(o, v); Play s; guarded<T>(v, [&] { awl::io::Read(s, r); }); if (v < N) vf_assert(r == e, "K03.index", "a value is read as another enumerator"); } break;
    }
}
extern "C" void vfh_value() { value<Shade>(); }
extern "C" void vfh_value_tight() { value<Tight>(); }
extern "C" void vfh_value_one() { value<One>(); }
template <class T> static void named(const char* s, int exact, int folded)
{
    bool i = vf_choice(2, "ignoring the case"); int want = i ? folded : exact, got = -1;
    try { const std::string n(s); got = (int)(i ? awl::enum_from_string_i<T>(n) : awl::enum_from_string<T>(n)); }
    catch (const std::exception&) {}
    catch (const awl::Exception&) {}
    vf_assert(want == -1 || got != -1, "K03.known-name", "the name of an enumerator is refused");
    vf_assert(want != -1 || got == -1, "K03.unknown-name", "a name that is not in the table is converted to an enumerator");
    vf_assert(got == want, "K03.name", "a name is converted to another enumerator"); vf_cover("named");
}
extern "C" void vfh_name()
{
    struct N { const char* s; int exact, folded; };
    static const N names[] = {{"Dark", 0, 0}, {"DarkRed", 1, 1}, {"red", 2, 2}, {"x", 3, 3}, {"dark", -1, 0}, {"DARKrED", -1, 1}, {"Red", -1, 2}, {"X", -1, 3}, {"", -1, -1}, {"DarkRe", -1, -1}, {"DarkRedx", -1, -1}, {"Dar", -1, -1}, {"Dark ", -1, -1}, {" x", -1, -1}, {"y", -1, -1}, {"re", -1, -1}, {"rad", -1, -1}};
    const N& n = names[vf_choice(17, "name")]; named<Shade>(n.s, n.exact, n.folded);
}
extern "C" void vfh_name_one() { switch (vf_choice(4, "name")) { case 0: named<One>("Single", 0, 0); break; case 1: named<One>("sINGLE", -1, 0); break; case 2: named<One>("Singl", -1, -1); break; default: named<One>("", -1, -1); } }
// names of reflected members
struct Empty : awl::EmptyStringizable {};
struct R1 { int a; AWL_REFLECT(a) };
struct R2 { int a; int bb; int cc; AWL_REFLECT(a,bb /* separated without spaces */ ,cc) };
struct R3 { int first; int b; int third_one; AWL_REFLECT(first, b, third_one) };
static void list(const awl::helpers::MemberList& ml, const char* const* names, size_t n)
{
    auto& m = const_cast<awl::helpers::MemberList&>(ml); // find_index is not const
    vf_assert(ml.size() == n, "K03.members", "the number of reflected names is not the number of members");
    size_t k = 0; for (auto& s : ml) { if (k < n) vf_assert(std::strcmp(s.c_str(), names[k]) == 0, "K03.members", "a reflected name is not the name of the member at its position"); k++; }
    vf_assert(k == n, "K03.members", "the iteration over the reflected names is not complete");
    for (size_t i = 0; i < n; i++)
    {
        vf_assert(m.find_index(names[i]) == i && ml.find(names[i]) - ml.begin() == (long)i && ml.find_cstr(names[i]) - ml.begin() == (long)i, "K03.found", "a member name is not found at its position");
        vf_assert(std::strcmp(ml[i].c_str(), names[i]) == 0, "K03.members", "a reflected name is not the name of the member at its position");
    }
    const char* const bad[] = {"", "fir", "firstb", "c", ","};
    for (const char* b : bad) vf_assert(m.find_index(b) == awl::helpers::MemberList::NotAnIndex && ml.find(b) == ml.end() && ml.find_cstr(b) == ml.end(), "K03.absent", "an unknown member name is not reported as absent");
    vf_cover("members");
}
extern "C" void vfh_members()
{
    static const char* const n1[] = {"a"}; static const char* const n2[] = {"a", "bb", "cc"}; static const char* const n3[] = {"first", "b", "third_one"};
    switch (vf_choice(7, "type"))
    {
    case 0: list(Empty::get_member_names(), n1, 0); break;
    case 1: list(R1::get_member_names(), n1, 1); break;
    case 2: list(R3::get_member_names(), n3, 3); break;
    case 3: list(R2::get_member_names(), n2, 3); break;
    case 4: list(awl::EnumTraits<Tight>::names(), tights, 3); break;
    case 5: list(awl::EnumTraits<One>::names(), ones, 1); break;
    default: list(awl::EnumTraits<Shade>::names(), shades, 4); break;
    }
}
// an enumeration without a table keeps every value
extern "C" void vfh_free()
{
    Free e; vf_symbolic(&e, sizeof e, "value"); Free r = Free::First; Rec o; awl::io::Write(o, e); Play s; awl::io::Read(s, r); vf_assert(r == e, "K03.index", "a value is read as another enumerator");
}
// control: the table is accessed before the value is validated
extern "C" void vfh_ctl_unchecked() { uint8_t v; vf_symbolic(&v, 1, "value"); vf_assert(awl::EnumTraits<Shade>::names()[v].size() < 100, "K03.table", ""); }
