// K07: 128-bit integers are printed with their exact digits; integers as arrays of bytes.
#include "vf.h"
#include <array>
#include <cstdint>
#include <ios>
#include <iosfwd>
#include <stdexcept>
#include <string>
// ---- a stream that records what is printed ----
using C = char16_t;
enum { ROOM = 128 };
extern "C" { C vfg_out[ROOM] = {}; } VFG(int, len, 0)
static void emit(C c) { vf_assert(vfg_len < ROOM, "K07.print", "too many characters are printed"); vfg_out[vfg_len++] = c; }
namespace std
{
    template <> class basic_ostream<C, char_traits<C>>
    {
    public:
        using char_type = C; using traits_type = char_traits<C>; using int_type = char_traits<C>::int_type;
        streamsize w = 0; C f = u' '; bool left = false;
        basic_ostream& padded(const C* s, streamsize n) { streamsize pad = w > n ? w - n : 0; if (!left) for (streamsize i = 0; i < pad; i++) emit(f); for (streamsize i = 0; i < n; i++) emit(s[i]); if (left) for (streamsize i = 0; i < pad; i++) emit(f); w = 0; return *this; }
        basic_ostream& put(C c) { emit(c); return *this; } basic_ostream& write(const C* s, streamsize n) { for (streamsize i = 0; i < n; i++) emit(s[i]); return *this; }
        streamsize width(streamsize n) { streamsize o = w; w = n; return o; } streamsize width() const { return w; } C fill(C c) { C o = f; f = c; return o; } C fill() const { return f; }
        ios_base::fmtflags flags() const { return ios_base::dec | (left ? ios_base::left : ios_base::fmtflags()); }
        C widen(char c) const { return static_cast<C>(c); } bool good() const { return true; } bool fail() const { return false; } explicit operator bool() const { return true; }
    };
    basic_ostream<C>& operator<<(basic_ostream<C>& o, C c) { return o.padded(&c, 1); }
    basic_ostream<C>& operator<<(basic_ostream<C>& o, char c) { C x = static_cast<C>(c); return o.padded(&x, 1); }
    basic_ostream<C>& operator<<(basic_ostream<C>& o, const C* s) { streamsize n = 0; while (s[n]) n++; return o.padded(s, n); }
    basic_ostream<C>& operator<<(basic_ostream<C>& o, const char* s) { C t[40]; streamsize n = 0; while (s[n] && n < 40) { t[n] = static_cast<C>(s[n]); n++; } return o.padded(t, n); }
    basic_ostream<C>& operator<<(basic_ostream<C>& o, const basic_string<C>& s) { return o.padded(s.data(), static_cast<streamsize>(s.size())); }
    basic_ostream<C>& operator<<(basic_ostream<C>& o, basic_string_view<C> s) { return o.padded(s.data(), static_cast<streamsize>(s.size())); }
}
#include "Awl/String.h"
#include "Awl/Int2Array.h"
using U = __uint128_t; using S = __int128_t; using Out = std::basic_ostream<C>;
// a site gives at most 24 different values
template <int SITE = 0> static uint64_t digit(uint64_t low, const char* l) { uint64_t d = vf_nondet(l); vf_assume(d >= low && d <= 9); return d; }
static uint64_t dg[40]; static int dn;
// the value with n arbitrary digits, the first of them is not zero
static U number(int n, int first = -1) { U v = 0; for (int i = 0; i < n; i++) { dg[i] = i == 0 ? (first >= 0 ? static_cast<uint64_t>(first) : n == 39 ? 1 : digit(n > 1, "first digit")) : i < 20 ? digit(0, "digit") : digit<1>(0, "digit"); v = v * 10 + static_cast<U>(dg[i]); } return v; }
static int count(const char* l) { static const int c[] = {1, 2, 3, 19, 20, 38, 39}; return c[vf_choice(7, l)]; }
static void set(Out& o, int n) { static const int w[] = {0, 1, 2, 7, 38, 39, 40, 45}; o.w = w[vf_choice(8, "width")]; o.f = vf_choice(2, "fill") ? u'0' : u' '; o.left = vf_choice(2, "left"); (void)n; }
static void check(bool neg, int n, long w, C fill, bool left)
{
    long len = n + neg, pad = w > len ? w - len : 0; vf_assert(vfg_len == len + pad, "K07.print", "the number of printed characters is wrong");
    int k = 0; if (!left) for (long i = 0; i < pad; i++) vf_assert(vfg_out[k++] == fill, "K07.print", "the padding is wrong");
    if (neg) vf_assert(vfg_out[k++] == '-', "K07.print", "the minus is missing");
    for (int i = 0; i < n; i++) vf_assert(vfg_out[k++] == static_cast<C>('0' + dg[i]), "K07.print", "a wrong digit is printed");
    if (left) for (long i = 0; i < pad; i++) vf_assert(vfg_out[k++] == fill, "K07.print", "the padding is wrong");
}
extern "C" void vfh_unsigned()
{
    int n = count("digits"); U v = number(n); Out o; set(o, n); long w = o.w; using awl::operator<<; o << v;
    check(false, n, w, o.f, o.left); vf_assert(o.w == 0, "K07.width", "the width stays set"); vf_cover("printed");
}
static void concrete(U v) { char t[40]; int n = 0; do { t[n++] = static_cast<char>(v % 10); v /= 10; } while (v); for (int i = 0; i < n; i++) dg[i] = static_cast<uint64_t>(t[n - 1 - i]); dn = n; }
extern "C" void vfh_limits()
{
    static const U vs[] = {0, 9, 10, ~U(0), ~U(0) - 5, U(1) << 64, (U(1) << 64) - 1, U(1) << 127}; U v = vs[vf_choice(8, "value")]; concrete(v); int n = dn;
    Out o; set(o, n); long w = o.w; using awl::operator<<; o << v; check(false, n, w, o.f, o.left); vf_cover("printed");
}
extern "C" void vfh_signed()
{
    using awl::operator<<; bool neg = vf_choice(2, "negative"); int n; U v;
    if (vf_choice(4, "a limit") == 0) { v = neg ? U(1) << 127 : (U(1) << 127) - 1; concrete(v); n = dn; } else { n = count("digits"); if (n == 39) v = number(n, 1); else v = number(n); if (n == 39) vf_assume(v < (U(1) << 127)); }
    if (v == 0) neg = false; Out o; bool wide = vf_choice(2, "a width is set"); if (wide) o.w = vf_choice(2, "width") ? 1 : 45; bool failed = false;
    S s = static_cast<S>(neg ? U(0) - v : v); try { o << s; } catch (const std::runtime_error&) { failed = true; }
    vf_assert(failed == wide, "K07.refused", "a width with a signed number is not refused, or a number without one is"); if (!failed) { check(neg, n, 0, u' ', false); vf_cover("printed"); } else vf_assert(vfg_len == 0, "K07.refused", "a refused number leaves characters behind");
}
extern "C" void vfh_optional()
{
    using awl::operator<<; Out o; std::optional<C> v; bool has = vf_choice(2, "has a value"); if (has) v = static_cast<C>('a' + digit(0, "letter")); o << v;
    if (has) vf_assert(vfg_len == 1 && vfg_out[0] == *v, "K07.optional", "a value is not printed"); else { static const char e[] = "empty"; vf_assert(vfg_len == 5, "K07.optional", "a missing value is not printed as empty"); for (int i = 0; i < 5; i++) vf_assert(vfg_out[i] == e[i], "K07.optional", "a missing value is not printed as empty"); }
    vf_cover("printed");
}
// ---- integers as arrays of bytes, the most significant one first ----
template <class T> static void array()
{
    T v; vf_symbolic(&v, sizeof v, "v"); std::make_unsigned_t<T> u = static_cast<std::make_unsigned_t<T>>(v); auto a = awl::to_array(v);
    static_assert(std::is_same_v<decltype(a), std::array<uint8_t, sizeof(T)>>);
    for (size_t i = 0; i < sizeof(T); i++) vf_assert(a[sizeof(T) - 1 - i] == static_cast<uint8_t>(u >> (8 * i)), "K07.bytes", "a byte of the array is wrong");
    vf_assert(awl::from_array<T>(a) == v, "K07.back", "the array does not give the integer back"); vf_cover("bytes");
}
extern "C" void vfh_array() { switch (vf_choice(8, "type")) { case 0: array<uint8_t>(); break; case 1: array<int8_t>(); break; case 2: array<uint16_t>(); break; case 3: array<int16_t>(); break; case 4: array<uint32_t>(); break; case 5: array<int32_t>(); break; case 6: array<uint64_t>(); break; default: array<int64_t>(); } }
extern "C" void vfh_ctl_digit() { number(2); vfg_len = 2; vfg_out[0] = '0'; vfg_out[1] = '0'; check(false, 2, 0, u' ', false); }
