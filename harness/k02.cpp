// K02: decimal arithmetic over unknown mantissas. The oracle is exact integer arithmetic on the parts the mantissas are made of.
#include "vf.h"
#include <stdexcept>
#include <string_view>
#include "Awl/Decimal.h"
#include "Awl/DecimalTime.h"
#ifndef UINT
#define UINT uint64_t
#define EXPLEN 4
#endif
typedef UINT U;
typedef awl::decimal<U, EXPLEN> D;
typedef D::Int I;
static constexpr U M = (U(1) << (sizeof(U) * 8 - EXPLEN - 1)) - 1;
static constexpr int limit() { U d = 1; int n = 0; while (n < (1 << EXPLEN) - 1 && d <= U(-1) / 10) { d *= 10; n++; } return n; }
static constexpr int MAXE = limit();
static constexpr U p10(int n) { U r = 1; while (n-- > 0) r *= 10; return r; }
VFG(uint64_t, path, 1)
// the choices stay apart
static int pick(int n, const char* label) { int c = vf_choice(n, label); vfg_path = (vfg_path * 16 + static_cast<uint64_t>(c)) ^ (vfg_path >> 60); return c; }
static U unknown(const char* name) { U m; vf_symbolic(&m, sizeof m, name); return m; }
static U below(U n, const char* name) { U m = unknown(name); vf_assume(m < n); return m; }
static int few_digits_of(const char* label) { static constexpr int e[] = {0, 1, 3, 9, 14, MAXE}; return e[pick(6, label)]; }
static int digits_of(const char* label)
{
#ifdef VF_DEEP
    static constexpr int e[] = {0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 13, 14, 15, MAXE - 1, MAXE}; return e[pick(MAXE > 15 ? 15 : 13, label)];
#else
    return few_digits_of(label);
#endif
}
static D make(U man, int e, bool neg) { D d(static_cast<uint8_t>(e)); d.set_unsigned_mantissa(man); if (neg) d.negate(); return d; }
static I sgn(U v, bool neg) { return neg ? -static_cast<I>(v) : static_cast<I>(v); }
// the value of d at e digits
static void value_is(const D& d, int e, I v, const char* rule, const char* msg)
{
    vf_assert(d.exponent() <= e, rule, msg); vf_assert(d.mantissa() * static_cast<I>(p10(e - d.exponent())) == v, rule, msg);
}
VFG(int, eq, 0) VFG(int, raised, 0) VFG(int, fits, 0)
template <class F> static bool raises(F f)
{
    vfg_raised = 0; try { f(); } catch (const std::logic_error&) { vfg_raised = 1; }
    return vfg_raised != 0;
}
// a mantissa that is k * q + r
struct Parts { U man, q, r; };
static Parts parts(U k)
{
    Parts p;
    if (pick(2, "the largest quotient")) { p.q = M / k; p.r = M % k == 0 ? 0 : below(M % k + 1, "r"); if (k == 1) p.r = 0; }
    else { p.q = below(M / k, "q"); p.r = k == 1 ? 0 : below(k, "r"); }
    p.man = p.q * k + p.r; return p;
}
extern "C" void vfh_k02_add()
{
    int ea = digits_of("digits of a"), eb = digits_of("digits of b"); bool na = pick(2, "a is negative"), nb = pick(2, "b is negative"); int op = pick(4, "+ - += -=");
    U a = below(M + 1, "a"), b = below(M + 1, "b"); int e = ea > eb ? ea : eb; U ka = p10(e - ea), kb = p10(e - eb);
    D x = make(a, ea, na), y = make(b, eb, nb), r;
    int& fits = vfg_fits; fits = 0; if (a <= M / ka && b <= M / kb) fits = 1; I v = 0;
    if (fits) { v = sgn(a, na) * static_cast<I>(ka) + sgn(b, nb != (op & 1)) * static_cast<I>(kb); fits = v <= static_cast<I>(M) && v >= -static_cast<I>(M) ? 1 : 0; }
    bool bad = raises([&] { switch (op) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x; r += y; break; default: r = x; r -= y; } });
    if (bad) { vf_assert(!fits, "K02.refused", "a sum or a difference that fits is refused"); vf_cover("sum refused"); }
    else { vf_assert(fits, "K02.overflow", "a sum or a difference that does not fit is not refused"); value_is(r, e, v, "K02.sum", "a sum or a difference is not exact"); vf_cover("sum"); }
}
extern "C" void vfh_k02_multiply()
{
    int ea = digits_of("digits of a"), eb = digits_of("digits of b"); bool na = pick(2, "a is negative"), nb = pick(2, "b is negative");
    U a = below(M + 1, "a"), b = below(M + 1, "b"); if (pick(2, "a is zero")) a = 0; else vf_assume(a != 0); if (pick(2, "b is zero")) b = 0; else vf_assume(b != 0);
    D x = make(a, ea, na), y = make(b, eb, nb), r;
    int& fits = vfg_fits; fits = 0; if (ea + eb <= MAXE && (a == 0 || b == 0 || !(b > M / a))) fits = 1;
    bool bad = raises([&] { r = awl::multiply(x, y); });
    if (bad) { vf_assert(!fits, "K02.refused", "a product that fits is refused"); vf_cover("product refused"); }
    else { vf_assert(fits, "K02.overflow", "a product that does not fit is not refused"); value_is(r, ea + eb, sgn(a * b, na != nb), "K02.product", "a product is not exact"); vf_cover("product"); }
}
extern "C" void vfh_k02_extend()
{
    int e = digits_of("digits"), f = pick(2, "too many digits") ? MAXE + 1 : digits_of("new digits"); vf_assume(f > e); bool neg = pick(2, "negative"), any = pick(2, "rescale");
    U a = below(M + 1, "a"); if (pick(2, "zero")) a = 0; else vf_assume(a != 0); D x = make(a, e, neg), r;
    int& fits = vfg_fits; fits = 0; if (f <= MAXE && a <= M / p10(f - e)) fits = 1;
    bool bad = raises([&] { r = any ? x.rescale(f) : x.extend(f); });
    if (bad) { vf_assert(!fits, "K02.refused", "an extension that fits is refused"); vf_cover("extension refused"); }
    else { vf_assert(fits, "K02.overflow", "an extension that does not fit is not refused"); vf_assert(r.exponent() == f, "K02.digits", "an extended decimal has a wrong number of digits"); value_is(r, f, sgn(a, neg) * static_cast<I>(p10(f - e)), "K02.extend", "an extended decimal has another value"); vf_cover("extended"); }
}
extern "C" void vfh_k02_round()
{
    int e = digits_of("digits"), f = digits_of("new digits"); vf_assume(f <= e); bool neg = pick(2, "negative"); int op = pick(5, "rescale, unchecked rescale, truncate, floor, ceil");
    Parts p = parts(p10(e - f)); bool exact = p.r == 0; D x = make(p.man, e, neg), r;
    bool bad = raises([&] { switch (op) { case 0: r = x.rescale(f); break; case 1: r = x.rescale(f, false); break; case 2: r = x.truncate(f); break; case 3: r = x.floor(f); break; default: r = x.ceil(f); } });
    if (bad) { vf_assert(op == 0 && !exact, "K02.refused", "a decimal is not rounded"); vf_cover("precision loss refused"); return; }
    vf_assert(op != 0 || exact, "K02.precision", "a checked rescale loses digits");
    bool away = !exact && ((op == 3 && neg) || (op == 4 && !neg));
    vf_assert(r.exponent() == f, "K02.digits", "a rounded decimal has a wrong number of digits"); value_is(r, f, sgn(away ? p.q + 1 : p.q, neg), "K02.round", "a decimal is rounded to a wrong value"); vf_cover("rounded");
}
// digits, trailing zeros, a last digit that is not zero
struct Norm { U man, x, c; int e, z; };
static Norm norm(const char* label)
{
    Norm n; n.e = few_digits_of(label); n.z = few_digits_of("trailing zeros"); vf_assume(n.z <= n.e); n.x = below(M / p10(n.z) / 10, "leading digits"); n.c = below(9, "last digit") + 1; n.man = (n.x * 10 + n.c) * p10(n.z); return n;
}
extern "C" void vfh_k02_normalize()
{
    Norm n = norm("digits"); bool neg = pick(2, "negative"); D r = make(n.man, n.e, neg).normalize();
    vf_assert(r.exponent() == n.e - n.z && r.mantissa() == sgn(n.x * 10 + n.c, neg), "K02.normalize", "a decimal is normalized to another one"); vf_cover("normalized");
    D z = make(0, n.e, neg).normalize(); vf_assert(z.exponent() == 0 && z.unsigned_mantissa() == 0, "K02.normalize", "zero is normalized to another value");
}
static void order(const D& x, const D& y, int s)
{
    vf_assert((x < y) == (s < 0) && (y > x) == (s < 0), "K02.order", "two decimals are ordered differently than their values");
    vf_assert((x > y) == (s > 0) && (y < x) == (s > 0), "K02.order", "two decimals are ordered differently than their values");
    vf_assert((x <= y) == (s <= 0) && (y >= x) == (s <= 0), "K02.order", "two decimals are ordered differently than their values");
    vf_assert((x >= y) == (s >= 0) && (y <= x) == (s >= 0), "K02.order", "two decimals are ordered differently than their values");
    vf_cover("ordered");
}
static void same(const D& x, const D& y, bool eq)
{
    vf_assert((x == y) == eq && (y == x) == eq && (x != y) == !eq && (y != x) == !eq, "K02.equal", "decimals are equal or different while their values are not"); vf_cover("compared");
}
// a = ga * q + k * u + v, b = gb * s + t, ga = k * gb: the order of q and s, or of k * u + v and k * t decides
extern "C" void vfh_k02_order()
{
    int ea = digits_of("digits of a"), eb = digits_of("digits of b"); vf_assume(ea >= eb && ea < 19 && (sizeof(U) > 8 || ea < 18)); bool neg = pick(2, "negative");
    U ga = p10(ea), gb = p10(eb), k = ga / gb; U q = below(M / ga, "integer part of a"), s = q, u = gb == 1 ? 0 : below(gb, "fraction of a"), v = k == 1 ? 0 : below(k, "rest of the fraction of a"), t = gb == 1 ? 0 : below(gb, "fraction of b"); int r = 0;
    switch (pick(7, "how a and b relate"))
    {
    case 0: { U n = below(M / gb, "n"); s = q + 1 + n; vf_assume(s < M / gb); r = -1; break; }
    case 1: { U n = below(M / ga, "n"); q = s + 1 + n; vf_assume(q < M / ga); r = 1; break; }
    case 2: { U n = below(gb, "n"); vf_assume(gb > 1); t = u + 1 + n; vf_assume(t < gb); r = -1; break; }
    case 3: { U n = below(gb, "n"); vf_assume(gb > 1); u = t + 1 + n; vf_assume(u < gb); r = 1; break; }
    case 4: vf_assume(k > 1); t = u; v = below(k - 1, "n") + 1; r = 1; break;
    case 5: t = u; v = 0; break;
    default: vf_assume(k > 1); u = 0; t = 0; v = below(k - 1, "n") + 1; r = 1; break;
    }
    U a = ga * q + k * u + v, b = gb * s + t; vf_assume(a <= M); vf_assume(b <= M);
    order(make(a, ea, neg), make(b, eb, neg), neg ? -r : r);
}
extern "C" void vfh_k02_signs()
{
    int ea = digits_of("digits of a"), eb = digits_of("digits of b"); bool za = pick(2, "a is zero"), zb = pick(2, "b is zero");
    U a = za ? 0 : below(M, "a") + 1, b = zb ? 0 : below(M, "b") + 1; int s = za && zb ? 0 : -1;
    D x = make(a, ea, true), y = make(b, eb, false); order(x, y, s); if (za && zb) same(x, y, true);
    if (za) order(make(0, ea, false), y, zb ? 0 : -1); if (zb) order(x, make(0, eb, true), za ? 0 : -1);
    if (za && zb) same(make(0, ea, pick(2, "sign")), make(0, eb, pick(2, "sign")), true);
}
extern "C" void vfh_k02_equal()
{
    Norm a = norm("digits of a"), b = norm("digits of b"); bool neg = pick(2, "negative"), other = neg; int& eq = vfg_eq; eq = 0;
    switch (pick(6, "how a and b relate"))
    {
    case 0: b.x = a.x; b.c = a.c; eq = a.e - a.z == b.e - b.z ? 1 : 0; break;
    case 1: b.x = a.x + 1 + below(M / 10, "n"); break;
    case 2: a.x = b.x + 1 + below(M / 10, "n"); break;
    case 3: b.x = a.x; b.c = a.c + 1 + below(9, "n"); vf_assume(b.c < 10); break;
    case 4: b.x = a.x; b.c = a.c; other = !neg; break;
    default: b.x = b.c = 0; other = pick(2, "the sign of zero"); break;
    }
    a.man = (a.x * 10 + a.c) * p10(a.z); b.man = (b.x * 10 + b.c) * p10(b.z); vf_assume(a.x < M / p10(a.z) / 10); vf_assume(b.x < M / p10(b.z) / 10);
    vf_assume(a.man <= M); vf_assume(b.man <= M); same(make(a.man, a.e, neg), make(b.man, b.e, other), eq != 0);
}
extern "C" void vfh_k02_value()
{
    int e = digits_of("digits"); bool neg = pick(2, "negative"); U a = below(M + 1, "a"); D d = make(a, e, neg);
    vf_assert(d.mantissa() == sgn(a, neg) && d.unsigned_mantissa() == a && d.exponent() == e, "K02.parts", "a decimal does not keep its mantissa or its digits");
    value_is(-d, e, sgn(a, !neg), "K02.negate", "the negated decimal has a wrong value");
    D b = D::from_bits(d.to_bits()); vf_assert(b.mantissa() == sgn(a, neg) && b.exponent() == e && b.negative() == neg, "K02.bits", "a decimal restored from its bits differs");
    value_is(D(sgn(a, neg), static_cast<uint8_t>(e)), e, sgn(a, neg), "K02.parts", "a decimal made of a mantissa and digits has another value");
    D z = D::zero(); vf_assert(z.mantissa() == 0 && z.exponent() == 0, "K02.parts", "zero is not zero");
    vf_assert(std::numeric_limits<D>::max().mantissa() == static_cast<I>(M) && std::numeric_limits<D>::min().mantissa() == -static_cast<I>(M), "K02.parts", "the limits are wrong");
    // a mantissa out of range is refused
    U w = unknown("w"); D f(static_cast<uint8_t>(e)); bool bad = raises([&] { f.set_unsigned_mantissa(w); }); vf_assert(bad == (w > M), "K02.overflow", "a mantissa out of range is accepted or one in range is refused");
    if (!bad) value_is(f, e, static_cast<I>(w), "K02.parts", "a decimal does not keep its mantissa");
    I i = static_cast<I>(unknown("i")); D g; bool bad2 = raises([&] { g = D(i, static_cast<uint8_t>(e)); }); vf_assert(bad2 == (i > static_cast<I>(M) || i < -static_cast<I>(M)), "K02.overflow", "a mantissa out of range is accepted or one in range is refused");
    if (!bad2) value_is(g, e, i, "K02.parts", "a decimal does not keep its mantissa");
    vf_cover("value");
}
extern "C" void vfh_k02_nanoseconds()
{
    int e = digits_of("digits"); bool neg = pick(2, "negative"); U lim = (U(1) << 63) - (neg ? 0 : 1), a, q; int64_t ns = 0; int& fits = vfg_fits; fits = 0;
    if (e >= 9) { Parts p = parts(p10(e - 9)); a = p.man; q = p.q; if (p.r == 0 && q <= lim) fits = 1; }
    else { a = below(M + 1, "a"); q = a * p10(9 - e); if (a <= M / p10(9 - e) && a <= lim / p10(9 - e)) fits = 1; }
    D d = make(a, e, neg); bool bad = raises([&] { ns = awl::decimal_to_nanoseconds(d).count(); });
    if (bad) { vf_assert(!fits, "K02.refused", "a duration that fits is refused"); return; }
    vf_assert(fits, "K02.overflow", "a duration that does not fit is not refused"); vf_assert(ns == static_cast<int64_t>(sgn(q, neg)), "K02.nanoseconds", "a decimal is converted to a wrong duration");
    vf_cover("nanoseconds");
}
// KNOWN FINDING: the digits given to a constructor are not checked
extern "C" void vfh_k02_constructor()
{
    uint8_t e; vf_symbolic(&e, 1, "digits"); vf_assume(e > MAXE); bool bad = raises([&] { D d(e); }); vf_assert(bad, "K02.constructor", "too many digits are not refused by a constructor");
}
// stored bits
extern "C" void vfh_k02_bits()
{
    U w = unknown("bits"); D d; bool bad = raises([&] { d = D::from_bits(w); });
    if (bad) return; // the bits of a decimal are accepted, see above
    vf_assert(d.exponent() <= MAXE && d.to_bits() == w, "K02.bits", "a decimal restored from its bits differs or has too many digits"); vf_cover("bits restored");
}
// text
template <class C> static void parsed(std::basic_string_view<C> text, bool valid, U man, int e, bool neg)
{
    D d; bool bad = raises([&] { d = D::from_string(text); });
    if (bad) { vf_assert(!valid, "K02.refused", "a decimal string that fits is refused"); vf_cover("text refused"); }
    else { vf_assert(valid, "K02.text", "a malformed or too long decimal string is accepted"); value_is(d, e, sgn(man, neg), "K02.parse", "a decimal string is read as another value"); vf_cover("text"); }
}
template <class C> static void short_text()
{
    C t[5]; int n = pick(5, "length"), point = -1, e = 0; bool valid = true, neg = false; U man = 0;
    for (int i = 0; i < n; i++)
        switch (pick(5, "digit, point, minus, plus, other"))
        {
        case 0: { U d = below(10, "digit"); t[i] = static_cast<C>('0' + static_cast<int>(d)); man = man * 10 + d; if (point >= 0) e++; break; }
        case 1: t[i] = '.'; if (point >= 0) valid = false; point = i; break;
        case 2: t[i] = '-'; if (i) valid = false; neg = true; break;
        case 3: t[i] = '+'; if (i) valid = false; break;
        default: { C c; vf_symbolic(&c, sizeof c, "character"); vf_assume((c < '0' || c > '9') && c != '.'); if (i == 0) vf_assume(c != '-' && c != '+'); t[i] = c; valid = false; }
        }
    parsed(std::basic_string_view<C>(t, n), valid, man, e, neg);
}
extern "C" void vfh_k02_text() { short_text<char>(); }
extern "C" void vfh_k02_wtext() { short_text<wchar_t>(); }
static constexpr int decimal_digits() { U m = M; int n = 0; while (m) { m /= 10; n++; } return n; }
// the digits of the largest mantissa with an unknown last one, one more and one less digit; the point anywhere
extern "C" void vfh_k02_long_text()
{
    int n = decimal_digits() - 1 + pick(3, "length"), point = pick(4, "point") * (MAXE / 3) + pick(2, "point"); if (point > n) point = n; char t[64]; char dg[48]; U m = M; for (int i = decimal_digits() - 1; i >= 0; i--) { dg[i] = static_cast<char>('0' + static_cast<int>(m % 10)); m /= 10; } dg[decimal_digits()] = '3';
    U last = below(9, "last digit") + 1; dg[n - 1] = static_cast<char>('0' + static_cast<int>(last)); // point: digits after the point
    bool neg = pick(2, "negative"); int k = 0; if (neg) t[k++] = '-'; for (int i = 0; i < n; i++) { if (i == n - point) t[k++] = '.'; t[k++] = dg[i]; }
    U head = 0; for (int i = 0; i < n - 1; i++) head = head * 10 + static_cast<U>(dg[i] - '0');
    bool valid = point <= MAXE && n <= decimal_digits() && head <= M / 10 && (head < M / 10 || last <= M % 10);
    parsed(std::string_view(t, k), valid, valid ? head * 10 + last : 0, point, neg);
}
extern "C" void vfh_k02_zero_text()
{
    static constexpr int zs[] = {0, 1, MAXE - 2, MAXE - 1, MAXE, MAXE + 1, 254, 255, 256, 257, 511, 512};
    int z = zs[pick(12, "zeros")]; static char t[600]; int k = 0; bool frac = pick(2, "after the point"); U d = below(9, "digit") + 1;
    if (frac) { t[k++] = '0'; t[k++] = '.'; } for (int i = 0; i < z; i++) t[k++] = '0'; t[k++] = static_cast<char>('0' + static_cast<int>(d));
    if (frac) parsed(std::string_view(t, k), z + 1 <= MAXE, d, z + 1 <= MAXE ? z + 1 : 0, false); else parsed(std::string_view(t, k), true, d, 0, false);
    if (frac) t[k - 1] = '0'; parsed(std::string_view(t, k), true, frac ? 0 : d, 0, false); vf_cover("zeros");
}
// a stream that records what is printed
enum OutC : char {};
VFG(int, minus, 0) VFG(int, point, 0) VFG(int, stage, 0)
static U printed_int, printed_frac; static int printed_width, printed_fill;
namespace std
{
    template <> class basic_ostream<OutC, char_traits<OutC>>
    {
    public:
        int w = 0; char f = ' ';
        basic_ostream& operator<<(char c) { if (c == '-') { vf_assert(vfg_stage == 0 && !vfg_minus, "K02.print", "a misplaced minus"); vfg_minus = 1; } else { vf_assert(c == '.' && vfg_stage == 1 && !vfg_point, "K02.print", "a misplaced character"); vfg_point = 1; } w = 0; return *this; }
        basic_ostream& operator<<(const char* s) { for (; *s; s++) *this << *s; return *this; }
        basic_ostream& operator<<(U v) { if (vfg_stage == 0) { vf_assert(w == 0, "K02.print", "a padded integer part"); printed_int = v; vfg_stage = 1; } else { vf_assert(vfg_stage == 1 && vfg_point, "K02.print", "digits without a point"); printed_frac = v; printed_width = w; printed_fill = f; vfg_stage = 2; } w = 0; return *this; }
        int width(int n) { int o = w; w = n; return o; } int width() const { return w; } OutC fill(OutC c) { OutC o = static_cast<OutC>(f); f = static_cast<char>(c); return o; } OutC fill() const { return static_cast<OutC>(f); }
        void setf(int) {}
    };
}
extern "C" void vfh_k02_print()
{
    int e = digits_of("digits"); bool neg = pick(2, "negative"); Parts p = parts(p10(e)); D d = make(p.man, e, neg);
    std::basic_ostream<OutC> out; out << d;
    vf_assert(vfg_minus == (neg ? 1 : 0), "K02.print", "a wrong sign is printed"); vf_assert(vfg_stage == (e ? 2 : 1), "K02.print", "not all digits are printed"); vf_assert(printed_int == p.q, "K02.print", "a wrong integer part is printed");
    if (e) vf_assert(vfg_point && printed_frac == p.r && printed_width == e && printed_fill == '0', "K02.print", "wrong digits are printed after the point"); else vf_assert(!vfg_point, "K02.print", "a point without digits is printed");
    vf_cover("printed");
}
