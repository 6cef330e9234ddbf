// defects of decimal repaired by the fix: commits of K02; exits 0 if all are gone
#include "Awl/Decimal.h"
#include "Awl/DecimalTime.h"
#include <cstdio>
#include <sstream>
using D = awl::decimal<uint64_t, 4>; using D5 = awl::decimal<uint64_t, 5>; using W = awl::decimal<__uint128_t, 4>;
static int bad = 0;
static void check(bool ok, const char* what) { if (!ok) { bad = 1; std::printf("FAILED: %s\n", what); } }
template <class F> static bool raises(F f) { try { f(); } catch (const std::logic_error&) { return true; } return false; }
int main()
{
    const int64_t max = static_cast<int64_t>(D::max_mantissa());
    check(raises([&] { D d(max + 1, 0); }), "a mantissa out of range is truncated");
    check(raises([&] { D r = D(max, 0) + D(max, 0); }), "an overflow of a sum is silent");
    check(raises([&] { D r = awl::multiply(D(max, 0), D(16, 0)); }), "an overflow of a product is silent");
    check(raises([&] { D r = awl::multiply(D(1, 10), D(1, 10)); }), "too many digits of a product are silent");
    check(raises([&] { D r = D::from_string(std::string_view("0." + std::string(256, '0') + "1")); }), "256 zeros are lost");
    check(D::from_string(std::string_view("")).mantissa() == 0, "an empty string");
    check(D5::max_exponent() <= 19, "a denominator that overflows is used");
    D z(0, 0); z.negate(); check(z == D(0, 0) && !(z < D(0, 0)) && !(D(0, 0) > z), "zeros of different sign differ");
    check(D(-15, 1).floor(0).mantissa() == -2 && D(-15, 1).ceil(0).mantissa() == -1, "floor and ceil of a negative decimal");
    check(awl::decimal_to_nanoseconds(D(12000000000, 10)).count() == 1200000000, "10 digits to nanoseconds");
    check(raises([&] { awl::decimal_to_nanoseconds(W(static_cast<__int128_t>(1) << 62, 0)); }), "a duration out of range is truncated");
    check(raises([&] { D5 d = D5::from_bits(D5(static_cast<uint8_t>(0)).to_bits() | (31u << 1)); }), "bits with 31 digits are accepted");
    return bad;
}
