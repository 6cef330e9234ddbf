// K04: the compiler evaluates the checksum and compares it with the polynomial division it stands for.
// The checksum is affine over GF(2) in seed and message, so an affine basis of each length decides that length; single bytes decide the whole table.
#include <array>
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <string_view>
#include "Awl/Crypto/Crc64.h"
#include "Awl/Crypto/IntHash.h"
#include "Awl/Crypto/FixedHash.h"
namespace ref
{
    constexpr uint64_t poly = 0x95ac9329ac4bc9b5ull; // 0xad93d23594c935a9 with the bits reversed
    constexpr uint64_t step(uint64_t crc, uint8_t b) { crc ^= b; for (int i = 0; i < 8; i++) crc = crc & 1 ? (crc >> 1) ^ poly : crc >> 1; return crc; }
    constexpr std::array<uint8_t, 8> form(uint64_t v) { std::array<uint8_t, 8> r{}; for (int i = 0; i < 8; i++) r[i] = (uint8_t)(v >> (56 - 8 * i)); return r; }
    template <class A> constexpr std::array<uint8_t, 8> crc(uint64_t seed, const A& m, size_t n) { for (size_t i = 0; i < n; i++) seed = step(seed, (uint8_t)m[i]); return form(seed); }
    template <size_t N> constexpr std::array<uint8_t, N> message(unsigned x) { std::array<uint8_t, N> m{}; for (auto& b : m) { x = x * 1103515245u + 12345u; b = (uint8_t)(x >> 16); } return m; }
    // the checksum state also decides the remaining bits: reducing a 64-bit state over 64 bits is a bijection iff the polynomial has a constant term
    static_assert(poly >> 63, "control: the polynomial has a constant term, so bursts of at most 64 bits are detected");
}
// a single pass iterator that counts what it delivers
template <class T> struct Once
{
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
    const T* p; int* seen;
    constexpr T operator*() const { ++*seen; return *p; }
    constexpr Once& operator++() { ++p; return *this; }
    constexpr Once operator++(int) { Once o = *this; ++p; return o; }
    friend constexpr bool operator==(const Once& a, const Once& b) { return a.p == b.p; }
    friend constexpr bool operator!=(const Once& a, const Once& b) { return a.p != b.p; }
};
using awl::crypto::Crc64; using awl::crypto::Int64Hash; using awl::crypto::FixedHash;
constexpr uint64_t seeds[] = {0, 127, ~0ull, 0x0123456789abcdefull};
template <class T> constexpr bool table(uint64_t seed) { for (int b = 0; b < 256; b++) { T m[1] = {(T)(uint8_t)b}; if (Crc64(seed)(m, m + 1) != ref::crc(seed, m, 1)) return false; } return true; }
constexpr bool tables() { for (int k = 0; k < 64; k++) if (!table<uint8_t>(1ull << k)) return false; for (uint64_t s : seeds) if (!table<uint8_t>(s)) return false; return true; }
template <size_t N> constexpr bool basis(uint64_t seed)
{
    std::array<uint8_t, N> m{};
    if (Crc64(seed)(m.begin(), m.end()) != ref::crc(seed, m, N)) return false;
    for (size_t i = 0; i < N; i++) for (int k = 0; k < 8; k++) { m[i] = (uint8_t)(1 << k); if (Crc64(seed)(m.begin(), m.end()) != ref::crc(seed, m, N)) return false; m[i] = 0; }
    return true;
}
template <size_t N> constexpr bool random() { auto m = ref::message<N>(N); return Crc64()(m.begin(), m.end()) == ref::crc(127, m, N); }
// every prefix of a message, at every length up to N
template <size_t N> constexpr bool prefixes() { auto m = ref::message<N>(1); for (size_t n = 0; n <= N; n++) if (Crc64()(m.data(), m.data() + n) != ref::crc(127, m, n)) return false; return true; }
template <size_t N> constexpr bool once() { auto m = ref::message<N>(2); int seen = 0; Once<uint8_t> b{m.data(), &seen}, e{m.data() + N, &seen}; return Crc64()(b, e) == ref::crc(127, m, N) && seen == (int)N; }
template <class T, size_t N> constexpr bool wide()
{
    std::array<T, N> w{}; std::array<uint8_t, N * sizeof(T)> m = ref::message<N * sizeof(T)>(3);
    for (size_t i = 0; i < N; i++) { typename std::make_unsigned<T>::type v = 0; for (size_t j = 0; j < sizeof(T); j++) v = (typename std::make_unsigned<T>::type)((v << (8 * (sizeof(T) - 1) ? 8 : 0)) | m[i * sizeof(T) + j]); w[i] = (T)v; }
    return Crc64()(w.begin(), w.end()) == ref::crc(127, m, m.size());
}
constexpr bool ints(uint64_t seed) { auto m = ref::message<20>(4); uint64_t v = seed; for (auto b : m) v = ref::step(v, b); return Int64Hash(seed)(m.begin(), m.end()) == v; }
constexpr bool forms() { for (int k = 0; k < 64; k++) { uint64_t v = 1ull << k; if (awl::to_array(v) != ref::form(v) || awl::from_array<uint64_t>(awl::to_array(v)) != v || awl::from_array<uint64_t>(ref::form(v)) != v) return false; } return awl::from_array<uint64_t>(awl::to_array<uint64_t>(0x0123456789abcdefull)) == 0x0123456789abcdefull; }
template <size_t A, size_t N> constexpr bool equal(const std::array<uint8_t, A>& a, const uint8_t (&b)[N]) { if (A != N) return false; for (size_t i = 0; i < N; i++) if (a[i] != b[i]) return false; return true; }
constexpr uint8_t sample[] = {0xe9, 0xc6, 0xd9, 0x14, 0xc4, 0xb8, 0xd9, 0xca};
constexpr std::string_view digits = "123456789";

static_assert(equal(ref::crc(0, digits, 9), sample), "control: the reference computes the published check value of this polynomial");
static_assert(!(ref::step(0, 1) == 0), "control: the reference is not trivial");
static_assert(Crc64::size() == 8 && sizeof(Crc64::value_type) == 8, "the stored checksum is 8 bytes");
static_assert(tables(), "a byte is not folded into the checksum by the table of the polynomial");
static_assert(table<int8_t>(127) && table<char>(127) && table<signed char>(~0ull), "a signed byte is folded in differently from the same unsigned byte");
static_assert(basis<1>(0) && basis<2>(0) && basis<3>(127) && basis<7>(127) && basis<8>(~0ull) && basis<9>(127) && basis<16>(127) && basis<17>(127) && basis<33>(0), "the checksum of a message differs from the polynomial division");
static_assert(prefixes<80>(), "the checksum of some message length differs from the polynomial division");
static_assert(random<255>() && random<256>() && random<257>() && random<1024>() && random<4096>() && random<5000>(), "the checksum of a long message differs from the polynomial division");
static_assert(random<65536 - 8>() && random<65536 + 3>(), "the checksum of a default sized block differs from the polynomial division");
static_assert(once<0>() && once<1>() && once<9>() && once<64>() && once<100>(), "an input byte is consumed more or less than once");
static_assert(wide<uint16_t, 5>() && wide<int16_t, 4>() && wide<uint32_t, 5>() && wide<int32_t, 3>() && wide<uint64_t, 3>() && wide<char16_t, 3>(), "wide elements are not consumed byte by byte in the platform independent order");
static_assert(ints(0) && ints(127), "the integer form of the checksum differs from its serialised form");
static_assert(forms(), "the serialised form of the checksum is not big endian");
static_assert(Crc64()(sample, sample) == ref::form(127), "the checksum of an empty message is not the serialised seed");
static_assert(Crc64(0)(digits.begin(), digits.end()) == ref::crc(0, digits, 9), "the checksum of the sample differs from the published value");
static_assert(FixedHash<Crc64>(Crc64(0))("123456789") == ref::crc(0, digits, 9), "the checksum of a string literal covers other bytes than its characters");
int main() { }
