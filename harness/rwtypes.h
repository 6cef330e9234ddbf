// Generators of values of every serializable type: unknown scalars, chosen shapes.
#pragma once
#include "rwstream.h"
#include "stdmodel.h"
#include "Awl/Reflection.h"
#include "Awl/EnumTraits.h"
#include "Awl/BitMap.h"
using namespace awl::io;
enum class Color : int16_t { Red = 3, Green = -7 };
namespace vfx { AWL_SEQUENTIAL_ENUM(Level, low, mid, high)
AWL_BITMAP(Flag, fa, fb, fc, fd, fe, ff, fg, fh, fi, fj) }
AWL_ENUM_TRAITS(vfx, Level)
AWL_ENUM_TRAITS(vfx, Flag)
using namespace vfx;
struct In1 { int x; bool b; AWL_REFLECT(x, b) friend bool operator==(const In1& l, const In1& r) { return l.x == r.x && l.b == r.b; } };
struct In2 { In1 a; std::string s; std::vector<In1> v; std::optional<int> o; AWL_REFLECT(a, s, v, o) friend bool operator==(const In2& l, const In2& r) { return l.a == r.a && l.s == r.s && l.v == r.v && l.o == r.o; } };
struct Tup { int16_t p; std::string q; AWL_TUPLIZABLE(p, q) friend bool operator==(const Tup& l, const Tup& r) { return l.p == r.p && l.q == r.q; } };

template <class T> struct Gen { static T make() { return sym<T>(); } };
template <class T> T gen() { return Gen<T>::make(); }
inline int shape(int n) { return vf_choice(n, "size"); }
template <> struct Gen<bool> { static bool make() { return symbool(); } };
template <> struct Gen<Color> { static Color make() { return sym<Color>(); } };
template <> struct Gen<Level> { static Level make() { return (Level)vf_choice(3, "level"); } };
template <> struct Gen<FlagBitMap> { static FlagBitMap make() { FlagBitMap m; if (symbool()) m |= Flag::fa; if (symbool()) m |= Flag::fi; m |= Flag::fc; return m; } };
template <class C> struct GenStr { static std::basic_string<C> make() { std::basic_string<C> s; int k = shape(3); for (int i = 0; i < k; i++) s.push_back((C)('a' + i)); return s; } };
template <> struct Gen<std::string> : GenStr<char> {};
template <> struct Gen<std::wstring> : GenStr<wchar_t> {};
template <> struct Gen<std::u16string> : GenStr<char16_t> {};
template <class T> struct Gen<std::vector<T>> { static std::vector<T> make() { std::vector<T> v; int k = shape(3); for (int i = 0; i < k; i++) v.push_back(gen<T>()); return v; } };
template <> struct Gen<std::vector<bool>> { static std::vector<bool> make() { std::vector<bool> v; static const int ns[] = {0, 1, 8, 9}; int k = ns[vf_choice(4, "bits 0 1 8 9")]; bool b = symbool(); for (int i = 0; i < k; i++) { v.push_back(b); if (i != 3) b = !b; } return v; } };
template <class T> struct Gen<std::deque<T>> { static std::deque<T> make() { std::deque<T> v; int k = shape(3); for (int i = 0; i < k; i++) v.push_back(gen<T>()); return v; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make() { std::array<T, N> a; for (auto& x : a) x = gen<T>(); return a; } };
template <size_t N> struct Gen<std::array<bool, N>> { static std::array<bool, N> make() { std::array<bool, N> a; bool b = symbool(); for (size_t i = 0; i < N; i++) { a[i] = b; if (i != 3) b = !b; } return a; } };
template <size_t N> struct Gen<std::bitset<N>> { static std::bitset<N> make() { std::bitset<N> a; if (symbool()) a.set(1); if (symbool()) a.set(N - 1); return a; } };
template <class T> struct Gen<std::optional<T>> { static std::optional<T> make() { std::optional<T> o; if (symbool()) o = gen<T>(); return o; } };
template <class T> struct Gen<std::unique_ptr<T>> { static std::unique_ptr<T> make() { std::unique_ptr<T> o; if (symbool()) o.reset(new T(gen<T>())); return o; } };
template <class T> struct Gen<std::shared_ptr<T>> { static std::shared_ptr<T> make() { std::shared_ptr<T> o; if (symbool()) o = std::make_shared<T>(gen<T>()); return o; } };
// elements of sets are concrete: the order is known, the order of insertion varies
template <class S> struct GenSet { static S make() { S s; int k = vf_choice(4, "elements 0 1 2 2'"); if (k == 3) s.insert(9); if (k) s.insert(5); if (k == 2) s.insert(7); return s; } };
template <> struct Gen<std::set<int>> : GenSet<std::set<int>> {};
template <> struct Gen<std::unordered_set<int>> : GenSet<std::unordered_set<int>> {};
template <> struct Gen<awl::vector_set<int>> : GenSet<awl::vector_set<int>> {};
template <> struct Gen<awl::observable_set<int>> : GenSet<awl::observable_set<int>> {};
template <class M> struct GenMap { static M make() { M m; int k = shape(3); if (k) m.insert(std::make_pair(5, gen<typename M::mapped_type>())); if (k == 2) m.insert(std::make_pair(2, gen<typename M::mapped_type>())); return m; } };
template <class T> struct Gen<std::map<int, T>> : GenMap<std::map<int, T>> {};
template <class T> struct Gen<std::unordered_map<int, T>> : GenMap<std::unordered_map<int, T>> {};
template <class T> struct Gen<awl::ring<T>> { static awl::ring<T> make() { awl::ring<T> v(3); int k = shape(3); for (int i = 0; i < k; i++) v.push_back(gen<T>()); return v; } };
using Var = std::variant<int, bool, std::string>;
template <> struct Gen<Var> { static Var make() { int k = vf_choice(3, "alternative"); if (k == 0) return sym<int>(); if (k == 1) return symbool(); return std::string("ab"); } };
using Time = std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds>;
template <> struct Gen<Time> { static Time make() { return Time(std::chrono::nanoseconds(sym<int64_t>())); } };
using Dec = awl::decimal<uint64_t, 4>;
template <> struct Gen<Dec> { static Dec make() { return Dec::from_bits(sym<uint64_t>()); } };
template <> struct Gen<In1> { static In1 make() { return {sym<int>(), symbool()}; } };
template <> struct Gen<Tup> { static Tup make() { return {sym<int16_t>(), gen<std::string>()}; } };
template <> struct Gen<In2> { static In2 make() { In2 r; r.a = gen<In1>(); r.s = "xyz"; if (symbool()) r.v.push_back(gen<In1>()); r.o = gen<std::optional<int>>(); return r; } };

template <class T> bool eq(const T& a, const T& b) { return a == b; }
template <class T> bool eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b) { return a && b ? eq(*a, *b) : !a && !b; }
template <class T> bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b) { return a && b ? eq(*a, *b) : !a && !b; }
template <class T> bool eq(const std::unordered_set<T>& a, const std::unordered_set<T>& b) { if (a.size() != b.size()) return false; for (auto& x : a) if (b.find(x) == b.end()) return false; return true; }
template <class T> bool eq(const std::unordered_map<int, T>& a, const std::unordered_map<int, T>& b) { if (a.size() != b.size()) return false; for (auto& x : a) { auto i = b.find(x.first); if (i == b.end() || !eq(i->second, x.second)) return false; } return true; }
template <class T> bool eqset(const T& a, const T& b) { if (a.size() != b.size()) return false; auto i = a.begin(); for (auto& x : b) { if (i == a.end() || !(*i == x)) return false; ++i; } return true; }
inline bool eq(const awl::vector_set<int>& a, const awl::vector_set<int>& b) { return eqset(a, b); }
inline bool eq(const awl::observable_set<int>& a, const awl::observable_set<int>& b) { return eqset(a, b); }
inline bool eq(float a, float b) { uint32_t x, y; std::memcpy(&x, &a, 4); std::memcpy(&y, &b, 4); return x == y; }
inline bool eq(double a, double b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
inline bool eq(const Dec& a, const Dec& b) { return a.to_bits() == b.to_bits(); }
// previous contents: everything that could survive a careless read
template <class T> struct Old { static T make() { return sym<T>(); } };
template <> struct Old<bool> { static bool make() { return symbool(); } };
template <> struct Old<FlagBitMap> { static FlagBitMap make() { return FlagBitMap({Flag::fb, Flag::fa, Flag::fj}); } };
template <class C> struct Old<std::basic_string<C>> { static std::basic_string<C> make() { return std::basic_string<C>(3, (C)'z'); } };
template <class T> struct Old<std::vector<T>> { static std::vector<T> make() { std::vector<T> v; for (int i = 0; i < 3; i++) v.push_back(Old<T>::make()); return v; } };
template <> struct Old<std::vector<bool>> { static std::vector<bool> make() { return std::vector<bool>(10, true); } };
template <class T> struct Old<std::deque<T>> { static std::deque<T> make() { std::deque<T> v; for (int i = 0; i < 3; i++) v.push_back(Old<T>::make()); return v; } };
template <class T, size_t N> struct Old<std::array<T, N>> { static std::array<T, N> make() { std::array<T, N> a; for (auto& x : a) x = Old<T>::make(); return a; } };
template <size_t N> struct Old<std::bitset<N>> { static std::bitset<N> make() { std::bitset<N> b; b.set(); return b; } };
template <class T> struct Old<std::optional<T>> { static std::optional<T> make() { return Old<T>::make(); } };
template <class T> struct Old<std::unique_ptr<T>> { static std::unique_ptr<T> make() { return std::unique_ptr<T>(new T(Old<T>::make())); } };
template <class T> struct Old<std::shared_ptr<T>> { static std::shared_ptr<T> make() { return std::make_shared<T>(Old<T>::make()); } };
template <class S> struct OldSet { static S make() { S s; s.insert(1); s.insert(5); return s; } };
template <> struct Old<std::set<int>> : OldSet<std::set<int>> {};
template <> struct Old<std::unordered_set<int>> : OldSet<std::unordered_set<int>> {};
template <> struct Old<awl::vector_set<int>> : OldSet<awl::vector_set<int>> {};
template <> struct Old<awl::observable_set<int>> : OldSet<awl::observable_set<int>> {};
template <class M> struct OldMap { static M make() { M m; m.insert(std::make_pair(1, Old<typename M::mapped_type>::make())); m.insert(std::make_pair(5, Old<typename M::mapped_type>::make())); return m; } };
template <class T> struct Old<std::map<int, T>> : OldMap<std::map<int, T>> {};
template <class T> struct Old<std::unordered_map<int, T>> : OldMap<std::unordered_map<int, T>> {};
template <class T> struct Old<awl::ring<T>> { static awl::ring<T> make() { awl::ring<T> v(3); v.push_back(Old<T>::make()); v.push_back(Old<T>::make()); return v; } };
template <> struct Old<Var> { static Var make() { return std::string("old"); } };
template <> struct Old<Time> { static Time make() { return Gen<Time>::make(); } };
template <> struct Old<Dec> { static Dec make() { return Gen<Dec>::make(); } };
template <> struct Old<In1> { static In1 make() { return {sym<int>(), true}; } };
template <> struct Old<Tup> { static Tup make() { return {sym<int16_t>(), "old"}; } };
template <> struct Old<In2> { static In2 make() { In2 r; r.a = Old<In1>::make(); r.s = "old"; r.v.push_back(r.a); r.v.push_back(r.a); r.o = sym<int>(); return r; } };
// what the target is before the read
template <class T> struct Blank { static T make() { return T{}; } };
template <class T> struct Blank<awl::ring<T>> { static awl::ring<T> make() { return awl::ring<T>(3); } };

#define RW_TYPES(X) X(i8, int8_t) X(u16, uint16_t) X(i32, int) X(u64, uint64_t) X(f64, double) X(boolean, bool) X(plainenum, Color) X(level, Level) \
 X(str, std::string) X(wstr, std::wstring) X(str16, std::u16string) X(vec, std::vector<int>) X(vecbool, std::vector<bool>) X(vecstr, std::vector<std::string>) X(vecrec, std::vector<In1>) \
 X(arr, std::array<int VF_COMMA 3>) X(arrbool, std::array<bool VF_COMMA 9>) X(arrstr, std::array<std::string VF_COMMA 2>) X(deq, std::deque<int>) X(deqstr, std::deque<std::string>) \
 X(set, std::set<int>) X(uset, std::unordered_set<int>) X(map, std::map<int VF_COMMA int>) X(mapvec, std::map<int VF_COMMA std::vector<int>>) X(umap, std::unordered_map<int VF_COMMA int>) \
 X(vset, awl::vector_set<int>) X(oset, awl::observable_set<int>) X(ring, awl::ring<int>) X(opt, std::optional<int>) X(optstr, std::optional<std::string>) X(optopt, std::optional<std::optional<int>>) X(uptr, std::unique_ptr<int>) X(sptr, std::shared_ptr<std::string>) \
 X(variant, Var) X(vecvar, std::vector<Var>) X(timept, Time) X(bits, std::bitset<11>) X(bitmap, FlagBitMap) X(dec, Dec) X(rec, In1) X(tup, Tup) X(nested, In2)
#define VF_COMMA ,
