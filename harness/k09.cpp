// K09, part 1: the types of tuples and getters, type names and their hashes, the collection of the types a structure stores (the values: k09b.cpp).
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "Awl/Mp/VariantFromStructs.h"
#include "Awl/Mp/TypeHash.h"
#include "Awl/Getters.h"
#include "Awl/FunctionTraits.h"
using namespace awl; using namespace awl::mp;
// reflected members: references to the own members, in the order of the list
struct P { int a = 1; short b = 2; char c = 3; int d = 4; AWL_REFLECT(d, a, c) };
struct Q { P p; long long n = 5; AWL_TUPLIZABLE(p, n) };
static_assert(std::is_same_v<tuplizable_traits<P>::Tie, std::tuple<int&, int&, char&>> && std::is_same_v<tuplizable_traits<P>::ConstTie, std::tuple<const int&, const int&, const char&>>, "K09: the tuple of an object gives access as the object does");
static_assert(std::is_same_v<decltype(object_as_tuple(std::declval<const P&>())), std::tuple<const int&, const int&, const char&>>, "K09: a constant object is not changed through its tuple");
static_assert(is_reflectable_v<P> && !is_reflectable_v<Q> && is_tuplizable_v<P> && is_tuplizable_v<Q> && !is_tuplizable_v<int> && !is_reflectable_v<std::string>, "K09: exactly the classes that list their members are reflectable");
struct M { int x = 0, y = 0; AWL_TUPLIZABLE(x, y) }; AWL_MEMBERWISE_EQUATABLE_AND_COMPARABLE(M)
static_assert(requires(const M& a, const M& b) { { a == b } -> std::same_as<bool>; { a != b } -> std::same_as<bool>; { a < b } -> std::same_as<bool>; { a > b } -> std::same_as<bool>; { a <= b } -> std::same_as<bool>; { a >= b } -> std::same_as<bool>; }, "K09: the memberwise operators exist");
// getters
struct G { int v = 3; const char* s = "x"; constexpr int twice() const { return 2 * v; } constexpr const int& ref() const { return v; } AWL_TUPLIZABLE(s, v) };
static_assert(std::is_same_v<field_getter<G, int>::value_type, int> && std::is_same_v<func_getter<G, int>::object_type, G> && std::is_same_v<std::invoke_result_t<tuplizable_getter<G, 1>, const G&>, const int&>, "K09: a getter has the type of its part");
static_assert(std::is_same_v<decltype(make_getter(&G::v)), field_getter<G, int>> && std::is_same_v<decltype(make_getter(&G::twice)), func_getter<G, int>>, "K09: a getter is made for the part it is made of");
// tuple helpers
template <class T> struct Box { T v{}; int made = 1; constexpr Box() = default; constexpr Box(const T& t) : v(t), made(2) {} };
template <size_t I> struct At { long v = -1; constexpr At() = default; constexpr At(long t) : v(t * 10 + I) {} };
using T4 = std::tuple<bool, char, int, long>; using V4 = std::variant<long, char, bool, int>;
static_assert(find_tuple_type_v<bool, T4> == 0 && find_tuple_type_v<char&, T4> == 1 && find_tuple_type_v<int, T4> == 2 && find_tuple_type_v<long, T4> == 3, "K09: a type is found at its own index in a tuple");
static_assert(find_variant_type_v<long, V4> == 0 && find_variant_type_v<char&, V4> == 1 && find_variant_type_v<bool, V4> == 2 && find_variant_type_v<int, V4> == 3, "K09: a type is found at its own index in a variant");
static_assert(map_types_t2v<T4, V4>() == std::array<size_t, 4>{2, 1, 3, 0} && map_types_t2t<std::tuple<long, int, long>, T4>() == std::array<size_t, 3>{3, 2, 3}, "K09: the map of types has the index of every type");
static_assert(sizeof_tuple(std::tuple<int, bool, double>{}) == sizeof(int) + sizeof(bool) + sizeof(double), "K09: the size of a tuple is the sum of the sizes of its elements");
// names of types
constexpr bool text(const auto& n, const char* s) { size_t i = 0; for (; s[i]; i++) if (i >= n.size() || n[i] != s[i]) return false; return i == n.size(); }
template <size_t N> constexpr bool number() { auto f = mp::helpers::FormatNumber<N>(); size_t v = 0; for (size_t i = 0; i < f.size(); i++) { if (f[i] < '0' || f[i] > '9' || (i == 0 && f[i] == '0' && f.size() > 1)) return false; v = v * 10 + (size_t)(f[i] - '0'); } return v == N && f.size() > 0; }
template <size_t... I> constexpr bool numbers(std::index_sequence<I...>) { return (number<I>() && ...); }
static_assert(numbers(std::make_index_sequence<210>()) && number<999>() && number<1000>() && number<1001>() && number<9999999999>() && number<10000000000>() && number<(size_t)-1>(), "K09: a number in a name is its decimal form");
enum class E8 : uint8_t { a }; enum E32 : int32_t { b };
static_assert(text(make_type_name<int8_t>(), "int8_t") && text(make_type_name<uint64_t>(), "int64_t") && text(make_type_name<bool>(), "int8_t") && text(make_type_name<double>(), "float64_t") && text(make_type_name<float>(), "float32_t"), "K09: the name of a number is its kind and size");
static_assert(text(make_type_name<E8>(), "int8_t") && text(make_type_name<E32>(), "int32_t") && text(make_type_name<std::atomic<int64_t>>(), "int64_t") && text(make_type_name<std::chrono::system_clock::time_point>(), "int64_t"), "K09: the name of a type is the name of what it is stored as");
static_assert(text(make_type_name<std::map<std::string, std::optional<std::pair<int, E8>>>>(), "sequence<pair<sequence<int8_t>, optional<pair<int32_t, int8_t>>>>") && text(make_type_name<std::pair<const short, double>>(), "pair<int16_t, float64_t>"), "K09: the name of a composed type names its parts in order");
static_assert(text(make_type_name<std::array<int, 12>>(), "array<int32_t, 12>") && text(make_type_name<std::array<std::array<char, 0>, 100>>(), "array<array<int8_t, 0>, 100>"), "K09: the name of an array has its element and its size");
static_assert(text(make_type_name<std::variant<int, P, double>>(), "variant<int32_t, struct, float64_t, >") && text(make_type_name<std::unique_ptr<P>>(), "pointer<struct>") && text(make_type_name<std::shared_ptr<int>>(), "pointer<int32_t>") && text(make_type_name<long*>(), "pointer<int64_t>"), "K09: the name of a variant or pointer names its types in order");
static_assert(text(make_type_name<decimal<uint64_t, 4>>(), "decimal") && text(make_type_name<decimal<uint64_t, 6>>(), "decimal<int64_t, 6>"), "K09: the name of a decimal has its representation");
template <class A, class B> constexpr bool alike(bool want) { constexpr auto a = make_type_name<A>(); constexpr auto b = make_type_name<B>(); bool eq = a.size() == b.size(); for (size_t i = 0; eq && i < a.size(); i++) eq = a[i] == b[i]; return eq == want && (a == b) == want && (a != b) == !want && (make_type_hash<A>() == make_type_hash<B>()) == want; }
template <class A, class B> constexpr bool same() { return alike<A, B>(true); }
template <class A, class... B> constexpr bool other() { return (alike<A, B>(false) && ...); }
template <class... T> struct All { template <class A, class... B> static constexpr bool go() { if constexpr (sizeof...(B) == 0) return true; else return other<A, B...>() && go<B...>(); } static constexpr bool distinct = go<T...>(); };
static_assert(All<int8_t, int16_t, int, int64_t, float, double, std::vector<int8_t>, std::vector<int>, std::vector<float>, std::optional<int>, std::optional<int64_t>, std::array<int, 1>, std::array<int, 10>, std::array<int, 11>, std::array<int, 100>, std::array<int64_t, 1>, std::pair<int, int64_t>, std::pair<int64_t, int>, std::variant<int, int64_t>, std::variant<int64_t, int>, std::variant<int, int64_t, float>, std::unique_ptr<int>, std::unique_ptr<float>, P, decimal<uint64_t, 4>, decimal<uint64_t, 5>, decimal<uint64_t, 6>, std::vector<std::vector<int>>, std::vector<std::optional<int>>, std::optional<std::vector<int>>>::distinct, "K09: types that are stored differently have different names and hashes");
static_assert(same<int, unsigned>() && same<std::vector<int>, std::list<unsigned>>() && same<std::map<int, char>, std::vector<std::pair<const int, bool>>>() && same<std::unique_ptr<int>, std::shared_ptr<int>>() && same<std::set<long>, std::deque<uint64_t>>() && same<std::atomic<int>, E32>(), "K09: types that are stored alike have one name and hash");
constexpr bool hashed() { fixed_string<char, 3> a("abc"), b("abd"), c("bbc"), d("acb"); awl::crypto::Int64Hash h; return calc_type_hash(a) == h(a.begin(), a.end()) && calc_type_hash(a) != calc_type_hash(b) && calc_type_hash(a) != calc_type_hash(c) && calc_type_hash(a) != calc_type_hash(d) && calc_type_hash(a) == calc_type_hash(fixed_string<char, 3>("abc")); }
static_assert(hashed(), "K09: the hash of a type is the checksum of the characters of its name");
// collection of the types
struct I { P p; std::vector<Q> none; AWL_REFLECT(p) }; struct R { std::optional<float> w; std::pair<short, bool> k; std::map<int, std::optional<I>> m; std::variant<long, std::pair<char, std::string>> v; std::unique_ptr<double> d; std::array<P, 2> a; std::vector<float> f; AWL_REFLECT(m, v, d, a, f, w, k) };
struct Old { int a; AWL_REFLECT(a) }; struct Gone { char c; AWL_REFLECT(c) }; namespace awl::mp { template <> struct type_converter<Old> { using extra_tuple = std::tuple<Gone, short>; }; }
template <class T, class Tuple> constexpr size_t times = 0; template <class T, class... E> constexpr size_t times<T, std::tuple<E...>> = (size_t(0) + ... + std::is_same_v<T, E>); template <class T, class... E> constexpr size_t times<T, std::variant<E...>> = (size_t(0) + ... + std::is_same_v<T, E>);
template <class V, class... T> constexpr bool exactly = ((times<T, V> == 1) && ...) && std::variant_size_v<V> == sizeof...(T);
static_assert(exactly<variant_from_struct<R>, R, std::optional<float>, float, short, bool, std::map<int, std::optional<I>>, int, std::optional<I>, I, P, char, std::variant<long, std::pair<char, std::string>>, long, std::string, std::unique_ptr<double>, double, std::array<P, 2>, std::vector<float>>, "K09: every type that a structure stores is collected exactly once, and no other one");
static_assert(exactly<variant_from_structs<P, Old, I>, P, int, char, Old, Gone, short, I> || exactly<variant_from_structs<P, Old, I>, P, int, char, Old, Gone, I, short>, "K09: the types of deleted fields are collected");
static_assert(times<Gone, type_collector<Old>::Tuple> == 1 && times<short, type_collector<Old>::Tuple> == 1 && times<int, type_collector<Old>::Tuple> == 1, "K09: the types of deleted fields are collected with their structure");
static_assert(std::is_same_v<type_collector<std::string>::Tuple, std::tuple<std::string>> && std::is_same_v<type_collector<std::vector<int>>::Tuple, std::tuple<std::vector<int>>> && std::is_same_v<type_collector<std::array<char, 3>>::Tuple, std::tuple<std::array<char, 3>>> && std::is_same_v<type_collector<std::wstring>::Tuple, std::tuple<std::wstring>>, "K09: sequences of numbers are stored as one type");
static_assert(std::is_same_v<tuple_to_variant<std::tuple<int, char, int, long, char, int>>, std::variant<int, char, long>> && std::is_same_v<tuple_to_variant<std::tuple<P>>, std::variant<P>>, "K09: the variant of a tuple has every type once, in the order of the first ones");
static_assert(variant_contains<V4, bool> && variant_contains<V4, long> && variant_contains<V4, int> && !variant_contains<V4, unsigned> && !variant_contains<V4, const int>, "K09: a variant contains its own types");
static_assert(std::is_same_v<split_variant<std::variant<float, char, double, int>, std::is_integral>::matching, std::variant<char, int>> && std::is_same_v<split_variant<std::variant<float, char, double, int>, std::is_integral>::non_matching, std::variant<float, double>> && std::is_same_v<filter_variant<std::variant<float>, std::is_integral>, std::variant<std::monostate>> && std::is_same_v<split_variant<std::variant<char>, std::is_integral>::non_matching, std::variant<std::monostate>>, "K09: every type of a variant is on exactly one side of its partition, in order");
// fixed strings
// pointers and functions
static_assert(std::is_same_v<remove_pointer_t<int*>, int> && std::is_same_v<remove_pointer_t<int* const>, int> && std::is_same_v<remove_pointer_t<std::shared_ptr<P>>, P> && std::is_same_v<remove_pointer_t<std::unique_ptr<P>>, P> && std::is_same_v<remove_pointer_t<P>, P>, "K09: the target of a pointer");
static_assert(is_pointer_v<int*> && is_pointer_v<std::unique_ptr<int>> && is_pointer_v<std::shared_ptr<int>> && !is_pointer_v<int> && !is_pointer_v<std::optional<int>> && !is_copyable_pointer_v<std::unique_ptr<int>> && is_copyable_pointer_v<std::shared_ptr<int>> && is_copyable_pointer_v<int*> && !is_smart_pointer_v<int*>, "K09: the kinds of pointers");
static_assert(is_specialization_v<std::vector<int>, std::vector> && !is_specialization_v<std::list<int>, std::vector> && is_specialization_v<std::pair<int, char>, std::pair>, "K09: specializations of a template");
struct Fn { long operator()(int, char&, const P&) const; };
static_assert(function_traits<Fn>::arity == 3 && std::is_same_v<function_traits<Fn>::result_type, long> && std::is_same_v<function_traits<Fn>::arg<0>::type, int> && std::is_same_v<function_traits<Fn>::arg<1>::type, char&> && std::is_same_v<function_traits<Fn>::arg<2>::type, const P&>, "K09: the parameters and the result of a function");
