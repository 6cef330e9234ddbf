// vector_set: self assignment, throwing element constructors, nodes of a custom allocator.
#include "Awl/QuickList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/VectorSet.h"
#include <iostream>
static int nodes[8]; static bool fail;
template <class U> struct Al { using value_type = U; int id = 0; Al() = default; explicit Al(int i) : id(i) {} template <class V> Al(const Al<V>& o) : id(o.id) {}
    U* allocate(size_t n) { ++nodes[id]; return static_cast<U*>(::operator new(n * sizeof(U))); } void deallocate(U* p, size_t) { --nodes[id]; ::operator delete(p); } bool operator==(const Al&) const = default; };
struct T { int x; T(int v) : x(v) {} T(const T& o) : x(o.x) { if (fail && x == 2) throw 1; } bool operator<(const T& o) const { return x < o.x; } };
using S = awl::vector_set<T, std::less<>, Al<T>>;
int main()
{
    int bad = 0; auto say = [&](bool ok, const char* w) { if (!ok) { ++bad; std::cout << "FAIL " << w << "\n"; } };
    { S s({ 1, 2, 3 }, std::less<>(), Al<T>(5)); say(nodes[5] == 3, "list constructor uses the allocator"); S& r = s; s = r; say(s.size() == 3, "self assignment"); }
    nodes[5] = nodes[0] = 0;
    { S s(std::less<>(), Al<T>(5)); s.emplace(1); s.emplace(1); say(nodes[5] == 1, "emplace of a duplicate"); nodes[5] = 1; s.emplace(2);
      fail = true; try { S t(s); } catch (int) {} try { T v(2); s.erase(v); s.insert(v); } catch (int) {} fail = false; }
    say(nodes[5] == 0 && nodes[0] == 0, "nodes returned"); std::cout << (bad ? "" : "OK\n"); return bad;
}
