// Reading over a previous value: the old elements of a deque, set, map and ring and the old value of an optional and pointer survive.
#include "Awl/Io/VectorStream.h"
#include "Awl/Io/ReadWrite.h"
#include <cstdio>
using namespace awl::io;
static int bad = 0;
template <class T> void rt(const char* n, const T& w, T r) { std::vector<uint8_t> v; VectorOutputStream o(v); Write(o, w); VectorInputStream i(v); Read(i, r); if (!(r == w)) { std::printf("FAILED: %s keeps its previous content\n", n); bad = 1; } }
int main()
{
    rt<std::deque<int>>("deque", {1}, {7, 8}); rt<std::set<int>>("set", {1}, {7}); rt<std::map<int, int>>("map", {{1, 2}}, {{1, 3}, {4, 5}}); rt<std::optional<int>>("optional", {}, 5);
    rt<std::shared_ptr<int>>("shared_ptr", nullptr, std::make_shared<int>(3));
    { awl::ring<int> w(3), r(3); w.push_back(1); r.push_back(8); rt<awl::ring<int>>("ring", w, r); }
    if (!bad) std::puts("ok"); return bad;
}
