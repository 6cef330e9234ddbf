// a failed read of an object that cannot be moved leaves it half read if the error is not an I/O exception
#include <iostream>
#include <atomic>
#include "Awl/Io/VersionTolerantSerializable.h"
#include "Awl/Io/ReadWrite.h"
using namespace awl::io;
struct S { std::atomic<int> a{1}; std::string s; AWL_REFLECT(a, s) };
int main()
{
    S x; x.a = 2; x.s = "new"; std::vector<uint8_t> v; VectorOutputStream out(v); VersionTolerantSerializable<S>(x).Write(out);
    for (size_t i = v.size() - 11; i < v.size() - 3; i++) v[i] = 0x7f; // the length of the string
    S y; y.s = "old"; VectorInputStream in(v); bool thrown = false;
    try { VersionTolerantSerializable<S>(y).Read(in); } catch (...) { thrown = true; }
    std::cout << thrown << " " << y.a << " " << y.s << std::endl; return thrown && y.a == 1 && y.s == "old" ? 0 : 1;
}
