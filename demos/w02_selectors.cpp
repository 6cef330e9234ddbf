// a corrupted selector in the stream is used as an index (build without assertions, as a release build does)
#include <iostream>
#include "Awl/Io/Rw/VariantReadWrite.h"
#include "Awl/Io/ReadWrite.h"
#include "Awl/Io/Vts.h"
#include "Awl/Io/VectorStream.h"
using namespace awl::io;
struct A { int x = 1; AWL_REFLECT(x) };
template <class F> static bool io(F f) { try { f(); return false; } catch (const IoException&) { return true; } }
int main()
{
    bool ok = true;
    { std::vector<uint8_t> v; VectorOutputStream out(v); size_t index = 100000000; Write(out, index); VectorInputStream in(v); std::variant<int, std::string> x; ok &= io([&] { Read(in, x); }); std::cout << "variant " << ok << std::endl; }
    { std::vector<uint8_t> v; VectorOutputStream out(v); WriteV(out, A()); v[v.size() - 6] = 0xff; v[v.size() - 5] = 0xff; VectorInputStream in(v); A a; ok &= io([&] { ReadV(in, a); }); std::cout << "structure " << ok << std::endl; }
    { std::vector<uint8_t> v; VectorOutputStream out(v); size_t len = (size_t(1) << 62) + 1; Write(out, len); Write(out, len); VectorInputStream in(v); std::wstring s; ok &= io([&] { Read(in, s, LimitedContext(64)); }); std::cout << "string " << ok << std::endl; }
    return ok ? 0 : 1;
}
