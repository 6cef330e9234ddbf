// a removed container of structures is skipped as a container of other structures
#include <iostream>
#include "Awl/Io/Vts.h"
#include "Awl/Io/VectorStream.h"
using namespace awl::io;
namespace v1 { struct A { int x = 1; AWL_REFLECT(x) }; struct B { std::string x = "b"; int y = 2; AWL_REFLECT(x, y) }; struct S { std::vector<A> a{{}, {}}; std::vector<B> removed{{}, {}, {}}; int last = 7; AWL_REFLECT(a, removed, last) };
 struct C { int x = 1; int y = 2; AWL_REFLECT(x, y) }; struct T { std::vector<A> a{{}, {}}; std::vector<C> removed{{}, {}, {}}; C c; AWL_REFLECT(a, removed, c) }; }
namespace v2 { using v1::A; using v1::C; struct S { std::vector<A> a; int last = 0; AWL_REFLECT(a, last) }; struct T { std::vector<A> a; C c{0, 0}; AWL_REFLECT(a, c) }; }
int main()
{
    bool ok = true;
    { std::vector<uint8_t> v; VectorOutputStream out(v); WriteV(out, v1::S()); VectorInputStream in(v); v2::S s; try { ReadV<v2::S, VectorInputStream, awl::mp::variant_from_structs<v2::S, std::string>>(in, s); ok &= s.last == 7 && in.End(); } catch (const IoException& e) { ok = false; std::cout << e.What() << "\n"; } }
    { std::vector<uint8_t> v; VectorOutputStream out(v); WriteV(out, v1::T()); VectorInputStream in(v); v2::T s; try { ReadV(in, s); ok &= s.c.y == 2 && in.End(); } catch (const IoException& e) { ok = false; std::cout << e.What() << "\n"; } }
    return ok ? 0 : 1;
}
