// reading older versions: an empty structure that has got fields, and a second read after a type mismatch
#include <iostream>
#include "Awl/Io/Vts.h"
#include "Awl/Io/VectorStream.h"
using namespace awl::io;
namespace v1 { struct E : awl::EmptyStringizable {}; struct S { E e; int b = 7; AWL_REFLECT(e, b) }; struct T { int a = 5; AWL_REFLECT(a) }; }
namespace v2 { struct E { int added = 3; AWL_REFLECT(added) }; struct S { E e; int b = 0; AWL_REFLECT(e, b) }; struct T { float a = 1.5f; AWL_REFLECT(a) }; }
int main()
{
    bool ok = true;
    {
        std::vector<uint8_t> v; VectorOutputStream out(v); WriteV(out, v1::S()); VectorInputStream in(v); v2::S s;
        try { ReadV(in, s); ok &= s.e.added == 3 && s.b == 7; } catch (const IoException&) { ok = false; }
        std::cout << "added " << s.e.added << " b " << s.b << std::endl;
    }
    {
        std::vector<uint8_t> v; VectorOutputStream out(v); Writer<std::variant<v1::T, int, float>> w; w.WriteNewPrototypes(out); w.WriteV(out, v1::T()); w.WriteV(out, v1::T());
        VectorInputStream in(v); Reader<std::variant<v2::T, int, float>> r; r.ReadOldPrototypes(in); v2::T t; int errors = 0;
        for (int i = 0; i < 2; i++) try { r.ReadV(in, t); } catch (const IoException&) { errors++; }
        ok &= errors == 2 && t.a == 1.5f; std::cout << "errors " << errors << " a " << t.a << std::endl;
    }
    return ok ? 0 : 1;
}
