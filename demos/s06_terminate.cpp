// A failing write of the last block must reach the caller as an exception.
#include "Awl/Io/EuphoricallySerializable.h"
#include <iostream>
using namespace awl::io;
struct S { int a = 1; AWL_REFLECT(a) };
struct Bad : SequentialOutputStream { void Write(const uint8_t*, size_t) override { throw IoError("disk full"); } };
int main() { std::set_terminate([] { std::cout << "FAIL: terminate" << std::endl; _Exit(1); }); S s; EuphoricallySerializable<S> e(s); Bad b; try { e.Write(b); } catch (const IoException&) { std::cout << "OK\n"; return 0; } std::cout << "FAIL: swallowed\n"; return 1; }
