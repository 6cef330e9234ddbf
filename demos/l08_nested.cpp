// Finalize that takes another object from the pool gets the very object that is being finalized.
#include <memory>
#include "Awl/ObjectPool.h"
#include <cstdio>
struct A; static awl::object_pool<A>* pool; static bool bad = false, nested = false;
struct A : awl::pooled_object { void Finalize() override { if (nested) { nested = false; auto q = pool->make(); if (q.get() == this) { bad = true; std::puts("FAILED: handed out while being finalized"); } } } };
int main() { { awl::object_pool<A> p; pool = &p; auto a = p.make(); nested = true; a.reset(); } if (!bad) std::puts("ok"); return bad; }
