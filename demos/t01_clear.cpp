// UpdateQueue: discarded updates, and updates whose copying fails, keep what they captured
#include <memory>
#include <new>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include "Awl/UpdateQueue.h"
static long blocks = 0;
void* operator new(std::size_t n) { void* p = std::malloc(n); if (!p) throw std::bad_alloc(); blocks++; return p; }
void operator delete(void* p) noexcept { if (p) blocks--; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) blocks--; std::free(p); }
struct Thrower { int* left; Thrower(int* l) : left(l) {} Thrower(const Thrower& o) : left(o.left) { if (*left == 0) throw 1; --*left; } void operator()() const {} };
int main()
{
    int bad = 0;
    { awl::UpdateQueue<> q; auto p = std::make_shared<int>(1); q.Push([p] {}); q.ClearPending(); if (p.use_count() != 1) { bad = 1; std::puts("cleared update keeps its capture"); } }
    for (int recycled = 0; recycled < 2; recycled++)
    {
        long before = blocks;
        { awl::UpdateQueue<> q; if (recycled) { q.Push([] {}); q.ApplyUpdates(); } int left = 2; std::function<void()> f{Thrower(&left)}; for (left = 0; left < 2; left++) { int n = left; try { q.Push(f); } catch (int) {} left = n; } left = 100; }
        if (blocks != before) { bad = 1; std::printf("%ld blocks lost, recycled %d\n", blocks - before, recycled); }
    }
    return bad;
}
