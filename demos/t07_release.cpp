// UpdateTask::release() of a task that has already finished: its frame is never destroyed
#include "Awl/Coro/UpdateTask.h"
#include <cstdio>
#include <cstdlib>
#include <new>
static long blocks = 0;
void* operator new(std::size_t n) { blocks++; return std::malloc(n); }
void operator delete(void* p) noexcept { if (p) blocks--; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) blocks--; std::free(p); }
static awl::UpdateTask immediate() { co_return; }
int main() { long before = blocks; { auto t = immediate(); t.release(); } if (blocks != before) { std::printf("FAILED: %ld frames leaked\n", blocks - before); return 1; } std::puts("ok"); return 0; }
