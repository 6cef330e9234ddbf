// The ring: position size() is accepted by at(); a default ring has an indeterminate size; a moved-from ring keeps its size;
// an element constructor that throws leaves a counted slot without an element; pushing the ring's own front when full copies a dead element.
#include "Awl/Ring.h"
#include <cstdio>
#include <new>
#include <string>
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s\n", #c); bad = 1; } } while (0)
static int live = 0; static bool boom = false;
struct E { int v; E(int x) : v(x) { live++; } E(const E& o) : v(o.v) { if (boom) throw 1; live++; } ~E() { v = -1; live--; } };
int main()
{
    { awl::ring<int> r(3); r.push_back(1); bool t = false; try { r.at(1); } catch (const std::out_of_range&) { t = true; } CHECK(t); }
    { alignas(awl::ring<int>) unsigned char b[sizeof(awl::ring<int>)]; for (auto& x : b) x = 0x55; auto* r = new (b) awl::ring<int>(); CHECK(r->size() == 0); CHECK(r->empty()); }
    { awl::ring<int> r(3); r.push_back(1); awl::ring<int> q(std::move(r)); CHECK(r.size() == 0); }
    { awl::ring<E> r(2); r.push_back(E(1)); E x(2); boom = true; try { r.push_back(x); } catch (int) {} boom = false; CHECK(live == (int)r.size() + 1); }
    live = 0; { awl::ring<E> r(2); r.push_back(E(1)); r.push_back(E(2)); r.push_back(r.front()); CHECK(r.back().v == 1); }
    if (!bad) std::puts("ok"); return bad;
}
