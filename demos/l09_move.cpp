// Moving a released guard re-arms it; assigning drops or invents actions.
#include "Awl/ScopeGuard.h"
#include <cstdio>
int main()
{
    int n = 0, bad = 0; auto f = [&] { n++; };
    { auto a = awl::make_scope_guard(f); a.release(); auto b = std::move(a); } if (n != 0) { std::puts("FAILED: a released guard ran its action after a move"); bad = 1; }
    n = 0; { awl::virtual_guard a = awl::make_virtual_guard([] {}); a.release(); awl::virtual_guard b = awl::make_virtual_guard(f); a = std::move(b); } if (n != 1) { std::puts("FAILED: the action was lost by an assignment"); bad = 1; }
    if (!bad) std::puts("ok"); return bad;
}
