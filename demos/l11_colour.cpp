// Removing a red node whose successor is black with one child: all paths must keep the same number of black nodes.
#include "Awl/QuickList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/SingleNodeIterator.h"
#include "Awl/VectorSet.h"
#include <cstdio>
using S = awl::vector_set<int>;
namespace awl { class VectorSetTest { public:
    using Color = S::Color;
    template <class N> static int black(const N* x) { if (!x) return 0; int l = black(x->left), r = black(x->right); if (l < 0 || l != r) return -1; return l + (x->color == Color::Black); }
    static int h(const S& s) { return black(s.m_root); }
    template <class N> static N* red_with_two(N* x) { if (!x) return nullptr; if (x->color == Color::Red && x->left && x->right) { auto y = x->right; while (y->left) y = y->left; if (y->color == Color::Black && y->right) return x; } auto p = red_with_two(x->left); return p ? p : red_with_two(x->right); }
    static int pick(S& s) { auto p = red_with_two(s.m_root); return p ? p->value : -1; }
}; }
int main()
{
    int tried = 0, bad = 0;
    for (int n = 4; n < 60; n++) { S s; for (int i = 0; i < n; i++) s.insert(i * 37 % 61); int v = awl::VectorSetTest::pick(s); if (v < 0) continue; tried++; s.erase(v); if (awl::VectorSetTest::h(s) < 0) bad++; }
    std::printf("%d of %d trees are not balanced after one removal\n", bad, tried); return bad || !tried;
}
