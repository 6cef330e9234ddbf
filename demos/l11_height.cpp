// The height of a vector_set after insertions and removals: the red-black tree must stay balanced.
#include "Awl/QuickList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/SingleNodeIterator.h"
#include "Awl/VectorSet.h"
#include <cstdio>
#include <cmath>
#include <random>
#include <set>
using S = awl::vector_set<int>;
namespace awl { class VectorSetTest { public:
    template <class N> static int height(const N* x) { return x ? 1 + std::max(height(x->left), height(x->right)) : 0; }
    template <class N> static int black(const N* x) { if (!x) return 0; int l = black(x->left), r = black(x->right); bool red = uint8_t(x->color) == 0;
        if (l < 0 || r < 0 || l != r) return -1; if (red && ((x->left && uint8_t(x->left->color) == 0) || (x->right && uint8_t(x->right->color) == 0))) return -1; return l + !red; }
    // a leaf that is not on a longest path, or -1
    static int spare(const S& s) { auto x = s.m_root; while (x) { auto l = x->left, r = x->right; auto big = height(l) >= height(r) ? l : r; auto small = big == l ? r : l; if (small) { while (small->left || small->right) small = small->left ? small->left : small->right; return small->value; } x = big; } return -1; }
    static int h(const S& s) { return height(s.m_root); }
    static bool rb(const S& s) { return black(s.m_root) >= 0; }
}; }
static bool check(const S& s, const char* what) { int h = awl::VectorSetTest::h(s); int lim = (int)(2 * std::log2((double)s.size() + 1)); if (h > lim) { std::printf("%s: %zu elements, height %d, a balanced tree has at most %d\n", what, s.size(), h, lim); return false; } return true; }
int main()
{
    bool ok = true;
    { S s; const int n = 1 << 16; for (int i = 0; i < n; i++) s.insert(i); 
      for (int i = 0; i + 40 < n; i++) s.erase(i); ok &= check(s, "ascending, then erased from the front"); }
    { S s; for (int i = 0; i < 4096; i++) s.insert(i); for (;;) { int v = awl::VectorSetTest::spare(s); if (v < 0) break; s.erase(v); if (!check(s, "leaves erased beside the longest path")) { ok = false; break; } }
      int h = awl::VectorSetTest::h(s); std::printf("left %zu height %d\n", s.size(), h); }
    { S s; for (int i = 0; i < 1000; i++) s.insert(i); for (int i = 1000; i < 60000; i++) { s.insert(i); s.erase(i - 1000); } ok &= check(s, "a queue"); }
    { S s; std::set<int> r; std::mt19937 g(7); for (int i = 0; i < 200000; i++) { int k = g() % 500; if (g() % 2) { s.insert(k); r.insert(k); } else { s.erase(k); r.erase(k); } if (!(i % 97)) { if (!std::equal(s.begin(), s.end(), r.begin(), r.end())) { std::puts("content"); return 2; } if (!awl::VectorSetTest::rb(s)) { std::puts("random: not a red-black tree"); ok = false; break; } } } }
    return ok ? 0 : 1;
}
