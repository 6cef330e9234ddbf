// L11: vector_set stays balanced. Every valid red-black tree of black height up to 2 (up to 15 elements) is built node by node, then
// one element is inserted at any place or any element is removed: afterwards the root is black, no red node has a red child, all
// paths have the same number of black nodes. The first two are also shown for every tree of four levels that is not balanced.
#include "vf.h"
#include "Awl/QuickList.h"
#include "Awl/DoubleNodeIterator.h"
#include "Awl/SingleNodeIterator.h"
#include "Awl/VectorSet.h"
enum { CAP = 12 };
VFG(int, n, 0)
struct T { int v; };
struct Less { bool operator()(const T& a, const T& b) const { return a.v < b.v; } };
using S = awl::vector_set<T, Less>;
namespace awl { class VectorSetTest { public:
    using Node = S::Node; using Color = S::Color;
    static Node* node(Node* parent, Color c)
    {
        Node* p = new (std::allocator<Node>().allocate(1)) Node(T{0}); p->parent = parent; p->color = c; p->left = p->right = nullptr; p->count = 0; vfg_n++; return p;
    }
    // a subtree of black height b; 'red': its root may be red; 'lowest': what the black nodes of the lowest level have, 0 any children, 1 none, 2 two red ones
    static Node* make(Node* parent, int b, bool red, int lowest)
    {
        bool r = red && (b || !lowest ? vf_choice(2, "root of the subtree: 0 black 1 red") != 0 : lowest == 2);
        if (!r && b == 0) return nullptr;
        Node* p = node(parent, r ? Color::Red : Color::Black); int c = r ? b : b - 1;
        p->left = make(p, c, !r, lowest); p->right = make(p, c, !r, lowest);
        return p;
    }
    static int number(S& s, Node* x, int k) { if (!x) return k; k = number(s, x->left, k); x->value.v = 2 * k; s.m_list.push_back(x); k = number(s, x->right, k + 1); x->count = (x->left ? x->left->count + 1 : 0) + (x->right ? x->right->count + 1 : 0); return k; }
    static void build(S& s, int b, int lowest = 0) { s.m_root = make(nullptr, b, false, lowest); number(s, s.m_root, 0); }
    // black height or -1
    static int valid(const Node* x, const Node* parent, int depth, int& k, bool& redred, bool& links)
    {
        if (!x) return 0;
        if (depth > CAP) { links = false; return -1; }
        if (x->parent != parent) links = false;
        if (x->color == Color::Red && parent && parent->color == Color::Red) redred = true;
        int l = valid(x->left, x, depth + 1, k, redred, links); k++; int r = valid(x->right, x, depth + 1, k, redred, links);
        if (l < 0 || r < 0 || l != r) return -1;
        return l + (x->color == Color::Black ? 1 : 0);
    }
    // removing the element k takes a black node without children out of its place
    static bool takes_black_leaf(S& s, int k)
    {
        Node* z = s.FindNodeByIndex(k); if (!z) return false;
        if (z->left && z->right) { z = z->right; while (z->left) z = z->left; }
        return !z->left && !z->right && z->parent && z->color == Color::Black;
    }
    static void check_height(const S& s)
    {
        int h = check_colors(s);
        vf_assert(h >= 0, "L11.black-leaf", "the paths of the tree have different numbers of black nodes after a black node without children has left it");
    }
    static void check(const S& s)
    {
        int h = check_colors(s);
        vf_assert(h >= 0, "L11.black-height", "the paths of the tree have different numbers of black nodes: the tree is not balanced");
        vf_cover("balanced");
    }
    static int check_colors(const S& s)
    {
        int k = 0; bool rr = false, links = true; int h = valid(s.m_root, nullptr, 0, k, rr, links);
        vf_assert(links && k == vfg_n, "L11.tree", "the tree does not hold all elements");
        vf_assert(!s.m_root || s.m_root->color == Color::Black, "L11.root", "the root of the tree is not black");
        vf_assert(!rr, "L11.red", "a red node has a red child");
        vf_cover("colours compared"); return h;
    }
    // any tree without a red child of a red node, whatever the number of black nodes on its paths
    static Node* any(Node* parent, int depth)
    {
        if (!depth) return nullptr;
        int c = vf_choice(parent->color == Color::Red ? 2 : 3, "subtree: 0 none 1 black 2 red"); if (!c) return nullptr;
        Node* p = node(parent, c == 1 ? Color::Black : Color::Red); p->left = any(p, depth - 1); p->right = any(p, depth - 1); return p;
    }
    // one child of the root is any tree of three levels, the other one has one level
    static void build_any(S& s) { Node* r = s.m_root = node(nullptr, Color::Black); if (vf_choice(2, "0 left 1 right is higher")) { r->left = any(r, 1); r->right = any(r, 3); } else { r->left = any(r, 3); r->right = any(r, 1); } number(s, r, 0); }
}; }
using V = awl::VectorSetTest;
// a node that has a child, or a red one, leaves its place
extern "C" void vfh_remove() { S s; V::build(s, 1 + vf_choice(2, "black height - 1")); int k = vf_choice(vfg_n, "element to remove"); if (V::takes_black_leaf(s, k)) return; s.erase(T{2 * k}); vfg_n--; V::check(s); vf_cover("removed"); }
// a black node without children leaves its place
extern "C" void vfh_remove_black_leaf() { S s; V::build(s, 1 + vf_choice(2, "black height - 1")); int k = vf_choice(vfg_n, "element to remove"); if (!V::takes_black_leaf(s, k)) return; s.erase(T{2 * k}); vfg_n--; V::check_height(s); }
extern "C" void vfh_insert() { S s; V::build(s, vf_choice(3, "black height")); int k = vf_choice(vfg_n + 1, "place of the new element"); s.insert(T{2 * k - 1}); vfg_n++; V::check(s); vf_cover("inserted"); }
// one level more: the lowest level always passes two red nodes on to the level above
extern "C" void vfh_insert_high() { S s; V::build(s, 2, 2); int k = vf_choice(vfg_n + 1, "place of the new element"); s.emplace(T{2 * k - 1}); vfg_n++; V::check(s); vf_cover("inserted high"); }
// the rule of the colours does not depend on the numbers of black nodes
extern "C" void vfh_colors_remove() { S s; V::build_any(s); int k = vf_choice(vfg_n, "element to remove"); s.erase(T{2 * k}); vfg_n--; V::check_colors(s); vf_cover("removed from any tree"); }
extern "C" void vfh_colors_insert() { S s; V::build_any(s); int k = vf_choice(vfg_n + 1, "place of the new element"); s.insert(T{2 * k - 1}); vfg_n++; V::check_colors(s); vf_cover("inserted into any tree"); }
extern "C" void vfh_ctl_black() { S s; s.insert(T{1}); s.insert(T{2}); vfg_n = 1; V::check(s); }
