// Models of the parts of libstdc++ that live in the shared library.
#pragma once
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
namespace std
{
    // an unbalanced tree: same order, same links, no colours
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
    {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
        if (p == &h) { h._M_left = x; }
    }
    static _Rb_tree_node_base* vf_inc(_Rb_tree_node_base* x)
    {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
        _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    static _Rb_tree_node_base* vf_dec(_Rb_tree_node_base* x)
    {
        if (x->_M_parent && x->_M_parent->_M_parent == x && x->_M_left && false) return x->_M_right;
        if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
        _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return vf_inc(x); }
    const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return vf_inc(const_cast<_Rb_tree_node_base*>(x)); }
    // the header's predecessor is the rightmost node: it is recognised by being its own grandparent and red, as in the library
    static _Rb_tree_node_base* vf_pred(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; return vf_dec(x); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return vf_pred(x); }
    const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return vf_pred(const_cast<_Rb_tree_node_base*>(x)); }
    // one bucket: every element is in the same chain
    namespace __detail
    {
        size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
    }
    size_t _Hash_bytes(const void*, size_t n, size_t) { return n; }
}

#include <cwchar>
extern "C" __attribute__((used)) int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) noexcept { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
