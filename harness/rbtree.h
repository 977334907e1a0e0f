// Stand-ins for the out-of-line parts of std::map (libstdc++): a plain binary search tree, without rebalancing.
#pragma once
#include <map>
namespace std {
typedef _Rb_tree_node_base NB;
static NB *rbMin(NB *x) { while (x->_M_left) x = x->_M_left; return x; }
static NB *rbMax(NB *x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base *_Rb_tree_increment(NB *x) throw() { if (x->_M_right) return rbMin(x->_M_right); NB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const _Rb_tree_node_base *_Rb_tree_increment(const NB *x) throw() { return _Rb_tree_increment(const_cast<NB *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(NB *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // the header
    if (x->_M_left) return rbMax(x->_M_left); NB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const NB *x) throw() { return _Rb_tree_decrement(const_cast<NB *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB *x, NB *p, NB &h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(NB *const z, NB &h) throw() {
    NB *r;
    if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left;
    else { r = rbMin(z->_M_right); if (r->_M_parent != z) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; } r->_M_left = z->_M_left; z->_M_left->_M_parent = r; }
    if (r) r->_M_parent = z->_M_parent;
    if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
    if (h._M_left == z) h._M_left = h._M_parent ? rbMin(h._M_parent) : &h; if (h._M_right == z) h._M_right = h._M_parent ? rbMax(h._M_parent) : &h;
    return z;
}
}
