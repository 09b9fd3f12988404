// The parts of libstdc++'s std::map and std::set that live in its compiled library, written for verification: a binary
// search tree without rebalancing. Lookups, insertions, erasures and traversals see the same order; only depth differs.
#pragma once
#include <map>
#include <set>
namespace std {
typedef _Rb_tree_node_base* VpNode;
static VpNode vp_increment(VpNode x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } VpNode y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
static VpNode vp_decrement(VpNode x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { VpNode y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } VpNode y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vp_increment(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return vp_increment(const_cast<VpNode>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vp_decrement(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return vp_decrement(const_cast<VpNode>(x)); }
// the header node is red, every other black: decrementing the end iterator is recognised by its colour
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() { x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black; if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
static void vp_replace(VpNode z, VpNode y, _Rb_tree_node_base& h) { VpNode p = z->_M_parent; if (h._M_parent == z) h._M_parent = y; else if (p->_M_left == z) p->_M_left = y; else p->_M_right = y; if (y) y->_M_parent = p; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  if (h._M_left == z) h._M_left = z->_M_right ? z->_M_right : z->_M_parent; if (z->_M_right && h._M_left == z->_M_right) while (h._M_left->_M_left) h._M_left = h._M_left->_M_left;
  if (h._M_right == z) h._M_right = z->_M_left ? z->_M_left : z->_M_parent; if (z->_M_left && h._M_right == z->_M_left) while (h._M_right->_M_right) h._M_right = h._M_right->_M_right;
  if (!z->_M_left) vp_replace(z, z->_M_right, h); else if (!z->_M_right) vp_replace(z, z->_M_left, h);
  else { VpNode y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y != z->_M_right) { vp_replace(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } vp_replace(z, y, h); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z; }
}
