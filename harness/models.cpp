// Trusted models of compiled library code (symbolic builds only).
#include <string>
#include <bits/stl_tree.h>
template class std::basic_string<char>;

namespace std {
// Unbalanced insertion keeps the search-tree order, which is all that callers
// can observe.
static _Rb_tree_node_base* vf_inc(_Rb_tree_node_base* x) {
  if (x->_M_right != 0) {
    x = x->_M_right;
    while (x->_M_left != 0) x = x->_M_left;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static _Rb_tree_node_base* vf_dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) {
    x = x->_M_right;
  } else if (x->_M_left != 0) {
    _Rb_tree_node_base* y = x->_M_left;
    while (y->_M_right != 0) y = y->_M_right;
    x = y;
  } else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return vf_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return vf_inc(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return vf_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return vf_dec(const_cast<_Rb_tree_node_base*>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x,
                                   _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) throw() {
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left) {
      header._M_left = x;
    }
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
}  // namespace std
