// The parts of libstdc++'s list and map that live in its shared library (trees are kept ordered, not balanced).
#pragma once
#include <list>
#include <map>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
typedef _Rb_tree_node_base NB_;
static NB_* vp_inc(NB_* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB_* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NB_* vp_dec(NB_* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { NB_* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } NB_* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
NB_* _Rb_tree_increment(NB_* x) noexcept { return vp_inc(x); }
const NB_* _Rb_tree_increment(const NB_* x) noexcept { return vp_inc(const_cast<NB_*>(x)); }
NB_* _Rb_tree_decrement(NB_* x) noexcept { return vp_dec(x); }
const NB_* _Rb_tree_decrement(const NB_* x) noexcept { return vp_dec(const_cast<NB_*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB_* x, NB_* p, NB_& h) noexcept {
	x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // the header alone is red: that is how decrement recognises it
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
}
