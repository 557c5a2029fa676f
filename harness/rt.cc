// libstdc++'s out-of-line container primitives (list, red-black tree, hashing policy), written out so that they are verified as code rather than assumed.
// Compiled into the verifier's program only; the natively built replay uses libstdc++'s own.
#include <list>
#include <map>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this;}
void _List_node_base::_M_unhook() noexcept {_List_node_base* const n=this->_M_next; _List_node_base* const q=this->_M_prev; q->_M_next=n; n->_M_prev=q;}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this!=last) {
    last->_M_prev->_M_next=this; first->_M_prev->_M_next=last; this->_M_prev->_M_next=first;
    _List_node_base* const tmp=this->_M_prev; this->_M_prev=last->_M_prev; last->_M_prev=first->_M_prev; first->_M_prev=tmp;
  }
}
}
// unbalanced insertion keeps every ordering guarantee of the map interface
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {x=x->_M_right; while (x->_M_left) x=x->_M_left;}
  else {_Rb_tree_node_base* y=x->_M_parent; while (x==y->_M_right) {x=y; y=y->_M_parent;} if (x->_M_right!=y) x=y;}
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right;
  else if (x->_M_left) {_Rb_tree_node_base* y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y;}
  else {_Rb_tree_node_base* y=x->_M_parent; while (x==y->_M_left) {x=y; y=y->_M_parent;} x=y;}
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
  if (left) {p->_M_left=x; if (p==&h) {h._M_parent=x; h._M_right=x;} else if (p==h._M_left) h._M_left=x;}
  else {p->_M_right=x; if (p==h._M_right) h._M_right=x;}
}
}
