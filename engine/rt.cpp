// Trusted models of libstdc++ internals that live in the shared library (list hooks, red-black tree
// primitives, string growth), written as plain C++ and linked into the verified module.
// The tree is kept as an unbalanced search tree: same iteration order, same node identity.
#include <list>
#include <map>
#include <string>
#include <cstddef>
#include <unordered_map>
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
	this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept {
	_List_node_base* const n = this->_M_next; _List_node_base* const q = this->_M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
	if(this != last) {
		last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
		_List_node_base* const t = this->_M_prev;
		this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept {
	_List_node_base* t = this;
	do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while(t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
	if(x._M_next != &x) {
		if(y._M_next != &y) {
			std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
			x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
		} else {
			y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y;
			x._M_next = x._M_prev = &x; }
	} else if(y._M_next != &y) {
		x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x;
		y._M_next = y._M_prev = &y; } }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
	if(x->_M_right) { x = x->_M_right; while(x->_M_left) x = x->_M_left; }
	else { _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_right) { x = y; y = y->_M_parent; } if(x->_M_right != y) x = y; }
	return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
	if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;   // header
	else if(x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while(y->_M_right) y = y->_M_right; x = y; }
	else { _Rb_tree_node_base* y = x->_M_parent; while(x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
	return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
	x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
	if(left) { p->_M_left = x; if(p == &h) { h._M_parent = x; h._M_right = x; } else if(p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if(p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
	_Rb_tree_node_base* nxt = 0;
	if(h._M_left == z) { h._M_left = _Rb_tree_increment(z); }
	if(h._M_right == z) { h._M_right = (z->_M_left || z->_M_parent != &h) ? _Rb_tree_decrement(z) : &h; }
	auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
		if(h._M_parent == u) h._M_parent = v; else if(u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v;
		if(v) v->_M_parent = u->_M_parent; };
	if(!z->_M_left) repl(z, z->_M_right);
	else if(!z->_M_right) repl(z, z->_M_left);
	else {
		nxt = z->_M_right; while(nxt->_M_left) nxt = nxt->_M_left;
		if(nxt->_M_parent != z) { repl(nxt, nxt->_M_right); nxt->_M_right = z->_M_right; nxt->_M_right->_M_parent = nxt; }
		repl(z, nxt); nxt->_M_left = z->_M_left; nxt->_M_left->_M_parent = nxt; }
	if(!h._M_parent) { h._M_left = h._M_right = &h; }
	return z; }
}
namespace std {         // hash tables: any hash will do
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
	const unsigned char* c = static_cast<const unsigned char*>(p); size_t h = seed; for(size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 31 ? 31 : 2 * n + 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
	return e + i > b ? pair<bool, size_t>(true, e + i < 31 ? 31 : 2 * (e + i) + 1) : pair<bool, size_t>(false, 0); }
}
}
template class std::basic_string<char>;
extern "C" int vc_rt_anchor() { return 0; }
