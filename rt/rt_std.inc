// Bodies of libstdc++ functions that are not in headers: used by the symbolic run and by replays of schedules.
namespace std {
// red-black tree primitives: kept as a plain ordered tree (balancing does not change the container's meaning)
static _Rb_tree_node_base* rt_inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
static _Rb_tree_node_base* rt_dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rt_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rt_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rt_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rt_dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // header is the only red node
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  _Rb_tree_node_base *lm = h._M_left, *rm = h._M_right;
  if (lm == z) lm = rt_inc(z); if (rm == z) rm = (z->_M_left || z != h._M_parent) ? rt_dec(z) : &h;
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!h._M_parent) { h._M_left = h._M_right = &h; } else { h._M_left = lm; h._M_right = rm; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { auto t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
// hash table growth policy: sizes do not affect the container's meaning
static const size_t rt_primes[] = {13, 29, 59, 127, 257, 541, 1109};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : rt_primes) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n | 1; return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize || bkt == 1) { size_t want = elt + ins; if (want <= bkt && bkt != 1) { _M_next_resize = bkt; return {false, 0}; } return {true, _M_next_bkt(want < 2 * bkt && bkt != 1 ? 2 * bkt : want)}; }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* q = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + q[i]; return h; }
}  // namespace std
