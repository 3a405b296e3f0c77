// Bitcode models of the parts of libstdc++/libc that live in shared libraries (so have no IR available): exception
// classes, __throw_* helpers, red-black tree helpers, and simple C string functions.  They follow libstdc++'s
// definitions; every run linked against them is cross-checked by native replays that use the real library.
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <variant>
#include <optional>
#include <functional>
#include <map>
#include <list>
#include <any>
#include <cstdlib>
#include <system_error>

template class std::basic_string<char>;

extern "C" {
int __vs_errno;
[[noreturn]] void __vs_throw_bad_alloc() { throw std::bad_alloc(); }

}

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

static const char* vs_dup(const char* s, size_t n) {
   char* p = (char*)malloc(n + 1);
   memcpy(p, s, n);
   p[n] = 0;
   return p;
}
__cow_string::__cow_string() { _M_p = vs_dup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = vs_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = vs_dup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = vs_dup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept {
   if (this != &o) { free((void*)_M_p); _M_p = vs_dup(o._M_p, strlen(o._M_p)); }
   return *this;
}
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = vs_dup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept {
   const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this;
}

#define BASE2(C)                                                                                                       \
   C::C(const string& s) : exception(), _M_msg(s) {}                                                                   \
   C::C(const char* s) : exception(), _M_msg(s, strlen(s)) {}                                                          \
   C::C(const C& o) noexcept : exception(), _M_msg(o._M_msg) {}                                                        \
   C& C::operator=(const C& o) noexcept { _M_msg = o._M_msg; return *this; }                                           \
   C::C(C&& o) noexcept : exception(), _M_msg(std::move(o._M_msg)) {}                                                  \
   C& C::operator=(C&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; }                                     \
   C::~C() noexcept {}                                                                                                 \
   const char* C::what() const noexcept { return _M_msg._M_p; }
BASE2(runtime_error)
BASE2(logic_error)
#define DER(C, B)                                                                                                      \
   C::C(const string& s) : B(s) {}                                                                                     \
   C::C(const char* s) : B(s) {}                                                                                       \
   C::~C() noexcept {}
DER(domain_error, logic_error)
DER(invalid_argument, logic_error)
DER(length_error, logic_error)
DER(out_of_range, logic_error)
DER(range_error, runtime_error)
DER(overflow_error, runtime_error)
DER(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
[[noreturn]] void __glibcxx_assert_fail(const char* file, int line, const char* function, const char* condition) noexcept { abort(); }

// ---- red-black tree (std::map / std::set)
static _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) throw() {
   if (x->_M_right) {
      x = x->_M_right;
      while (x->_M_left) x = x->_M_left;
   } else {
      _Rb_tree_node_base* y = x->_M_parent;
      while (x == y->_M_right) { x = y; y = y->_M_parent; }
      if (x->_M_right != y) x = y;
   }
   return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
static _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) throw() {
   if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
   else if (x->_M_left) {
      _Rb_tree_node_base* y = x->_M_left;
      while (y->_M_right) y = y->_M_right;
      x = y;
   } else {
      _Rb_tree_node_base* y = x->_M_parent;
      while (x == y->_M_left) { x = y; y = y->_M_parent; }
      x = y;
   }
   return x;
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
   _Rb_tree_node_base* const y = x->_M_right;
   x->_M_right = y->_M_left;
   if (y->_M_left != 0) y->_M_left->_M_parent = x;
   y->_M_parent = x->_M_parent;
   if (x == root) root = y;
   else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
   else x->_M_parent->_M_right = y;
   y->_M_left = x;
   x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
   _Rb_tree_node_base* const y = x->_M_left;
   x->_M_left = y->_M_right;
   if (y->_M_right != 0) y->_M_right->_M_parent = x;
   y->_M_parent = x->_M_parent;
   if (x == root) root = y;
   else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
   else x->_M_parent->_M_left = y;
   y->_M_right = x;
   x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
   _Rb_tree_node_base*& root = header._M_parent;
   x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
   if (left) {
      p->_M_left = x;
      if (p == &header) { header._M_parent = x; header._M_right = x; }
      else if (p == header._M_left) header._M_left = x;
   } else {
      p->_M_right = x;
      if (p == header._M_right) header._M_right = x;
   }
   while (x != root && x->_M_parent->_M_color == _S_red) {
      _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
      if (x->_M_parent == xpp->_M_left) {
         _Rb_tree_node_base* const y = xpp->_M_right;
         if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
         else {
            if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
            x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
         }
      } else {
         _Rb_tree_node_base* const y = xpp->_M_left;
         if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
         else {
            if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
            x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
         }
      }
   }
   root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
   _Rb_tree_node_base*& root = header._M_parent;
   _Rb_tree_node_base*& leftmost = header._M_left;
   _Rb_tree_node_base*& rightmost = header._M_right;
   _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
   if (y->_M_left == 0) x = y->_M_right;
   else if (y->_M_right == 0) x = y->_M_left;
   else { y = y->_M_right; while (y->_M_left != 0) y = y->_M_left; x = y->_M_right; }
   if (y != z) {
      z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
      if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
      else xp = y;
      if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
      y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
   } else {
      xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
      if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
      if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else leftmost = _Rb_tree_node_base::_S_minimum(x); }
      if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else rightmost = _Rb_tree_node_base::_S_maximum(x); }
   }
   if (y->_M_color != _S_red) {
      while (x != root && (x == 0 || x->_M_color == _S_black))
         if (x == xp->_M_left) {
            _Rb_tree_node_base* w = xp->_M_right;
            if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
            if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
            else {
               if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
               w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break;
            }
         } else {
            _Rb_tree_node_base* w = xp->_M_left;
            if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
            if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
            else {
               if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
               w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break;
            }
         }
      if (x) x->_M_color = _S_black;
   }
   return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {   // move [f, l) before this
   if (this == l) return;
   l->_M_prev->_M_next = this;
   f->_M_prev->_M_next = l;
   this->_M_prev->_M_next = f;
   _List_node_base* const p = this->_M_prev;
   this->_M_prev = l->_M_prev;
   l->_M_prev    = f->_M_prev;
   f->_M_prev    = p;
}
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
} // namespace __detail

size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
   const unsigned char* p = (const unsigned char*)ptr;
   size_t h = seed ^ 14695981039346656037ull;
   for (size_t i = 0; i < len; ++i) { h ^= p[i]; h *= 1099511628211ull; }
   return h;
}
} // namespace std
