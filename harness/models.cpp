// Bitcode-side models of the out-of-line parts of libstdc++/libc that the code under test reaches.
// (The native replay build uses the real libraries.)
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <typeinfo>
#include <exception>
#include <stdexcept>
#include <string>
#include <functional>
#include <bits/stl_tree.h>
#include <system_error>

extern "C" void symx_throw_bad_alloc() { throw std::bad_alloc(); }

namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }

static const char *dupstr(const char *s) {
  size_t n = 0; while (s[n]) n++;
  char *p = (char *)::operator new(n + 1);
  for (size_t i = 0; i <= n; i++) p[i] = s[i];
  return p;
}
static const char *dupstr(const string &s) {
  size_t n = s.size(); const char *d = s.data();
  char *p = (char *)::operator new(n + 1);
  for (size_t i = 0; i < n; i++) p[i] = d[i];
  p[n] = 0;
  return p;
}
__cow_string::__cow_string() { _M_p = dupstr(""); }
__cow_string::__cow_string(const std::string &s) { _M_p = dupstr(s); }
__cow_string::__cow_string(const char *s, size_t) { _M_p = dupstr(s); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = dupstr(o._M_p); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { const char *p = dupstr(o._M_p); ::operator delete((void *)_M_p); _M_p = p; return *this; }
__cow_string::~__cow_string() { ::operator delete((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = dupstr(o._M_p); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = static_cast<const __cow_string &>(o); }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DERIVE(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
DERIVE(domain_error, logic_error) DERIVE(invalid_argument, logic_error) DERIVE(length_error, logic_error) DERIVE(out_of_range, logic_error)
DERIVE(range_error, runtime_error) DERIVE(overflow_error, runtime_error) DERIVE(underflow_error, runtime_error)
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ---- red-black tree support (a plain, unbalanced-insert-free re-implementation of the libstdc++ contract)
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  _Rb_tree_node_base *&root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base *const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
      }
    } else {
      _Rb_tree_node_base *const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
        x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else {
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
} // namespace std

template class std::basic_string<char>;
