// Bitcode run time: the parts of libstdc++/libc that live in shared libraries.
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <vector>
#include <optional>
#include <variant>
#include <future>

template class std::basic_string<char>;

// ---------------------------------------------------------------- red-black trees
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    auto y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    auto y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  auto y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  auto y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  auto y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) throw() {
  auto& root = header._M_parent;
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) {
      header._M_parent = x;
      header._M_right = x;
    } else if (p == header._M_left)
      header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    auto xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      auto y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotR(xpp, root);
      }
    } else {
      auto y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        xpp->_M_color = _S_red;
        x = xpp;
      } else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotL(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  auto& root = header._M_parent;
  auto& leftmost = header._M_left;
  auto& rightmost = header._M_right;
  _Rb_tree_node_base* y = z;
  _Rb_tree_node_base* x = nullptr;
  _Rb_tree_node_base* xp = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else
      xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    std::swap(y->_M_color, z->_M_color);
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (!z->_M_right) leftmost = z->_M_parent;
      else { auto t = x; while (t->_M_left) t = t->_M_left; leftmost = t; }
    }
    if (rightmost == z) {
      if (!z->_M_left) rightmost = z->_M_parent;
      else { auto t = x; while (t->_M_right) t = t->_M_right; rightmost = t; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        auto w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) {
            w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right;
          }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotL(xp, root);
          break;
        }
      } else {
        auto w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) {
            w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left;
          }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotR(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ---------------------------------------------------------------- lists, hashing
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p;
  this->_M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_prev->_M_next = _M_next;
  _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    this->_M_prev->_M_next = f;
    auto t = this->_M_prev;
    this->_M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
  }
}
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 37, 53, 97, 193, 389, 769, 1543, 3079, 6151, 12289, 24593, 49157, 98317, 196613, 393241, 786433};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (auto p : primes)
    if (p >= n) {
      _M_next_resize = (size_t)p;
      return p;
    }
  std::abort();
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    size_t want = n_elt + n_ins;
    if (_M_next_resize == 0 && want < 11) want = 11;
    if (want >= n_bkt) {
      size_t g = n_bkt * 2;
      return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)};
    }
    _M_next_resize = n_bkt;
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  // any deterministic function of the bytes is a conforming std::hash
  uint64_t h = seed ^ 0x9e3779b97f4a7c15ULL;
  for (size_t i = 0; i < len; ++i) h = h * 33 + ((const unsigned char*)ptr)[i];
  return h;
}

// ---------------------------------------------------------------- exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
__cow_string::__cow_string() { _M_p = nullptr; }
__cow_string::__cow_string(const std::string&) { _M_p = nullptr; }
__cow_string::__cow_string(const char*, size_t) { _M_p = nullptr; }
__cow_string::__cow_string(const __cow_string&) noexcept { _M_p = nullptr; }
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}
#define EXC(T, BASE)                                     \
  T::T(const std::string& s) : BASE(s) {}                \
  T::T(const char* s) : BASE(s) {}                       \
  T::~T() noexcept {}
#define ROOT(T)                                          \
  T::T(const std::string&) {}                            \
  T::T(const char*) {}                                   \
  T::~T() noexcept {}                                    \
  const char* T::what() const noexcept { return #T; }
ROOT(runtime_error)
ROOT(logic_error)
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o) {}
EXC(out_of_range, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(domain_error, logic_error)
EXC(overflow_error, runtime_error)
EXC(range_error, runtime_error)
EXC(underflow_error, runtime_error)
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

// ---------------------------------------------------------------- threads run to completion at start
void thread::_M_start_thread(_State_ptr st, void (*)()) {
  st->_M_run();
  _M_id = id(1);
}
thread::_State::~_State() {}
void thread::join() { _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
}  // namespace std

// ---------------------------------------------------------------- dynamic_cast over Itanium type_infos
namespace __cxxabiv1 {
struct TI { void** vptr; const char* name; };
struct SI : TI { TI* base; };
struct BaseI { TI* t; long flags; };
struct VMI : TI { unsigned flags, n; BaseI b[1]; };
}
extern "C" {
extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
extern void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
}
static void* upcast(void* obj, __cxxabiv1::TI* from, __cxxabiv1::TI* to) {
  using namespace __cxxabiv1;
  if (from == to) return obj;
  if (from->vptr == _ZTVN10__cxxabiv120__si_class_type_infoE + 2) return upcast(obj, ((SI*)from)->base, to);
  if (from->vptr == _ZTVN10__cxxabiv121__vmi_class_type_infoE + 2) {
    auto v = (VMI*)from;
    for (unsigned i = 0; i < v->n; ++i) {
      long off = v->b[i].flags >> 8;
      if (v->b[i].flags & 1) off = *(long*)(*(char**)obj + off);
      if (void* r = upcast((char*)obj + off, v->b[i].t, to)) return r;
    }
  }
  return nullptr;
}
extern "C" void* __dynamic_cast(const void* src, const void*, const void* dst, ptrdiff_t) {
  void** vt = *(void***)src;
  ptrdiff_t top = (ptrdiff_t)vt[-2];
  auto ti = (__cxxabiv1::TI*)vt[-1];
  return upcast((char*)src + top, ti, (__cxxabiv1::TI*)dst);
}
extern "C" void __cxa_bad_cast() { throw std::runtime_error("bad_cast"); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_alloc(); }
