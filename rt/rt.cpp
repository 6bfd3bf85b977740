// Model of the compiled part of libstdc++ / libc that the symbolic executor links with the harness.
// Trusted: same observable behaviour as the real runtime on the operations used (checked by replaying
// sampled paths natively against the real runtime).
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <optional>
#include <variant>

extern "C" {
void* __dso_handle = nullptr;
char __libc_single_threaded = 1;
void* memcpy(void* d, const void* s, size_t n) { char* a = (char*)d; const char* b = (const char*)s; for (size_t i = 0; i < n; i++) a[i] = b[i]; return d; }
void* memmove(void* d, const void* s, size_t n) {
  char* a = (char*)d; const char* b = (const char*)s;
  if (a < b) for (size_t i = 0; i < n; i++) a[i] = b[i];
  else for (size_t i = n; i-- > 0;) a[i] = b[i];
  return d;
}
void* memset(void* d, int c, size_t n) { char* a = (char*)d; for (size_t i = 0; i < n; i++) a[i] = (char)c; return d; }
int memcmp(const void* x, const void* y, size_t n) {
  const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y;
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
void* memchr(const void* x, int c, size_t n) { const unsigned char* a = (const unsigned char*)x; for (size_t i = 0; i < n; i++) if (a[i] == (unsigned char)c) return (void*)(a + i); return nullptr; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int __cxa_guard_acquire(char* g) { return *g == 0; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_guard_abort(char*) {}
}

namespace std {
// ---- exceptions (messages are not modelled)
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return ""; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return ""; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return ""; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return ""; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return ""; }
type_info::~type_info() {}

__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const string&) : _M_p("") {}
__cow_string::__cow_string(const char*, size_t) : _M_p("") {}
__cow_string::__cow_string(const __cow_string&) noexcept : _M_p("") {}
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&&) noexcept : _M_p("") {}
__cow_string& __cow_string::operator=(__cow_string&&) noexcept { return *this; }

logic_error::logic_error(const string&) {}
logic_error::logic_error(const char*) {}
logic_error::logic_error(logic_error&&) noexcept {}
logic_error& logic_error::operator=(logic_error&&) noexcept { return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o) {}
logic_error& logic_error::operator=(const logic_error&) noexcept { return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return ""; }
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
runtime_error::runtime_error(const string&) {}
runtime_error::runtime_error(const char*) {}
runtime_error::runtime_error(runtime_error&&) noexcept {}
runtime_error& runtime_error::operator=(runtime_error&&) noexcept { return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o) {}
runtime_error& runtime_error::operator=(const runtime_error&) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return ""; }
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
underflow_error::underflow_error(const string& s) : runtime_error(s) {}
underflow_error::underflow_error(const char* s) : runtime_error(s) {}
underflow_error::~underflow_error() noexcept {}

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }

template class basic_string<char>;

// ---- red-black tree: ordered-tree semantics (no rebalancing; every node black, header red)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; }
  else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// red-black balancing as libstdc++ does it (map copy assignment relies on the shape)
static void rb_rotl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rb_rotr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const pp = x->_M_parent->_M_parent;
    const bool l = x->_M_parent == pp->_M_left;
    _Rb_tree_node_base* const y = l ? pp->_M_right : pp->_M_left;
    if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; pp->_M_color = _S_red; x = pp; }
    else if (l) {
      if (x == x->_M_parent->_M_right) { x = x->_M_parent; rb_rotl(x, root); }
      x->_M_parent->_M_color = _S_black; pp->_M_color = _S_red; rb_rotr(pp, root);
    } else {
      if (x == x->_M_parent->_M_left) { x = x->_M_parent; rb_rotr(x, root); }
      x->_M_parent->_M_color = _S_black; pp->_M_color = _S_red; rb_rotl(pp, root);
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        _Rb_tree_node_base* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rb_rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rb_rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rb_rotl(xp, root);
          break;
        }
      } else {
        _Rb_tree_node_base* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rb_rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rb_rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rb_rotr(xp, root);
          break;
        }
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const t = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}

static const unsigned char fast_bkt[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
static const unsigned long primes[] = {17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  if (n < sizeof(fast_bkt)) {
    if (n == 0) return 1;
    _M_next_resize = (std::size_t)(fast_bkt[n] * (double)_M_max_load_factor);
    return fast_bkt[n];
  }
  for (unsigned long p : primes)
    if (p >= n) { _M_next_resize = (std::size_t)(p * (double)_M_max_load_factor); return p; }
  __builtin_trap();
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t n_bkt, std::size_t n_elt, std::size_t n_ins) const {
  if (n_elt + n_ins > _M_next_resize) {
    std::size_t a = n_elt + n_ins, b = _M_next_resize ? 0 : 11;
    double mn = (a > b ? a : b) / (double)_M_max_load_factor;
    if (mn >= n_bkt) {
      std::size_t x = (std::size_t)mn + 1, y = n_bkt * _S_growth_factor;
      return {true, _M_next_bkt(x > y ? x : y)};
    }
    _M_next_resize = (std::size_t)(n_bkt * (double)_M_max_load_factor);
    return {false, 0};
  }
  return {false, 0};
}
} // namespace __detail

size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) { // murmur, 64 bit (as libsupc++)
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const unsigned char* buf = (const unsigned char*)ptr;
  auto ld = [](const unsigned char* p, int n) { size_t r = 0; for (int i = n - 1; i >= 0; --i) r = (r << 8) + p[i]; return r; };
  auto mix = [](size_t v) { return v ^ (v >> 47); };
  const size_t la = len & ~(size_t)7;
  const unsigned char* end = buf + la;
  size_t hash = seed ^ (len * mul);
  for (const unsigned char* p = buf; p != end; p += 8) {
    const size_t data = mix(ld(p, 8) * mul) * mul;
    hash ^= data;
    hash *= mul;
  }
  if ((len & 7) != 0) { const size_t data = ld(end, len & 7); hash ^= data; hash *= mul; }
  hash = mix(hash) * mul;
  hash = mix(hash);
  return hash;
}
} // namespace std

// Diagnostics the code under check writes to std::cout are dropped.
extern "C" {
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char*, long) { return o; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* o, const char*) { return o; }
void* _ZNSolsEi(void* o, int) { return o; }
void* _ZNSo9_M_insertImEERSoT_(void* o, unsigned long) { return o; }
void* _ZNSo9_M_insertIlEERSoT_(void* o, long) { return o; }
void* _ZNSo9_M_insertIbEERSoT_(void* o, bool) { return o; }
void* _ZNSo9_M_insertIdEERSoT_(void* o, double) { return o; }
void* _ZNSo3putEc(void* o, char) { return o; }
void* _ZNSo5flushEv(void* o) { return o; }
}

// errno, exit-time and system-error entry points a caller may reach; dynamic_cast over single-inheritance chains
extern "C" {
static int gsym_errno;
int* __errno_location() { return &gsym_errno; }
extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
void* __dynamic_cast(const void* p, const void*, const void* dst, ptrdiff_t off) {
  void** vt = *(void***)p;                                    // vtable address point
  char* whole = (char*)p + ((ptrdiff_t*)vt)[-2];
  void* const* ti = (void* const*)vt[-1];
  while (ti) {
    if ((const void*)ti == dst) return off >= 0 ? (char*)p - off : whole;
    if (ti[0] != (void*)&_ZTVN10__cxxabiv120__si_class_type_infoE[2]) break;
    ti = (void* const*)ti[2];
  }
  return nullptr;
}
}
namespace std { void __throw_system_error(int) { throw runtime_error(""); } }
