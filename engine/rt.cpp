// Runtime for symbolic execution: the parts of libstdc++ / libc that are not available as headers.
#include "fs.h"
#include "shim/fs_iostream.h"
#include <stdexcept>
#include <new>
#include <map>
#include <typeinfo>
#include <list>
#include <functional>
#include <memory>
#include <errno.h>
#include <ctype.h>
#include <system_error>
#include <ctime>

extern "C" void __fs_violation(const char *id, const char *msg);

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static char *fs_dup(const char *s, size_t n) { char *p = (char*)malloc(n+1); memcpy(p,s,n); p[n]=0; return p; }
__cow_string::__cow_string() : _M_p(fs_dup("",0)) {}
__cow_string::__cow_string(const string &s) : _M_p(fs_dup(s.data(),s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(fs_dup(s,n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(fs_dup(o._M_p,strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this!=&o) { free((void*)_M_p); _M_p = fs_dup(o._M_p,strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(fs_dup(o._M_p,strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { if (this!=&o) { free((void*)_M_p); _M_p = fs_dup(o._M_p,strlen(o._M_p)); } return *this; }

#define FS_EXC(C,B,WHAT) \
  C::C(const string &s) : B WHAT(s) {} \
  C::C(const char *s) : B WHAT(s) {} \
  C::~C() noexcept {}
logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define FS_EXC1(C,B) C::C(const string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
FS_EXC1(domain_error, logic_error)
FS_EXC1(invalid_argument, logic_error)
FS_EXC1(length_error, logic_error)
FS_EXC1(out_of_range, logic_error)
FS_EXC1(range_error, runtime_error)
FS_EXC1(overflow_error, runtime_error)
FS_EXC1(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char *file, int line, const char *func, const char *cond) noexcept {
  __fs_violation("UB:glibcxx-assertion", cond ? cond : "?");
  __builtin_unreachable();
}
void terminate() noexcept { __fs_violation("CRASH:std-terminate", "std::terminate called"); __builtin_unreachable(); }
bool _Sp_make_shared_tag::_S_eq(const type_info &ti) noexcept { return false; }

// ---------------------------------------------------------------- hashing
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  // FNV; only equality matters
  const unsigned char *p = (const unsigned char*)ptr; size_t h = seed ^ 14695981039346656037ull;
  for (size_t i=0;i<len;i++) { h ^= p[i]; h *= 1099511628211ull; }
  return h; }

// ---------------------------------------------------------------- red-black tree (unbalanced is enough for the semantics, but keep it simple and correct)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void fs_rotl(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y; }
static void fs_rotr(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw() {
  _Rb_tree_node_base *&root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (insert_left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base *const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; fs_rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; fs_rotr(xpp, root); }
    } else {
      _Rb_tree_node_base *const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; fs_rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; fs_rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black; }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw() {
  _Rb_tree_node_base *&root = header._M_parent; _Rb_tree_node_base *&leftmost = header._M_left; _Rb_tree_node_base *&rightmost = header._M_right;
  _Rb_tree_node_base *y = z; _Rb_tree_node_base *x = 0; _Rb_tree_node_base *xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        _Rb_tree_node_base *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; fs_rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; fs_rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; fs_rotl(xp, root); break; }
      } else {
        _Rb_tree_node_base *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; fs_rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; fs_rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; fs_rotr(xp, root); break; }
      }
    if (x) x->_M_color = _S_black;
  }
  return y; }

namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = _M_next, *const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *const tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp; } }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
    else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } }
  else if (y._M_next != &y) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while (t!=this); }
// unordered containers
struct _Prime_rehash_policy_fs {};
}
} // namespace std

// ---------------------------------------------------------------- streams, files
namespace {
struct Fs { std::string out, err, in; size_t inpos; std::map<std::string,std::string> files; std::map<std::string,std::string> env; Fs() : inpos(0) {} };
Fs &fsx() { static Fs *p = 0; if (!p) p = new Fs(); return *p; }
std::fs_streambuf *mkbuf(int kind, int fd) { std::fs_streambuf *b = new std::fs_streambuf(); b->m_kind=kind; b->m_fd=fd; return b; }
}
namespace std {
fs_ostream cout(mkbuf(1,1)), cerr(mkbuf(1,2)), clog(mkbuf(1,2));
fs_istream cin(mkbuf(2,0));
}
extern "C" void fs_out_write(int fd, const char *p, size_t n) { (fd==1 ? fsx().out : fsx().err).append(p,n); }
int fs_stdin_peek() { Fs &f=fsx(); return f.inpos < f.in.size() ? (unsigned char)f.in[f.inpos] : -1; }
int fs_stdin_get() { Fs &f=fsx(); return f.inpos < f.in.size() ? (unsigned char)f.in[f.inpos++] : -1; }
void fs_stdin_set(const std::string &s) { fsx().in = s; fsx().inpos = 0; std::cin.clear(); }
// the scratch directory is the current one; only it and the directories of files put by the harness exist
static std::string fs_norm(const std::string &name) { std::string n(name.c_str()), r; if (n.empty()) return n; if (n[0] != '/') n = "/fs/" + n; for (size_t i = 0; i < n.size(); i++) { if (n[i] == '/' && r.size() && r[r.size()-1] == '/') continue; if (n[i] == '.' && r.size() && r[r.size()-1] == '/' && i + 1 < n.size() && n[i+1] == '/') { i++; continue; } r += n[i]; } return r; }
bool fs_file_read(const std::string &name, std::string &content) { std::map<std::string,std::string>::iterator i = fsx().files.find(fs_norm(name)); if (i==fsx().files.end()) return false; content = i->second; return true; }
bool fs_file_write(const std::string &name, const std::string &content, bool append) {
  if (name.empty() || name[0] == 0) return false;
  std::string n = fs_norm(name);
  if (n[n.size()-1]=='/') return false;
  size_t sl = n.rfind('/');
  if (sl != std::string::npos && sl > 0) { // only the scratch directory exists
    if (n.compare(0,sl,"/fs") != 0) return false;
  }
  std::string &f = fsx().files[n]; if (append) f += content; else f = content; return true; }
void fs_out_clear() { fsx().out.clear(); fsx().err.clear(); }
std::string fs_out_take() { std::string s; s.swap(fsx().out); return s; }
std::string fs_path(const std::string &name) { return "/fs/" + name; }
void fs_file_put(const std::string &name, const std::string &content) { fsx().files[fs_path(name)] = content; }
bool fs_file_get(const std::string &name, std::string &content) { return fs_file_read(fs_path(name), content); }
void fs_file_remove(const std::string &name) { fsx().files.erase(fs_path(name)); }
void fs_setenv(const char *n, const char *v) { fsx().env[n] = v; }
void fs_fmt_double(std::string &out, double d, int prec, int mode) { char buf[512]; fs_fmt_double_c(buf, sizeof buf, d, prec, mode); out = buf; }

extern "C" char *fs_getenv_(const char *n) { std::map<std::string,std::string>::iterator i = fsx().env.find(n); return i==fsx().env.end() ? 0 : const_cast<char*>(i->second.c_str()); }
// ---------------------------------------------------------------- allocation
void *operator new(size_t n) { return malloc(n); }
void *operator new[](size_t n) { return malloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
namespace std { const nothrow_t nothrow = nothrow_t(); template class basic_string<char>; }
