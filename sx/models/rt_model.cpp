// sx: models of the non-template parts of libstdc++ / libc that the code under test links against.
// Compiled to bitcode and linked into every symbolic build (never into native replays).
#include <system_error>
#include <ios>
#include <new>
#include <map>
#include <list>
#include <functional>
#include <optional>
#include <typeinfo>
#include <unordered_map>
#include <clocale>
#include <chrono>
#include <cstdint>
#include <ctime>
#include <cerrno>
#include <sys/stat.h>
#include <sys/time.h>
#include "sx.h"
static const unsigned long sx_primes[] = {2ul,3ul,5ul,7ul,11ul,13ul,17ul,19ul,23ul,29ul,31ul,37ul,41ul,43ul,47ul,53ul,59ul,61ul,67ul,71ul,73ul,79ul,83ul,89ul,97ul,103ul,109ul,113ul,127ul,137ul,139ul,149ul,157ul,167ul,179ul,193ul,199ul,211ul,227ul,241ul,257ul,277ul,293ul,313ul,337ul,359ul,383ul,409ul,439ul,467ul,503ul,541ul,577ul,619ul,661ul,709ul,761ul,823ul,887ul,953ul,1031ul,1109ul,1193ul,1289ul,1381ul,1493ul,1613ul,1741ul,1879ul,2029ul,2179ul,2357ul,2549ul,2753ul,2971ul,3209ul,3469ul,3739ul,4027ul,4349ul,4703ul,5087ul,5503ul,5953ul,6427ul,6949ul,7517ul,8123ul,8783ul,9497ul,10273ul,11113ul,12011ul,12983ul,14033ul,15173ul,16411ul,17749ul,19183ul,20753ul,22447ul,24281ul,26267ul,28411ul,30727ul,33223ul,35933ul,38873ul,42043ul,45481ul,49201ul,53201ul,57557ul,62233ul,67307ul,72817ul,78779ul,85229ul,92203ul,99733ul,107897ul,116731ul,126271ul,136607ul,147793ul,159871ul,172933ul,187091ul,202409ul,218971ul,236897ul,256279ul,277261ul,299951ul,324503ul,351061ul,379787ul,410857ul,444487ul,480881ul,520241ul,562841ul,608903ul,658753ul,712697ul,771049ul,834181ul,902483ul,976369ul,1056323ul,1142821ul,1236397ul,1337629ul,1447153ul,1565659ul,1693859ul,1832561ul,1982627ul,2144977ul,2320627ul,};
template class std::basic_string<char>;
template class std::allocator<char>;
extern "C" char __libc_single_threaded = 1;
// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
static const char* dupz(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = dupz("", 0); } __cow_string::__cow_string(const string& s) { _M_p = dupz(s.data(), s.size()); } __cow_string::__cow_string(const char* s, size_t n) { _M_p = dupz(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupz(o._M_p, strlen(o._M_p)); } __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupz(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); } __cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = nullptr; } __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
logic_error::logic_error(const string& a) : _M_msg(a) {} logic_error::logic_error(const char* a) : _M_msg(a, strlen(a)) {} logic_error::logic_error(logic_error&& e) noexcept : exception(e), _M_msg(static_cast<__cow_string&&>(e._M_msg)) {} logic_error& logic_error::operator=(logic_error&& e) noexcept { _M_msg = static_cast<__cow_string&&>(e._M_msg); return *this; }
logic_error::logic_error(const logic_error& e) noexcept : exception(e), _M_msg(e._M_msg) {} logic_error& logic_error::operator=(const logic_error& e) noexcept { _M_msg = e._M_msg; return *this; } logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& a) : _M_msg(a) {} runtime_error::runtime_error(const char* a) : _M_msg(a, strlen(a)) {} runtime_error::runtime_error(runtime_error&& e) noexcept : exception(e), _M_msg(static_cast<__cow_string&&>(e._M_msg)) {} runtime_error& runtime_error::operator=(runtime_error&& e) noexcept { _M_msg = static_cast<__cow_string&&>(e._M_msg); return *this; }
runtime_error::runtime_error(const runtime_error& e) noexcept : exception(e), _M_msg(e._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& e) noexcept { _M_msg = e._M_msg; return *this; } runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SX_EX(N, B) N::N(const string& a) : B(a) {} N::N(const char* a) : B(a) {} N::~N() noexcept {}
SX_EX(domain_error, logic_error) SX_EX(invalid_argument, logic_error) SX_EX(length_error, logic_error) SX_EX(out_of_range, logic_error)
SX_EX(range_error, runtime_error) SX_EX(overflow_error, runtime_error) SX_EX(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char* s) { throw runtime_error(s); } void __throw_system_error(int) { throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char*, int, const char*, const char* c) noexcept { sx_fail(c ? c : "libstdc++ assertion"); __builtin_unreachable(); }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; } bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
// ------------------------------------------------------------------ red-black trees
typedef _Rb_tree_node_base* BP; typedef const _Rb_tree_node_base* CBP;
BP _Rb_tree_increment(BP x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { BP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
CBP _Rb_tree_increment(CBP x) noexcept { return _Rb_tree_increment(const_cast<BP>(x)); }
BP _Rb_tree_decrement(BP x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { BP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { BP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
CBP _Rb_tree_decrement(CBP x) noexcept { return _Rb_tree_decrement(const_cast<BP>(x)); }
static void rotl(BP x, BP& root) { BP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(BP x, BP& root) { BP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, BP x, BP p, _Rb_tree_node_base& h) noexcept {
  BP& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    BP g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { BP y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
    else { BP y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } }
  }
  root->_M_color = _S_black;
}
BP _Rb_tree_rebalance_for_erase(BP const z, _Rb_tree_node_base& h) noexcept {
  BP &root = h._M_parent, &lm = h._M_left, &rm = h._M_right; BP y = z, x = 0, xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
  } else {
    xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { BP t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { BP t = x; while (t->_M_right) t = t->_M_right; rm = t; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) { BP w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { BP w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
// ------------------------------------------------------------------ lists, hashing
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { auto a = x._M_next; x._M_next = y._M_next; y._M_next = a; a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor); return fast[n]; }
  size_t i = 6; while (sx_primes[i] < n) i++; _M_next_resize = (size_t)(sx_primes[i] * (double)_M_max_load_factor); return sx_primes[i]; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t m = ne + ni; size_t alt = _M_next_resize ? 0 : 11; double mb = (m > alt ? m : alt) / (double)_M_max_load_factor;
    if (mb >= (double)nb) { size_t a = (size_t)mb + 1, b = nb * _S_growth_factor; return {true, _M_next_bkt(a > b ? a : b)}; }
    _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); }
  return {false, 0}; }
}
static inline size_t ld(const char* p) { size_t r; memcpy(&r, p, 8); return r; } static inline size_t mix(size_t v) { return v ^ (v >> 47); }
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; char tmp[8]; const char* buf = (const char*)ptr; char* cb = (char*)malloc(len + 1); for (size_t i = 0; i < len; i++) cb[i] = (char)sx_concretize((unsigned char)buf[i]);
  const size_t la = len & ~(size_t)7; size_t h = seed ^ (len * mul); for (size_t i = 0; i < la; i += 8) { size_t d = mix(ld(cb + i) * mul) * mul; h ^= d; h *= mul; }
  if (len & 7) { size_t d = 0; for (int i = (int)(len & 7) - 1; i >= 0; i--) d = (d << 8) + (unsigned char)cb[la + i]; h ^= d; h *= mul; } (void)tmp; h = mix(h) * mul; h = mix(h); free(cb); return h; }
// ------------------------------------------------------------------ streams
struct SxStdBuf : public basic_streambuf<char, char_traits<char>> { int_type overflow(int_type c) override { return c; } streamsize xsputn(const char*, streamsize n) override { return n; } };
static SxStdBuf sx_b0, sx_b1, sx_b2, sx_b3; ostream cout __attribute__((init_priority(200)))(&sx_b0); ostream cerr __attribute__((init_priority(200)))(&sx_b1); ostream clog __attribute__((init_priority(200)))(&sx_b2); istream cin __attribute__((init_priority(200)))(&sx_b3);
namespace chrono { inline namespace _V2 { static long sx_clk = 1700000000000000000L; system_clock::time_point system_clock::now() noexcept { sx_clk += 1000000; return time_point(duration(sx_clk)); } steady_clock::time_point steady_clock::now() noexcept { sx_clk += 1000000; return time_point(duration(sx_clk)); } } }
}
// ------------------------------------------------------------------ C library
extern "C" {
int memcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1; return 0; }
size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) noexcept { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) {} return r; } char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; } char* strdup(const char* s) noexcept { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
#undef strchr
long strtol(const char* p, char** e, int base) noexcept;
unsigned long strtoul(const char* p, char** e, int base) noexcept;
static unsigned long long sx_stou(const char* p, char** e, int base, bool& neg, bool& ovf) { const char* s = p; neg = ovf = false; while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; if (*s == '-' || *s == '+') { neg = *s == '-'; s++; } if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { s += 2; base = 16; } if (base == 0) base = *s == '0' ? 8 : 10; const char* st = s; unsigned long long r = 0; while (true) { unsigned c = (unsigned char)*s; unsigned dg; if (c >= '0' && c <= '9') dg = c - '0'; else if (c >= 'a' && c <= 'z') dg = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') dg = c - 'A' + 10; else break; if (dg >= (unsigned)base) break; if (r > (~0ull - dg) / base) ovf = true; r = r * base + dg; s++; } if (e) *e = (char*)(s == st ? p : s); return r; }
unsigned long long strtoull(const char* p, char** e, int b) noexcept { bool n, o; auto r = sx_stou(p, e, b, n, o); if (o) { errno = ERANGE; return ~0ull; } return n ? 0 - r : r; } unsigned long strtoul(const char* p, char** e, int b) noexcept { return strtoull(p, e, b); }
long long strtoll(const char* p, char** e, int b) noexcept { bool n, o; auto r = sx_stou(p, e, b, n, o); if (o || r > 0x7fffffffffffffffull + n) { errno = ERANGE; return n ? (long long)0x8000000000000000ull : 0x7fffffffffffffffll; } return (long long)(n ? 0 - r : r); } long strtol(const char* p, char** e, int b) noexcept { return strtoll(p, e, b); }
long sx_strtol_(const char* p, char** e, int b) asm("strtol"); long sx_strtol_(const char* p, char** e, int b) { return strtoll(p, e, b); } unsigned long sx_strtoul_(const char* p, char** e, int b) asm("strtoul"); unsigned long sx_strtoul_(const char* p, char** e, int b) { return strtoull(p, e, b); } long long sx_strtoll_(const char* p, char** e, int b) asm("strtoll"); long long sx_strtoll_(const char* p, char** e, int b) { return strtoll(p, e, b); } unsigned long long sx_strtoull_(const char* p, char** e, int b) asm("strtoull"); unsigned long long sx_strtoull_(const char* p, char** e, int b) { return strtoull(p, e, b); }
double strtod(const char* p, char** e) noexcept { return sx_strtod(p, e); } float strtof(const char* p, char** e) noexcept { return sx_strtof(p, e); } double sx_atof(const char* p) asm("atof"); double sx_atof(const char* p) { return sx_strtod(p, nullptr); }
int sx_atoi(const char* p) asm("atoi"); int sx_atoi(const char* p) { return (int)strtoll(p, nullptr, 10); } long sx_atol(const char* p) asm("atol"); long sx_atol(const char* p) { return strtoll(p, nullptr, 10); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; } int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); } int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; } int islower(int c) noexcept { return c >= 'a' && c <= 'z'; } int isalpha(int c) noexcept { return isupper(c) || islower(c); } int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); } int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; } int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
char* getenv(const char*) noexcept { return nullptr; } static int sx_errno; int* __errno_location() noexcept { return &sx_errno; }
static char sx_dot[] = "."; static char sx_emp[] = ""; static lconv sx_lc; lconv* localeconv() noexcept { sx_lc.decimal_point = sx_dot; sx_lc.thousands_sep = sx_emp; return &sx_lc; } char* setlocale(int, const char*) noexcept { return sx_emp; }
static long sx_now = 1700000000; time_t time(time_t* t) noexcept { sx_now++; if (t) *t = sx_now; return sx_now; } int gettimeofday(struct timeval* tv, void*) noexcept { sx_now++; tv->tv_sec = sx_now; tv->tv_usec = 0; return 0; } int clock_gettime(clockid_t, struct timespec* t) noexcept { sx_now++; t->tv_sec = sx_now; t->tv_nsec = 0; return 0; } clock_t clock() noexcept { sx_now++; return sx_now; }
static unsigned long sx_rand_state = 12345; int rand() noexcept { sx_rand_state = sx_rand_state * 6364136223846793005ul + 1442695040888963407ul; return (int)(sx_rand_state >> 33); }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; } int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; } int __pthread_key_create(pthread_key_t*, void (*)(void*)) noexcept { return 0; }
void qsort(void* b, size_t n, size_t s, int (*c)(const void*, const void*)) { char* a = (char*)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(a + (j - 1) * s, a + j * s) > 0; j--) for (size_t k = 0; k < s; k++) { char t = a[(j - 1) * s + k]; a[(j - 1) * s + k] = a[j * s + k]; a[j * s + k] = t; } }
// virtual files
struct SxFile { std::string name, data; int kind; SxFile* next; }; // kind: 0 deleted, 1 file, 2 directory
static SxFile* sx_files = nullptr;
static std::string sx_norm(const char* p) { std::string s(p); while (s.size() > 1 && s.back() == '/') s.pop_back(); if (s.size() > 2 && s[0] == '.' && s[1] == '/') s = s.substr(2); std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '/' && i + 1 < s.size() && s[i + 1] == '/') continue; r.push_back(s[i]); } return r; }
static SxFile* sx_find(const std::string& n) { for (SxFile* f = sx_files; f; f = f->next) if (f->kind && f->name == n) return f; return nullptr; }
int sxfs_exists(const char* p) { std::string n = sx_norm(p); if (n == "." || n == "/") return 2; SxFile* f = sx_find(n); return f ? f->kind : 0; }
int sxfs_writable(const char* p) { std::string n = sx_norm(p); if (sxfs_exists(p) == 2) return 0; size_t k = n.rfind('/'); if (k == std::string::npos || k == 0) return 1; return sxfs_exists(n.substr(0, k).c_str()) == 2; }
long sxfs_size(const char* p) { SxFile* f = sx_find(sx_norm(p)); return f ? (long)f->data.size() : -1; } int sxfs_get(const char* p, std::string* o) { SxFile* f = sx_find(sx_norm(p)); if (!f || f->kind != 1) return 0; *o = f->data; return 1; }
int sxfs_list(long i, std::string* o) { for (SxFile* f = sx_files; f; f = f->next) if (f->kind && i-- == 0) { *o = f->name; return 1; } return 0; }
static SxFile* sx_mk(const char* p, int kind) { std::string n = sx_norm(p); SxFile* f = sx_find(n); if (!f) { f = new SxFile; f->name = n; f->next = sx_files; sx_files = f; } f->kind = kind; return f; }
int sxfs_put(const char* p, const char* d, unsigned long n) { SxFile* f = sx_mk(p, 1); f->data.assign(d, n); return 1; }
int sx_file_write(const char* p, const char* d, unsigned long n) { return sxfs_put(p, d, n); }
int access(const char* p, int) noexcept { if (sxfs_exists(p)) return 0; errno = ENOENT; return -1; } int mkdir(const char* p, mode_t) noexcept { if (sxfs_exists(p)) { errno = EEXIST; return -1; } std::string n = sx_norm(p); size_t k = n.rfind('/'); if (k != std::string::npos && k != 0 && sxfs_exists(n.substr(0, k).c_str()) != 2) { errno = ENOENT; return -1; } sx_mk(p, 2); return 0; }
static int sx_rm(const char* p) { SxFile* f = sx_find(sx_norm(p)); if (!f) { errno = ENOENT; return -1; } f->kind = 0; return 0; } int unlink(const char* p) noexcept { return sx_rm(p); } int remove(const char* p) noexcept { return sx_rm(p); } int rmdir(const char* p) noexcept { return sx_rm(p); }
int rename(const char* a, const char* b) noexcept { SxFile* f = sx_find(sx_norm(a)); if (!f) { errno = ENOENT; return -1; } SxFile* g = sx_find(sx_norm(b)); if (g == f) return 0; if (g) g->kind = 0; f->name = sx_norm(b); return 0; }
int stat(const char* p, struct stat* st) noexcept { int k = sxfs_exists(p); if (!k) { errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = k == 2 ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = k == 1 ? sxfs_size(p) : 0; return 0; }
int system(const char*) { sx_fail("system() called"); return -1; }
}
std::ostream& sx_ostream_insert(std::ostream& o, const char* s, long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream& sx_ostream_insert(std::ostream& o, const char* s, long n) { o._pad(s, (size_t)n); return o; }
namespace std { template ostream& operator<<(ostream&, const string&); }
extern "C" {
void* sx_memchr(const void* p, int c, size_t n) asm("memchr"); void* sx_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
char* sx_strchr(const char* s, int c) asm("strchr"); char* sx_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* sx_strrchr(const char* s, int c) asm("strrchr"); char* sx_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* sx_strstr(const char* h, const char* n) asm("strstr"); char* sx_strstr(const char* h, const char* n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; } }
}
extern "C" {
double hypot(double, double) noexcept; double atan2(double, double) noexcept; double exp(double) noexcept; double cos(double) noexcept; double sin(double) noexcept;
double sx_cabs(double a, double b) asm("cabs"); double sx_cabs(double a, double b) { return hypot(a, b); }
double sx_carg(double a, double b) asm("carg"); double sx_carg(double a, double b) { return atan2(b, a); }
double _Complex sx_cexp(double a, double b) asm("cexp"); double _Complex sx_cexp(double a, double b) { double _Complex r; __real__ r = exp(a) * cos(b); __imag__ r = exp(a) * sin(b); return r; }
double _Complex sx_muldc3(double a, double b, double c, double d) asm("__muldc3"); double _Complex sx_muldc3(double a, double b, double c, double d) { double _Complex r; __real__ r = a * c - b * d; __imag__ r = a * d + b * c; return r; }
double _Complex sx_divdc3(double a, double b, double c, double d) asm("__divdc3"); double _Complex sx_divdc3(double a, double b, double c, double d) { double _Complex r; double n = c * c + d * d; __real__ r = (a * c + b * d) / n; __imag__ r = (b * c - a * d) / n; return r; }
double round(double) noexcept; double nearbyint(double) noexcept;
long sx_lround(double a) asm("lround"); long sx_lround(double a) { return (long)round(a); } long sx_llround(double a) asm("llround"); long sx_llround(double a) { return (long)round(a); }
long sx_lrint(double a) asm("lrint"); long sx_lrint(double a) { return (long)__builtin_nearbyint(a); }
double sx_fmax(double a, double b) asm("fmax"); double sx_fmax(double a, double b) { return a != a ? b : a < b ? b : a; } double sx_fmin(double a, double b) asm("fmin"); double sx_fmin(double a, double b) { return a != a ? b : b < a ? b : a; }
}

// <system_error>: the parts libstdc++ keeps out of line
namespace std {
inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int e) const noexcept { return error_condition(e, *this); }
bool error_category::equivalent(int e, const error_condition& c) const noexcept { return default_error_condition(e) == c; }
bool error_category::equivalent(const error_code& c, int e) const noexcept { return *this == c.category() && c.value() == e; }
}
}
namespace {
struct SxCategory : std::error_category {
  const char* n; explicit SxCategory(const char* x) : n(x) {}
  const char* name() const noexcept override { return n; }
  std::string message(int) const override { return "error"; }
};
}
namespace std {
inline namespace _V2 {
const error_category& generic_category() noexcept { static SxCategory* c = new SxCategory("generic"); return *c; }
const error_category& system_category() noexcept { static SxCategory* c = new SxCategory("system"); return *c; }
__cow_string error_category::_M_message(int) const { __builtin_trap(); }
}
system_error::~system_error() noexcept {}
}
