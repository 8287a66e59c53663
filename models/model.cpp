// Parts of the C and C++ runtime that the symbolic engine needs as IR because they live in
// shared libraries. Linked into every verification module; never part of a native replay,
// which uses the real libraries. Where libstdc++ has a template, the real template is
// instantiated here rather than modelled.
#include <cctype>
#include <cerrno>
#include <climits>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <ios>
#include <istream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <typeinfo>
#include <unordered_map>
#include <vector>

#define NOINL __attribute__((noinline))

// ------------------------------------------------------------------ libc
static int errno_cell;
extern "C" {
int *__errno_location() noexcept { return &errno_cell; }
char __libc_single_threaded = 1;
void *__dso_handle = nullptr;

int isspace(int c) noexcept { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isdigit(int c) noexcept { return unsigned(c) - '0' < 10u; }
int isxdigit(int c) noexcept { return (unsigned(c) - '0' < 10u) | ((unsigned(c) | 32) - 'a' < 6u); }
int isalpha(int c) noexcept { return (unsigned(c) | 32) - 'a' < 26u; }
int isupper(int c) noexcept { return unsigned(c) - 'A' < 26u; }
int islower(int c) noexcept { return unsigned(c) - 'a' < 26u; }
int isalnum(int c) noexcept { return isalpha(c) | isdigit(c); }
int isprint(int c) noexcept { return unsigned(c) - 32 < 95u; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }

uint32_t htonl(uint32_t v) noexcept { return __builtin_bswap32(v); }
uint32_t ntohl(uint32_t v) noexcept { return __builtin_bswap32(v); }
uint16_t htons(uint16_t v) noexcept { return __builtin_bswap16(v); }
uint16_t ntohs(uint16_t v) noexcept { return __builtin_bswap16(v); }

int strcmp(const char *a, const char *b) noexcept
{
	for (; *a && *a == *b; a++, b++) {}
	return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) noexcept
{
	for (; n && *a && *a == *b; a++, b++, n--) {}
	return n ? (unsigned char)*a - (unsigned char)*b : 0;
}
char *strcpy(char *d, const char *s) noexcept
{
	char *r = d;
	while ((*d++ = *s++)) {}
	return r;
}
void *__rawmemchr(const void *p, int c) noexcept
{
	auto q = (const unsigned char *)p;
	while (*q != (unsigned char)c) q++;
	return (void *)q;
}
}
static const void *memchr_impl(const void *p, int c, size_t n)
{
	auto q = (const unsigned char *)p;
	for (; n; n--, q++) if (*q == (unsigned char)c) return q;
	return nullptr;
}
extern "C" void *gs_memchr(const void *p, int c, size_t n) __asm__("memchr");
extern "C" void *gs_memchr(const void *p, int c, size_t n) { return (void *)memchr_impl(p, c, n); }
static const char *strchr_impl(const char *s, int c)
{
	for (;; s++) {
		if (*s == (char)c) return s;
		if (!*s) return nullptr;
	}
}
extern "C" char *gs_strchr(const char *s, int c) __asm__("strchr");
extern "C" char *gs_strchr(const char *s, int c) { return (char *)strchr_impl(s, c); }

// digit value, 36 if not a digit: branch-free
static inline unsigned digitval(unsigned char ch)
{
	unsigned c = ch, l = c | 32, d = 36;
	d = (c - '0' < 10u) ? c - '0' : d;
	d = (l - 'a' < 26u) ? l - 'a' + 10 : d;
	return d;
}
// core of strto*: magnitude, sign, end, overflow
static unsigned long long strto_core(const char *s, char **end, int base, bool &neg, bool &any, bool &ovf, unsigned long long lim)
{
	const char *p = s;
	neg = false; any = false; ovf = false;
	while (isspace((unsigned char)*p)) p++;
	if (*p == '-') { neg = true; p++; }
	else if (*p == '+') p++;
	if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x' && digitval(p[2]) < 16) { p += 2; base = 16; }
	if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long acc = 0;
	const int shift = base == 16 ? 4 : base == 8 ? 3 : base == 2 ? 1 : 0;
	while (true) {
		unsigned d = digitval(*p);
		if (d >= (unsigned)base) break;
		if (shift) {
			ovf = ovf | ((acc >> (64 - shift)) != 0);
			acc = (acc << shift) | d;
		} else {
			unsigned long long t;
			ovf = ovf | __builtin_mul_overflow(acc, (unsigned long long)base, &t);
			ovf = ovf | __builtin_add_overflow(t, (unsigned long long)d, &acc);
		}
		any = true;
		p++;
	}
	(void)lim;
	if (end) *end = (char *)(any ? p : s);
	return acc;
}
extern "C" {
unsigned long long strtoull(const char *s, char **end, int base) noexcept
{
	bool neg, any, ovf;
	auto v = strto_core(s, end, base, neg, any, ovf, ULLONG_MAX);
	if (ovf) { errno_cell = ERANGE; return ULLONG_MAX; }
	return neg ? -v : v;
}
unsigned long strtoul(const char *s, char **end, int base) noexcept { return strtoull(s, end, base); }
long long strtoll(const char *s, char **end, int base) noexcept
{
	bool neg, any, ovf;
	auto v = strto_core(s, end, base, neg, any, ovf, LLONG_MAX);
	if (ovf || v > (unsigned long long)LLONG_MAX + neg) { errno_cell = ERANGE; return neg ? LLONG_MIN : LLONG_MAX; }
	return neg ? -v : v;
}
long strtol(const char *s, char **end, int base) noexcept { return strtoll(s, end, base); }
// the definitions above are redirected to __isoc23_* by glibc 2.38 headers; the plain names follow
unsigned long long gs_strtoull(const char *s, char **end, int base) __asm__("strtoull");
unsigned long long gs_strtoull(const char *s, char **end, int base) { return strtoull(s, end, base); }
unsigned long gs_strtoul(const char *s, char **end, int base) __asm__("strtoul");
unsigned long gs_strtoul(const char *s, char **end, int base) { return strtoul(s, end, base); }
long long gs_strtoll(const char *s, char **end, int base) __asm__("strtoll");
long long gs_strtoll(const char *s, char **end, int base) { return strtoll(s, end, base); }
long gs_strtol(const char *s, char **end, int base) __asm__("strtol");
long gs_strtol(const char *s, char **end, int base) { return strtol(s, end, base); }
}

// ------------------------------------------------------------------ libstdc++, non-template part
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

// messages are kept (in exception memory, never released and not counted as heap), so that what() is observable
extern "C" void *__cxa_allocate_exception(size_t) noexcept;
typedef __cow_string CS;
static const char *dupmsg(const char *s)
{
	size_t n = strlen(s);
	char *p = (char *)__cxa_allocate_exception(n + 1);
	memcpy(p, s, n + 1);
	return p;
}
__cow_string::__cow_string() { _M_p = dupmsg(""); }
__cow_string::__cow_string(const std::string &s) { _M_p = dupmsg(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t n)
{
	char *p = (char *)__cxa_allocate_exception(n + 1);
	memcpy(p, s, n);
	p[n] = 0;
	_M_p = p;
}
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }

#define EXC2(T, B) \
	T::T(const string &s) : B(s) {} \
	T::T(const char *s) : B(s) {} \
	T::~T() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC2(domain_error, logic_error)
EXC2(invalid_argument, logic_error)
EXC2(length_error, logic_error)
EXC2(out_of_range, logic_error)
EXC2(range_error, runtime_error)
EXC2(overflow_error, runtime_error)
EXC2(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }

// type_info: the ABI classes themselves are known to the engine
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
type_info::~type_info() {}

// containers: ordinary (unbalanced) versions of the out-of-line helpers
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept
{
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	auto y = x->_M_parent;
	while (x == y->_M_right) { x = y; y = y->_M_parent; }
	if (x->_M_right != y) x = y;
	return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment((_Rb_tree_node_base *)x); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
	if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
	auto y = x->_M_parent;
	while (x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement((_Rb_tree_node_base *)x); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept
{
	x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
	if (left) {
		p->_M_left = x;
		if (p == &h) { h._M_parent = x; h._M_right = x; }
		else if (p == h._M_left) h._M_left = x;
	} else {
		p->_M_right = x;
		if (p == h._M_right) h._M_right = x;
	}
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
	_M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
	if (this == last) return;
	last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
	auto t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept
{
	auto t = this;
	do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
	auto f = [](_List_node_base &a) { if (a._M_next == &a) return; };
	f(x); f(y);
	std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
	if (x._M_next == &y) x._M_next = x._M_prev = &x; else x._M_next->_M_prev = x._M_prev->_M_next = &x;
	if (y._M_next == &x) y._M_next = y._M_prev = &y; else y._M_next->_M_prev = y._M_prev->_M_next = &y;
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = n < 13 ? 13 : n * 2 + 1; return _M_next_resize; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
	if (elt + ins > bkt) return {true, (elt + ins) * 2 + 11};
	return {false, 0};
}
}	// namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
	auto q = (const unsigned char *)p;
	size_t h = seed;
	for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 1099511628211ull;
	return h;
}

// threads: single-threaded model; schedules are modelled by re-entrant doubles in the harnesses
#if defined(__GXX_ABI_VERSION)
__thread void *__once_callable;
__thread void (*__once_call)();
#endif
}	// namespace std
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(pthread_once_t *o, void (*f)()) noexcept(false)
{
	if (*o == 0) { f(); *o = 2; }
	return 0;
}

// ------------------------------------------------------------------ locale and ios
// The C locale with ctype, numpunct, num_get and num_put for char: enough for the real
// istream/ostream templates to run.
namespace std {
static size_t next_id;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++next_id; return _M_index - 1; }
locale::facet::~facet() {}
locale::id ctype<char>::id;

static ctype_base::mask ctab[257];
ctype<char>::ctype(const mask *, bool, size_t refs) : facet(refs), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(ctab), _M_widen_ok(1), _M_widen(), _M_narrow(), _M_narrow_ok(1)
{
	for (int i = 0; i < 256; i++) {
		_M_widen[i] = _M_narrow[i] = (char)i;
		if (i >= 128) continue;
		unsigned m = 0;
		if (::isupper(i)) m |= ctype_base::upper;
		if (::islower(i)) m |= ctype_base::lower;
		if (::isalpha(i)) m |= ctype_base::alpha;
		if (::isdigit(i)) m |= ctype_base::digit;
		if (::isxdigit(i)) m |= ctype_base::xdigit;
		if (::isspace(i)) m |= ctype_base::space;
		if (::isprint(i)) m |= ctype_base::print;
		if (::isprint(i) && !::isalnum(i) && i != ' ') m |= ctype_base::punct;
		if (i == ' ' || i == '\t') m |= ctype_base::blank;
		if (i < 32 || i == 127) m |= ctype_base::cntrl;
		ctab[i] = m;
	}
}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return ::toupper((unsigned char)c); }
char ctype<char>::do_tolower(char c) const { return ::tolower((unsigned char)c); }
const char *ctype<char>::do_toupper(char *lo, const char *hi) const { for (; lo < hi; lo++) *lo = ::toupper((unsigned char)*lo); return hi; }
const char *ctype<char>::do_tolower(char *lo, const char *hi) const { for (; lo < hi; lo++) *lo = ::tolower((unsigned char)*lo); return hi; }
void ctype<char>::_M_widen_init() const { _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { _M_narrow_ok = 1; }

const char *__num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char *__num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
bool __verify_grouping(const char *, size_t, const string &) throw() { return true; }

template<> void numpunct<char>::_M_initialize_numpunct(__c_locale)
{
	if (!_M_data) _M_data = new __numpunct_cache<char>;
	_M_data->_M_grouping = "";
	_M_data->_M_grouping_size = 0;
	_M_data->_M_use_grouping = false;
	_M_data->_M_decimal_point = '.';
	_M_data->_M_thousands_sep = ',';
	for (size_t i = 0; i < __num_base::_S_oend; i++) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
	for (size_t i = 0; i < __num_base::_S_iend; i++) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
	_M_data->_M_truename = "true";
	_M_data->_M_truename_size = 4;
	_M_data->_M_falsename = "false";
	_M_data->_M_falsename_size = 5;
}
template<> numpunct<char>::~numpunct() {}

static const locale::facet *facet_tab[32], *cache_tab[32];
alignas(locale::_Impl) static char impl_mem[sizeof(locale::_Impl)];
static locale::_Impl *the_impl()
{
	auto p = (locale::_Impl *)impl_mem;
	if (!p->_M_facets) {
		p->_M_refcount = 1;
		p->_M_facets = facet_tab;
		p->_M_facets_size = 32;
		p->_M_caches = cache_tab;
		facet_tab[ctype<char>::id._M_id()] = new ctype<char>(nullptr, false, 1);
		facet_tab[numpunct<char>::id._M_id()] = new numpunct<char>(1);
		facet_tab[num_get<char>::id._M_id()] = new num_get<char>(1);
		facet_tab[num_put<char>::id._M_id()] = new num_put<char>(1);
		locale l;
		auto c = new __numpunct_cache<char>(1);
		c->_M_cache(l);
		cache_tab[numpunct<char>::id._M_id()] = c;
	}
	return p;
}
locale::locale() throw() : _M_impl(the_impl()) {}
locale::locale(const locale &o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; }
const locale &locale::classic() { static locale l; return l; }
bool locale::operator==(const locale &) const throw() { return true; }
void locale::_Impl::_M_install_cache(const facet *f, size_t i) { _M_caches[i] = f; }
locale::_Impl::~_Impl() throw() {}

ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw()
{
	_M_precision = 6;
	_M_width = 0;
	_M_flags = skipws | dec;
	_M_ios_locale = locale();
}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale &l) throw() { return l; }

template class basic_string<char>;
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_iostream<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template class num_get<char>;
template class num_put<char>;
template class numpunct<char>;
template struct __numpunct_cache<char>;
#define NGI(T) template istreambuf_iterator<char> num_get<char>::_M_extract_int(istreambuf_iterator<char>, istreambuf_iterator<char>, ios_base &, ios_base::iostate &, T &) const;
NGI(unsigned short) NGI(unsigned int) NGI(long) NGI(unsigned long) NGI(long long) NGI(unsigned long long)
#define NPI(T) template ostreambuf_iterator<char> num_put<char>::_M_insert_int(ostreambuf_iterator<char>, ios_base &, char, T) const;
NPI(long) NPI(unsigned long) NPI(long long) NPI(unsigned long long)
#define ISX(T) template istream &istream::_M_extract(T &);
ISX(unsigned short) ISX(unsigned int) ISX(long) ISX(unsigned long) ISX(long long) ISX(unsigned long long) ISX(bool)
#define OSX(T) template ostream &ostream::_M_insert(T);
OSX(long) OSX(unsigned long) OSX(long long) OSX(unsigned long long) OSX(bool)
template istream &operator>>(istream &, char &);
template istream &operator>>(istream &, string &);
template istream &ws(istream &);
template ostream &endl(ostream &);
template ostream &operator<<(ostream &, const char *);
template ostream &operator<<(ostream &, char);
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template const ctype<char> &use_facet<ctype<char>>(const locale &);
template const num_get<char> &use_facet<num_get<char>>(const locale &);
template const num_put<char> &use_facet<num_put<char>>(const locale &);
template const numpunct<char> &use_facet<numpunct<char>>(const locale &);
template bool has_facet<ctype<char>>(const locale &);
template bool has_facet<num_get<char>>(const locale &);
template bool has_facet<num_put<char>>(const locale &);
template const ctype<char> *__try_use_facet<ctype<char>>(const locale &) noexcept;
template const num_get<char> *__try_use_facet<num_get<char>>(const locale &) noexcept;
template const num_put<char> *__try_use_facet<num_put<char>>(const locale &) noexcept;
template const numpunct<char> *__try_use_facet<numpunct<char>>(const locale &) noexcept;
template class allocator<char>;
template ostream &flush(ostream &);
template<> streamsize __copy_streambufs_eof(basic_streambuf<char> *, basic_streambuf<char> *, bool &) { return 0; }
}	// namespace std
