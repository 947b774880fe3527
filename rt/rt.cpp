// Bodies, for the symbolic run, of C library and libstdc++ functions that are not in headers.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <pthread.h>
#include <unistd.h>
#undef sysconf
#undef getrlimit
#include <sys/resource.h>
#include <map>
#include <list>
#include <time.h>
#include <unordered_map>
#include <exception>
#include <stdexcept>
#include <string>
extern "C" {
long vx_page_size = 4096;
long vx_stack_rlimit = -1;
long vx_minsigstksz = 2048;
void* vx_ctx_top; size_t vx_ctx_size;
long vx_time = 1700000000; long (*vx_time_fn)(void);
time_t time(time_t* t) { long r = vx_time_fn ? vx_time_fn() : vx_time; if (t) *t = r; return r; }
long vx_sysconf(int n) { return n == _SC_PAGESIZE ? vx_page_size : n == _SC_MINSIGSTKSZ || n == _SC_SIGSTKSZ ? vx_minsigstksz : -1; }
int vx_getpagesize(void) { return (int)vx_page_size; }
int vx_getrlimit(int, struct rlimit* l) { l->rlim_cur = l->rlim_max = vx_stack_rlimit < 0 ? (rlim_t)-1 : (rlim_t)vx_stack_rlimit; return 0; }
char __libc_single_threaded = 1;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (unsigned char)*a - (unsigned char)*b : 0; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
// thread specific data
static thread_local void* rt_tls[16];
static unsigned rt_nkeys = 1;
int pthread_key_create(pthread_key_t* k, void (*)(void*)) { *k = rt_nkeys++; return 0; }
void* pthread_getspecific(pthread_key_t k) { return rt_tls[k & 15]; }
int pthread_setspecific(pthread_key_t k, const void* v) { rt_tls[k & 15] = (void*)v; return 0; }
int pthread_once(pthread_once_t* o, void (*f)(void)) { if (*o == 0) { *o = 1; f(); } return 0; }
int pthread_mutex_lock(pthread_mutex_t*) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) { return 0; }
int __cxa_guard_acquire(uint64_t* g) { if (*(unsigned char*)g) return 0; return 1; }
void __cxa_guard_release(uint64_t* g) { *(unsigned char*)g = 1; }
void __cxa_guard_abort(uint64_t*) {}
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
}
#include "rt_std.inc"
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
// the message of a library exception: the caller's text, not copied
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const char* p, size_t) : _M_p(p) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
runtime_error::runtime_error(const char* p) : _M_msg(p, 0) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const char* p) : _M_msg(p, 0) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
invalid_argument::invalid_argument(const char* p) : logic_error(p) {}
invalid_argument::~invalid_argument() noexcept {}
out_of_range::out_of_range(const char* p) : logic_error(p) {}
out_of_range::~out_of_range() noexcept {}
length_error::length_error(const char* p) : logic_error(p) {}
length_error::~length_error() noexcept {}
}  // namespace std
