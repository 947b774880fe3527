// Native replay of a solver counterexample: the same harness, compiled natively, reads the recorded inputs.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <vector>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <signal.h>
#include <pthread.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif
static uint64_t in_[65536]; static unsigned nin, pin;
static volatile long g_live;
struct Map { char* p; size_t n; size_t guard; }; static Map maps_[256]; static int nmaps;
static bool inHook;
static void onM(const volatile void*, size_t) { if (!inHook) __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED); }
static void onF(const volatile void* p) { if (p && !inHook) __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED); }
extern "C" {
long vx_page_size = 4096; long vx_minsigstksz = 2048; long vx_stack_rlimit = -1; long vx_time = 1700000000; long (*vx_time_fn)(void); time_t __wrap_time(time_t* t) { long r = vx_time_fn ? vx_time_fn() : vx_time; if (t) *t = r; return r; } static bool g_mayfail; void* vx_ctx_top; size_t vx_ctx_size;
static uint64_t nextIn() { return pin < nin ? in_[pin++] : 0; }
[[noreturn]] static void fail(const char* m) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); fflush(stderr); _exit(42); }
uint64_t sym_bits(unsigned w, const char*) { uint64_t x = nextIn(); return w >= 64 ? x : x & ((1ull << w) - 1); }
uint64_t sym_range(uint64_t lo, uint64_t hi, const char*) { uint64_t x = nextIn(); if (x < lo) x = lo; if (x > hi) x = hi; return x; }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME\n"); _exit(0); } }
void sym_assert(bool c, const char* m) { if (!c) fail(m); }
void sym_reach(const char*) {}
void sym_note(const char*, uint64_t) {}
#if defined(REPLAY_CONC)
#include "replay_conc.inc"
#else
uint64_t sym_live(void) { return (uint64_t)g_live; }
void sym_threads(unsigned, void (*)(unsigned), unsigned, unsigned, unsigned) { fail("threads need the scheduling build"); }
unsigned sym_tid(void) { return ~0u; }
#endif
uint64_t sym_concrete(uint64_t v) { return v; }
extern char __data_start, _end; __attribute__((no_sanitize("address"))) uint64_t* sym_find(uint64_t v) { uint64_t *h = nullptr; int n = 0; for (uint64_t* p = (uint64_t*)(((uintptr_t)&__data_start + 7) & ~(uintptr_t)7); p + 1 <= (uint64_t*)&_end; p++) if (*p == v && !((char*)p >= (char*)in_ && (char*)p < (char*)in_ + sizeof in_)) { h = p; n++; } return n == 1 ? h : nullptr; }
void sym_opt(uint32_t, uint64_t) {}
uint32_t sym_isvalid(const void* p, uint64_t n) {
  for (int i = 0; i < nmaps; i++) if ((char*)p >= maps_[i].p && (char*)p < maps_[i].p + maps_[i].n) return (char*)p >= maps_[i].p + maps_[i].guard && n <= maps_[i].n && (char*)p + n <= maps_[i].p + maps_[i].n;
#if defined(REPLAY_CONC)
  return cc_valid(p, n);
#elif defined(__SANITIZE_ADDRESS__)
  return n <= (1ull << 46) && __asan_region_is_poisoned(const_cast<void*>(p), n) == nullptr;
#else
  return 1;
#endif
}
void* vx_mmap(void* a, size_t n, int prot, int flags, int fd, long off) { void* p = ::mmap(a, n, prot, flags | MAP_NORESERVE, fd, off); if (p != MAP_FAILED) { if (nmaps < 256) maps_[nmaps++] = Map{(char*)p, n, 0}; g_live++; } return p; }
int vx_munmap(void* p, size_t n) { for (int i = 0; i < nmaps; i++) if (maps_[i].p == p) { if (maps_[i].n != n) fail("munmap length differs from the mapped length"); maps_[i] = maps_[--nmaps]; g_live--; return ::munmap(p, n); } fail("munmap of a wild pointer"); }
int vx_mprotect(void* p, size_t n, int prot) { for (int i = 0; i < nmaps; i++) if (maps_[i].p == p) { if (n > maps_[i].n) fail("mprotect beyond the mapping"); maps_[i].guard = n; return ::mprotect(p, n, prot); } fail("guard page is not at the bottom of the mapping"); }
long vx_sysconf(int n) { return n == _SC_PAGESIZE ? vx_page_size : n == _SC_MINSIGSTKSZ || n == _SC_SIGSTKSZ ? vx_minsigstksz : -1; }
int vx_getpagesize(void) { return (int)vx_page_size; }
int vx_getrlimit(int, struct rlimit* l) { l->rlim_cur = l->rlim_max = vx_stack_rlimit < 0 ? RLIM_INFINITY : (rlim_t)vx_stack_rlimit; return 0; }
// the context primitives, observed
void* __real_copp_make_fcontext_v2(void* sp, size_t size, void (*fn)(void*));
void* __wrap_copp_make_fcontext_v2(void* sp, size_t size, void (*fn)(void*)) {
  vx_ctx_top = sp; vx_ctx_size = size;
  if (size < 0x48 || !sym_isvalid((char*)((uintptr_t)sp & ~(uintptr_t)15) - 0x48, 0x48) ) fail("context frame written below the bottom of the stack");
  if (!sym_isvalid((char*)sp - size, 1)) fail("stack bottom outside of its region");
#if defined(REPLAY_CONC)
  cc_make(sp, size, fn); fn = cc_tramp_();
#endif
  void* h = __real_copp_make_fcontext_v2(sp, size, fn);
  if (size <= (1u << 20) && (char*)h > (char*)sp - size) memset((char*)sp - size, 0xCC, (size_t)((char*)h - ((char*)sp - size)));
  return h;
}
struct Entry { const char* name; void (*fn)(); };
extern const Entry replay_entries[];
}
static void onSig(int s) { const char m[] = "REPLAY-VIOLATION crashed with a signal\n"; (void)!write(2, m, sizeof m - 1); _exit(42); }
int main(int argc, char** argv) {
  FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr; char b[512]; if (f) { while (fgets(b, sizeof b, f)) if (b[0] >= '0' && b[0] <= '9' && nin < 65536) in_[nin++] = strtoull(b, 0, 10); fclose(f); }
  struct rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l);
  static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
#if !defined(__SANITIZE_ADDRESS__)
  struct sigaction sa{}; sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
#else
  struct sigaction sa{}; sa.sa_handler = onSig; sigaction(SIGABRT, &sa, nullptr);
  __sanitizer_install_malloc_and_free_hooks(onM, onF);
#endif
  const Entry* e = replay_entries; while (e->name && strcmp(e->name, argc > 2 ? argv[2] : "")) e++;
  if (!e->name) { fprintf(stderr, "no such entry\n"); return 3; }
  e->fn();
  fprintf(stderr, "REPLAY-OK\n"); return 0;
}
