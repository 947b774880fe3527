// Replay of a recorded schedule on real threads: the sources are compiled with clang's thread-sanitizer instrumentation and linked with these
// hooks instead of its run time.  One thread runs at a time; the recorded inputs say which one at every atomic operation.
}  // extern "C"
#include "../engine/conc_core.h"
#include <new>
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); }
template <class T> struct RawA { typedef T value_type; RawA() {} template <class U> RawA(const RawA<U>&) {} T* allocate(size_t n) { return (T*)__real_malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { __real_free(p); } bool operator==(const RawA&) const { return true; } bool operator!=(const RawA&) const { return false; } };
template <class K, class V> using RMap = std::map<K, V, std::less<K>, RawA<std::pair<const K, V>>>;
template <class T> using RVec = std::vector<T, RawA<T>>;
struct Blk { size_t n; bool alive; char kind; }; struct RMsg { uint64_t v; CCVC rel; int tid; uint32_t clk; }; struct RLoc { unsigned bytes = 0; RVec<RMsg> ms; };
struct Rng { char* lo; char* hi; };
static RMap<uintptr_t, Blk>& blks() { static RMap<uintptr_t, Blk>* b = new (__real_malloc(sizeof(RMap<uintptr_t, Blk>))) RMap<uintptr_t, Blk>; return *b; }
static RMap<uintptr_t, RLoc> cloc; static RMap<uintptr_t, CCSh> csh; static RVec<Rng> cstk; static RVec<std::pair<Rng, void (*)(void*)>> cfn;
static struct { CCVC vc, relF, acqP; bool done; Rng stk; } ct[CC_MAX]; static CCVC csc; static int cn, cturn = CC_MAIN, calive; static unsigned cpoints; static bool cphase;
static pthread_mutex_t cmx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t ccv[CC_N]; static pthread_key_t ckey; static int ckeyOk;
static __attribute__((noipa)) int cme() { return ckeyOk ? (int)(intptr_t)pthread_getspecific(ckey) - 1 : -1; }
extern "C" {
static void cwait(int me) { pthread_mutex_lock(&cmx); while (cturn != me) pthread_cond_wait(&ccv[me], &cmx); pthread_mutex_unlock(&cmx); }
static void cgive(int to) { pthread_mutex_lock(&cmx); cturn = to; pthread_cond_signal(&ccv[to]); pthread_mutex_unlock(&cmx); }
static int cpick(int me) {
  if (++cpoints > 400000) fail("endless waiting of the threads");
  int p; if (pin < nin) { p = (int)nextIn(); if (p < 0 || p >= cn || ct[p].done) { fprintf(stderr, "REPLAY-MISMATCH\n"); _exit(0); } return p; }
  p = me >= 0 && !ct[me].done && cpoints % 97 ? me : (me < 0 ? 0 : (me + 1) % cn); while (ct[p].done) p = (p + 1) % cn; return p;
}
static void cpoint(int me) { int p = cpick(me); if (p != me) { cgive(p); cwait(me); } }
static bool cskip(uintptr_t a) { for (int i = 0; i < cn; i++) if ((char*)a >= ct[i].stk.lo && (char*)a < ct[i].stk.hi) return true; for (auto& r : cstk) if ((char*)a >= r.lo && (char*)a < r.hi) return true; return false; }
static __thread bool cin_;  // the bookkeeping itself uses (instrumented) library bodies
struct CIn { bool s; CIn() : s(cin_) { cin_ = true; } ~CIn() { cin_ = s; } };
static __attribute__((noinline)) void cacc_(uintptr_t a, size_t n, int kind, bool force); static void cacc(const void* p, size_t n, int kind, bool force = false) { if (cin_ || n == 0) return; cin_ = true; cacc_((uintptr_t)p, n, kind, force); cin_ = false; }
static void cacc_(uintptr_t a, size_t n, int kind, bool force) { auto& b = blks(); auto it = b.upper_bound(a); if (it != b.begin()) { --it; if (a < it->first + it->second.n && !it->second.alive) fail("access to released memory"); }
  int me = cme(); if (me < 0 || !cphase || ct[me].done || (!force && cskip(a))) return;
  for (uintptr_t x = a; x < a + n;) { uintptr_t w = x & ~(uintptr_t)7, e = a + n < w + 8 ? a + n : w + 8; if (csh[w].access(me, ct[me].vc, (int)(x - w), (int)(e - w), kind)) fail("data race"); x = e; }
  if (kind == CC_W && !cloc.empty()) for (auto l = cloc.lower_bound(a > 8 ? a - 8 : 0); l != cloc.end() && l->first < a + n;) if (l->first + l->second.bytes > a) l = cloc.erase(l); else ++l;
}
struct Body { void (*f)(unsigned); unsigned i; };
static void* cthread(void* x) { Body* b = (Body*)x; pthread_setspecific(ckey, (void*)(intptr_t)(b->i + 1)); { pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t n; pthread_attr_getstack(&at, &lo, &n); ct[b->i].stk = Rng{(char*)lo, (char*)lo + n}; pthread_attr_destroy(&at); }
  cgive(CC_MAIN); cwait((int)b->i); b->f(b->i); ct[b->i].done = true; calive--; if (calive) cgive(cpick((int)b->i)); else cgive(CC_MAIN); return nullptr; }
void sym_threads(unsigned n, void (*body)(unsigned), unsigned, unsigned, unsigned) {
  if (!ckeyOk) { pthread_key_create(&ckey, nullptr); ckeyOk = 1; for (auto& c : ccv) pthread_cond_init(&c, nullptr); }
  cn = calive = (int)n; cpoints = 0; cloc.clear(); csh.clear(); csc = CCVC(); static Body b[CC_MAX]; pthread_t t[CC_MAX];
  for (unsigned i = 0; i < n; i++) { ct[i].vc = ct[i].relF = ct[i].acqP = CCVC(); ct[i].vc.c[CC_MAIN] = 1; ct[i].vc.c[i] = 1; ct[i].done = false; ct[i].stk = Rng{nullptr, nullptr}; b[i] = Body{body, i}; cturn = -2; pthread_create(&t[i], nullptr, cthread, &b[i]); cwait(CC_MAIN); }
  cphase = true; cgive(cpick(-1)); cwait(CC_MAIN); cphase = false; for (unsigned i = 0; i < n; i++) pthread_join(t[i], nullptr); cn = 0;
}
unsigned sym_tid(void) { return (unsigned)cme(); }
uint64_t sym_live(void) { uint64_t n = 0; for (auto& b : blks()) n += b.second.alive; return n + (uint64_t)g_live; }
static int cc_valid(const void* p, uint64_t n) { auto& b = blks(); auto it = b.upper_bound((uintptr_t)p); if (it == b.begin()) return 1; --it; if ((uintptr_t)p >= it->first + it->second.n) return 1; return it->second.alive && (uintptr_t)p + n <= it->first + it->second.n; }
// heap: nothing is ever handed out twice
static void* cnew(size_t n, char kind) { void* p = __real_malloc(n ? n : 1); memset(p, 0xA5, n); bool s = cin_; cin_ = true; blks()[(uintptr_t)p] = Blk{n, true, kind}; cin_ = s; return p; }
static void cdel(void* p, char kind) { if (!p) return; CIn in; auto it = blks().find((uintptr_t)p); if (it == blks().end()) { if (kind == 'm') __real_free(p); return; } if (!it->second.alive) fail("released twice"); if (it->second.kind != kind) fail("allocation/deallocation mismatch"); 
  { int me = cme(); if (me >= 0 && cphase && !ct[me].done) { uintptr_t lo = (uintptr_t)p, hi = lo + it->second.n; for (auto s = csh.lower_bound(lo & ~(uintptr_t)7); s != csh.end() && s->first < hi; s = csh.erase(s)) if (s->second.access(me, ct[me].vc, 0, 8, CC_W)) fail("data race: released while in use"); for (auto l = cloc.lower_bound(lo); l != cloc.end() && l->first < hi;) l = cloc.erase(l); } }
  for (size_t i = 0; i < cstk.size();) if (cstk[i].lo >= (char*)p && cstk[i].lo < (char*)p + it->second.n) cstk.erase(cstk.begin() + (long)i); else i++;
  it->second.alive = false; }
void* __wrap_malloc(size_t n) { return cnew(n, 'm'); }
void* __wrap_calloc(size_t a, size_t b) { void* p = cnew(a * b, 'm'); memset(p, 0, a * b); return p; }
void __wrap_free(void* p) { cdel(p, 'm'); }
// contexts
struct Tr { void* fctx; void* data; };
Tr __real_copp_jump_fcontext_v2(void* to, void* data);
static void cc_tramp(Tr t) { cacc(t.fctx, 8, CC_W, true); char* here = (char*)__builtin_frame_address(0); void (*f)(void*) = nullptr; for (auto& x : cfn) if (here >= x.first.lo && here < x.first.hi) f = x.second; ((void (*)(Tr))f)(t); abort(); }
static void (*cc_tramp_())(void*) { return (void (*)(void*))cc_tramp; }
static void cc_make(void* sp, size_t n, void (*fn)(void*)) { Rng r{(char*)sp - n, (char*)sp}; bool f = false; for (auto& x : cfn) if (x.first.hi > r.lo && x.first.lo < r.hi) { x.first = r; x.second = fn; f = true; } if (!f) cfn.push_back({r, fn}); f = false; for (auto& x : cstk) if (x.hi > r.lo && x.lo < r.hi) { x = r; f = true; } if (!f) cstk.push_back(r); }
Tr __wrap_copp_jump_fcontext_v2(void* to, void* data) { cacc(to, 8, CC_W, true); Tr t = __real_copp_jump_fcontext_v2(to, data); cacc(t.fctx, 8, CC_W, true); return t; }
// waiting does nothing
int sched_yield() { return 0; } int usleep(unsigned) { return 0; } int nanosleep(const struct timespec*, struct timespec*) { return 0; } int clock_nanosleep(int, int, const struct timespec*, struct timespec*) { return 0; }
// instrumentation hooks
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_vptr_read(void** p) { cacc(p, 8, CC_R); } void __tsan_vptr_update(void** p, void* v) { if (*p != v) cacc(p, 8, CC_W); } void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { cacc(s, n, CC_R); cacc(d, n, CC_W); return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { cacc(s, n, CC_R); cacc(d, n, CC_W); return memmove(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { cacc(d, n, CC_W); return memset(d, c, n); }
#define RW(n) void __tsan_read##n(void* p) { cacc(p, n, CC_R); } void __tsan_write##n(void* p) { cacc(p, n, CC_W); } void __tsan_unaligned_read##n(void* p) { cacc(p, n, CC_R); } void __tsan_unaligned_write##n(void* p) { cacc(p, n, CC_W); } void __tsan_read_write##n(void* p) { cacc(p, n, CC_W); } void __tsan_unaligned_read_write##n(void* p) { cacc(p, n, CC_W); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static int cord(int mo) { static const int m[] = {2, 4, 4, 5, 6, 7}; return m[mo & 7]; }
static RLoc& cl(uintptr_t a, unsigned by, uint64_t now) { CIn in; RLoc& l = cloc[a]; if (l.ms.empty() || l.bytes != by) { l = RLoc(); l.bytes = by; l.ms.push_back(RMsg{now, CCVC(), CC_MAIN, 0}); } return l; }
static void crd(int me, const RMsg& m, int o) { if (ccAcq(o)) ct[me].vc.join(m.rel); else ct[me].acqP.join(m.rel); }
static void cput(int me, RLoc& l, uint64_t v, int o, const CCVC* seq) { auto& t = ct[me]; if (o == 7) t.vc.join(csc); RMsg m; m.v = v; m.rel = ccRel(o) ? t.vc : t.relF; if (seq) m.rel.join(*seq); m.tid = me; m.clk = t.vc.c[me]; l.ms.push_back(m); if (o == 7) csc.join(t.vc); if (ccRel(o)) t.vc.c[me]++; }
static bool cin(int me) { return me >= 0 && cphase && !ct[me].done; }
}
static void catm(uintptr_t a, unsigned by, int k) { if (!cskip(a)) cacc((void*)a, by, k); }
template <class T> static T aload(T* p, int mo) { int me = cme(), o = cord(mo); if (!cin(me)) { cacc(p, sizeof(T), CC_AR); return *p; } cpoint(me); catm((uintptr_t)p, sizeof(T), CC_AR); RLoc& l = cl((uintptr_t)p, sizeof(T), (uint64_t)*p); size_t age = (size_t)nextIn(); if (age >= l.ms.size()) { fprintf(stderr, "REPLAY-MISMATCH\n"); _exit(0); } RMsg m = l.ms[l.ms.size() - 1 - age]; crd(me, m, o); return (T)m.v; }
template <class T> static void astore(T* p, T v, int mo) { int me = cme(), o = cord(mo); if (!cin(me)) { cacc(p, sizeof(T), CC_AW); *p = v; return; } cpoint(me); catm((uintptr_t)p, sizeof(T), CC_AW); RLoc& l = cl((uintptr_t)p, sizeof(T), (uint64_t)*p); *p = v; cput(me, l, (uint64_t)v, o, nullptr); }
template <class T, class F> static T armw(T* p, int mo, F f) { int me = cme(), o = cord(mo); if (!cin(me)) { cacc(p, sizeof(T), CC_AW); T x = *p; *p = f(x); return x; } cpoint(me); catm((uintptr_t)p, sizeof(T), CC_AW); RLoc& l = cl((uintptr_t)p, sizeof(T), (uint64_t)*p); RMsg m = l.ms.back(); crd(me, m, o); T nv = f((T)m.v); *p = nv; cput(me, l, (uint64_t)nv, o, &m.rel); return (T)m.v; }
template <class T> static T acas(T* p, T e, T d, int mo, int fo) { int me = cme(); if (!cin(me)) { cacc(p, sizeof(T), CC_AW); T x = *p; if (x == e) *p = d; return x; } cpoint(me); bool ok = *p == e; if (ok && nextIn()) { fprintf(stderr, "REPLAY-SPURIOUS\n"); ok = false; catm((uintptr_t)p, sizeof(T), CC_AR); RLoc& l = cl((uintptr_t)p, sizeof(T), (uint64_t)*p); crd(me, l.ms.back(), cord(fo)); return (T)~e; }
  catm((uintptr_t)p, sizeof(T), ok ? CC_AW : CC_AR); RLoc& l = cl((uintptr_t)p, sizeof(T), (uint64_t)*p); RMsg m = l.ms.back(); crd(me, m, cord(ok ? mo : fo)); if (ok) { *p = d; cput(me, l, (uint64_t)d, cord(mo), &m.rel); } return (T)m.v; }
extern "C" {
#define AT(b, T) T __tsan_atomic##b##_load(T* p, int mo) { return aload<T>(p, mo); } void __tsan_atomic##b##_store(T* p, T v, int mo) { astore<T>(p, v, mo); } \
  T __tsan_atomic##b##_exchange(T* p, T v, int mo) { return armw<T>(p, mo, [=](T) { return v; }); } T __tsan_atomic##b##_fetch_add(T* p, T v, int mo) { return armw<T>(p, mo, [=](T x) { return (T)(x + v); }); } T __tsan_atomic##b##_fetch_sub(T* p, T v, int mo) { return armw<T>(p, mo, [=](T x) { return (T)(x - v); }); } \
  T __tsan_atomic##b##_fetch_and(T* p, T v, int mo) { return armw<T>(p, mo, [=](T x) { return (T)(x & v); }); } T __tsan_atomic##b##_fetch_or(T* p, T v, int mo) { return armw<T>(p, mo, [=](T x) { return (T)(x | v); }); } T __tsan_atomic##b##_fetch_xor(T* p, T v, int mo) { return armw<T>(p, mo, [=](T x) { return (T)(x ^ v); }); } \
  T __tsan_atomic##b##_compare_exchange_val(T* p, T e, T d, int mo, int fo) { return acas<T>(p, e, d, mo, fo); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { int me = cme(), o = cord(mo); if (!cin(me)) return; auto& t = ct[me]; if (ccAcq(o)) t.vc.join(t.acqP); if (o == 7) { t.vc.join(csc); csc.join(t.vc); } if (ccRel(o)) { t.relF = t.vc; t.vc.c[me]++; } }
void __tsan_atomic_signal_fence(int) {}
}
void* operator new(size_t n) { return cnew(n, 'n'); } void* operator new[](size_t n) { return cnew(n, 'a'); } void operator delete(void* p) noexcept { cdel(p, 'n'); } void operator delete[](void* p) noexcept { cdel(p, 'a'); } void operator delete(void* p, size_t) noexcept { cdel(p, 'n'); } void operator delete[](void* p, size_t) noexcept { cdel(p, 'a'); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return cnew(n, 'n'); } void operator delete(void* p, const std::nothrow_t&) noexcept { cdel(p, 'n'); }
extern "C" {
