/*SPEC
{"libs": [],
 "entries": {
  "u05_values": {"reach": ["end"], "what": "every operation of the atomic and of the unsynchronised integer, 8, 32 and 64 bits wide, signed and unsigned, plain and volatile, against integer arithmetic, for all initial values and arguments; both variants side by side over a history"},
  "u05_rmw": {"conc": true, "reach": ["end", "threads", "first", "second"], "what": "two threads, each applying one read-modify-write operation with an arbitrary argument (twice in thread 0): both take effect and each returns the value it replaced"},
  "u05_cas": {"conc": true, "reach": ["end", "threads"], "what": "two threads updating through weak (with spurious failures) and strong compare-exchange loops"},
  "u05_strong": {"conc": true, "reach": ["end", "threads"], "what": "a strong compare-exchange never fails spuriously; whichever thread finds the expected value wins"},
  "u05_order": {"conc": true, "reach": ["end", "threads", "seen"], "what": "plain data published with the weakest order each operation documents (release store, exchange, fetch, compare-exchange; acquire load or read-modify-write)"}},
 "bounds": "histories of 2 (thorough 3) operations over one value; two threads with 1 or 2 operations each, every interleaving with up to 4 preemptive switches, 2 stale reads, 2 spurious failures",
 "assumptions": ["the std::atomic variant (the only one compiled by a C++11 or later compiler)"]}
SPEC*/
#include "sym.h"
#include <libcopp/utils/atomic_int_type.h>
using namespace copp::util::lock;
template <class A, class V> static void step(A& a, V& ref, unsigned op, V x, V y) {
  typedef typename std::make_unsigned<V>::type U; V old = ref, r = 0, e = y; bool ok;
  switch (op) {
    case 0: a.store(x); ref = x; break;
    case 1: r = a.exchange(x); sym_assert(r == old, "exchange returns the old value"); ref = x; break;
    case 2: r = a.fetch_add(x); sym_assert(r == old, "fetch_add returns the old value"); ref = (V)((U)old + (U)x); break;
    case 3: r = a.fetch_sub(x); sym_assert(r == old, "fetch_sub returns the old value"); ref = (V)((U)old - (U)x); break;
    case 4: r = a.fetch_and(x); sym_assert(r == old, "fetch_and returns the old value"); ref = old & x; break;
    case 5: r = a.fetch_or(x); sym_assert(r == old, "fetch_or returns the old value"); ref = old | x; break;
    case 6: r = a.fetch_xor(x); sym_assert(r == old, "fetch_xor returns the old value"); ref = old ^ x; break;
    case 7: r = ++a; ref = (V)((U)old + 1); sym_assert(r == ref, "++a returns the new value"); break;
    case 8: r = a++; ref = (V)((U)old + 1); sym_assert(r == old, "a++ returns the old value"); break;
    case 9: r = --a; ref = (V)((U)old - 1); sym_assert(r == ref, "--a returns the new value"); break;
    case 10: r = a--; ref = (V)((U)old - 1); sym_assert(r == old, "a-- returns the old value"); break;
    case 11: r = (a = x); ref = x; sym_assert(r == x, "assignment returns the value"); break;
    default: {
      switch (op) {
        case 12: ok = a.compare_exchange_strong(e, x); break;
        case 13: ok = a.compare_exchange_strong(e, x, memory_order_acq_rel, memory_order_acquire); break;
        case 14: ok = a.compare_exchange_weak(e, x); break;
        default: ok = a.compare_exchange_weak(e, x, memory_order_release, memory_order_relaxed); break;
      }
      sym_assert(ok == (old == y), "compare_exchange succeeds exactly on the expected value"); sym_assert(e == (ok ? y : old), "and reports the value it found"); ref = ok ? x : old; } }
  sym_assert(a.load() == ref, "load"); sym_assert((V)a == ref, "conversion"); sym_assert(a.load(memory_order_acquire) == ref, "load");
}
template <class V> static void values() {
  unsigned w = sizeof(V) * 8; V i = (V)sym_bits(w, "init"), r1 = i, r2 = i; static atomic_int_type<V>* p; static atomic_int_type<unsafe_int_type<V>>* q;
  alignas(8) static char b1[16], b2[16]; p = new (b1) atomic_int_type<V>(i); q = new (b2) atomic_int_type<unsafe_int_type<V>>(i);
  { atomic_int_type<V> z; atomic_int_type<unsafe_int_type<V>> z2; sym_assert(z2.load() == 0, "a new integer is zero"); (void)z; }
  bool vol = sym_pick(2, "vol");
  for (int k = 0; k < 2 + TIER; k++) { unsigned op = sym_pick(16, "op"); V x = (V)sym_bits(w, "x"), y = (V)sym_bits(w, "y");
    if (vol) { volatile atomic_int_type<V>& vp = *p; volatile atomic_int_type<unsafe_int_type<V>>& vq = *q; step(vp, r1, op, x, y); step(vq, r2, op, x, y); } else { step(*p, r1, op, x, y); step(*q, r2, op, x, y); }
    sym_assert(r1 == r2, "both agree"); }
  sym_reach("end");
}
ENTRY(u05_values) { switch (sym_pick(5, "type")) { case 0: values<int32_t>(); break; case 1: values<uint64_t>(); break; case 2: values<int8_t>(); break; case 3: values<uint32_t>(); break; default: values<int64_t>(); } }
// threads
typedef uint32_t V; static atomic_int_type<V>* P; static unsigned ops[2]; static V arg[2], ret[3]; static int data, seen; static unsigned how[2];
static V apply(unsigned op, V x) { switch (op) { case 0: return P->exchange(x); case 1: return P->fetch_add(x); case 2: return P->fetch_sub(x); case 3: return P->fetch_and(x); case 4: return P->fetch_or(x); case 5: return P->fetch_xor(x); case 6: return ++*P; case 7: return (*P)++; case 8: return --*P; default: return (*P)--; } }
static V eff(unsigned op, V v, V x, V* r) { V n = v; *r = v; switch (op) { case 0: n = x; break; case 1: n = v + x; break; case 2: n = v - x; break; case 3: n = v & x; break; case 4: n = v | x; break; case 5: n = v ^ x; break; case 6: *r = n = v + 1; break; case 7: n = v + 1; break; case 8: *r = n = v - 1; break; default: n = v - 1; } return n; }
static void mk(V i) { alignas(8) static char b[16]; P = new (b) atomic_int_type<V>(i); }
static void bodyR(unsigned t) { ret[t] = apply(ops[t], arg[t]); if (t == 0) ret[2] = apply(ops[0], arg[0]); }
ENTRY(u05_rmw) {
  V i = (V)sym_bits(32, "init"); mk(i); for (int t = 0; t < 2; t++) { ops[t] = sym_pick(10, "op"); arg[t] = (V)sym_bits(32, "x"); ret[t] = 0; }
  sym_threads(2, bodyR, 4, 2, 0); V f = P->load(); bool any = false, ord[3];
  for (int k = 0; k < 3; k++) { V v = i, r[3]; for (int s = 0; s < 3; s++) { if (s == k) v = eff(ops[1], v, arg[1], &r[1]); else v = eff(ops[0], v, arg[0], &r[s == 0 || (k == 0 && s == 1) ? 0 : 2]); }
    ord[k] = (v == f) & (r[0] == ret[0]) & (r[1] == ret[1]) & (r[2] == ret[2]); any = any | ord[k]; }
  sym_assert(any, "an update was lost or torn"); if (ord[0]) sym_reach("first"); if (ord[2]) sym_reach("second"); sym_reach("end");
}
static void bodyC(unsigned t) { for (int k = 0; k < 2 - (int)t; k++) { V e = P->load(memory_order_relaxed); for (;;) { V n = e * 3 + 1 + t; bool b = how[t] == 0 ? P->compare_exchange_weak(e, n) : how[t] == 1 ? P->compare_exchange_strong(e, n) : how[t] == 2 ? P->compare_exchange_weak(e, n, memory_order_acq_rel, memory_order_relaxed) : P->compare_exchange_strong(e, n, memory_order_release, memory_order_relaxed); if (b) break; } } }
ENTRY(u05_cas) { V i = (V)sym_bits(32, "init"); mk(i); for (int t = 0; t < 2; t++) how[t] = sym_pick(4, "how"); sym_threads(2, bodyC, 4, 2, 2); V f = P->load(); auto a = [](V v) { return v * 3 + 1; }; auto b = [](V v) { return v * 3 + 2; }; sym_assert((f == b(a(a(i)))) | (f == a(b(a(i)))) | (f == a(a(b(i)))), "an update was lost"); sym_reach("end"); }
static int wins[2]; static V found[2];
static void bodyS(unsigned t) { V e = arg[0], n = arg[0] + 1 + t; bool b = how[t] == 0 ? P->compare_exchange_strong(e, n) : how[t] == 1 ? P->compare_exchange_strong(e, n, memory_order_acq_rel, memory_order_acquire) : const_cast<volatile atomic_int_type<V>*>(P)->compare_exchange_strong(e, n, memory_order_acq_rel); wins[t] = b; found[t] = e; }
ENTRY(u05_strong) { arg[0] = (V)sym_bits(32, "init"); mk(arg[0]); for (int t = 0; t < 2; t++) { how[t] = sym_pick(3, "how"); wins[t] = 0; } sym_threads(2, bodyS, 3, 2, 2); sym_assert(wins[0] + wins[1] == 1, "exactly one strong compare-exchange succeeds"); int w = wins[1]; sym_assert(P->load() == arg[0] + 1 + w, "the winner's value"); sym_assert(found[w] == arg[0] && found[1 - w] == arg[0] + 1 + w, "the value found"); sym_reach("end"); }
static void bodyO(unsigned t) {
  if (t == 0) { data = 7; V e = 0; switch (how[0]) { case 0: P->store(1, memory_order_release); break; case 1: P->exchange(1, memory_order_release); break; case 2: P->fetch_add(1, memory_order_release); break; case 3: P->compare_exchange_strong(e, 1, memory_order_release, memory_order_relaxed); break; case 4: P->fetch_or(1, memory_order_release); break; case 5: P->store(1); break; case 6: *P = 1; break; case 7: ++*P; break; case 8: P->fetch_xor(1, memory_order_acq_rel); break; case 9: P->fetch_sub((V)-1, memory_order_release); break; default: P->compare_exchange_strong(e, 1); } }
  else { V v, e = 5; switch (how[1]) { case 0: v = P->load(memory_order_acquire); break; case 1: v = P->load(); break; case 2: v = *P; break; case 3: v = P->fetch_add(0, memory_order_acquire); break; case 4: P->compare_exchange_strong(e, 6, memory_order_acq_rel, memory_order_acquire); v = e; break; case 5: v = P->fetch_and(~(V)0, memory_order_acquire); break; case 6: P->compare_exchange_weak(e, 6, memory_order_release, memory_order_acquire); v = e; break; default: v = P->fetch_or(0); } if (v == 1) { sym_assert(data == 7, "what was written before the release is visible after the acquire"); seen = 1; } }
}
ENTRY(u05_order) { mk(0); data = seen = 0; how[0] = sym_pick(11, "w"); how[1] = sym_pick(8, "r"); sym_threads(2, bodyO, 3, 2, 1); if (seen) sym_reach("seen"); sym_reach("end"); }
