/*SPEC
{"libs": ["copp"],
 "entries": {
  "u03_drop": {"conc": true, "reach": ["end", "threads", "last here", "last there"], "what": "two threads copying, moving and dropping their references to one object, each writing the object before it lets go; the destructor reads everything", "time_thorough": 500},
  "u03_three": {"conc": true, "reach": ["end", "threads"], "what": "three threads dropping the last three references"},
  "u03_co": {"conc": true, "reach": ["end", "threads"], "what": "two threads dropping the last references to a coroutine: object and stack go exactly once"}},
 "bounds": "two threads with 2 (thorough 3) reference operations each before both let go (4 preemptive switches, thorough 6), three threads with one drop each (3, thorough 5); 2 stale reads, 1 spurious failure",
 "assumptions": ["one intrusive_ptr variable is used by one thread at a time"]}
SPEC*/
#include "sym.h"
#include <memory>
#include <utility>
#include <ostream>
#include <libcopp/utils/intrusive_ptr.h>
#include <libcopp/utils/atomic_int_type.h>
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/coroutine/coroutine_context_container.h>
using namespace copp::util;
static int dead, deadBy, sum; static unsigned nthr; static unsigned op[3][3]; static int nops;
struct Obj { int w[3]; Obj() { w[0] = w[1] = w[2] = 0; LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_INIT(); } ~Obj() { dead++; deadBy = (int)sym_tid(); sum = w[0] + w[1] + w[2]; w[0] = w[1] = w[2] = -1; } LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_DECL(Obj) };
LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DECL(Obj)
inline LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DEFI(Obj)
typedef intrusive_ptr<Obj> P; static P* a[3]; static P* b[3];
static void body(unsigned t) {
  for (int i = 0; i < nops; i++) switch (op[t][i]) {
    case 0: *b[t] = *a[t]; break;
    case 1: b[t]->reset(); break;
    case 2: *a[t] = std::move(*b[t]); break;
    case 3: { P c(*a[t]); c->w[t] += 100; c.swap(*b[t]); break; }
  }
  P& l = *a[t] ? *a[t] : *b[t]; if (l) { l->w[t] += 1; sym_assert(l->w[t] % 100 == 1, "the object is alive while referenced"); }
  a[t]->reset(); b[t]->reset(); sym_assert(!*a[t] && !*b[t], "reset");
}
alignas(P) static char mem[6][sizeof(P)];
static void run(unsigned n, int k, unsigned preempt) {
  uint64_t live = sym_live(); dead = 0; deadBy = -1; sum = 0; nthr = n; nops = k; Obj* o = new Obj(); int copies = 0; bool dropped[3] = {};
  for (unsigned t = 0; t < n; t++) { a[t] = new (mem[2 * t]) P(o); b[t] = new (mem[2 * t + 1]) P(); bool has = false, mine = true; for (int i = 0; i < k; i++) { op[t][i] = sym_pick(4, "op"); switch (op[t][i]) { case 0: has = mine; break; case 1: has = false; break; case 2: mine = has; has = false; break; case 3: if (!mine) sym_assume(false); copies++; has = mine; break; } } dropped[t] = !mine && !has; }
  sym_threads(n, body, preempt, 2, 1);
  int must = 100 * copies; for (unsigned t = 0; t < n; t++) must += !dropped[t];
  sym_assert(dead == 1, "the object is destroyed exactly once, when the last reference goes"); sym_assert(sum == must, "the thread which drops the last reference sees what the others wrote");
  if (deadBy == 0) sym_reach("last here"); else sym_reach("last there"); sym_assert(sym_live() == live, "nothing leaks"); sym_reach("end");
}
ENTRY(u03_drop) { run(2, 2 + TIER, 4 + 2 * TIER); }
ENTRY(u03_three) { run(3, 0, 3 + 2 * TIER); }
typedef copp::coroutine_context_container<copp::allocator::stack_allocator_malloc> CO; static CO::ptr_type* ca[2]; static int fdead, fval; alignas(CO::ptr_type) static char cmem[2][sizeof(CO::ptr_type)];
struct F { bool own; F() : own(true) {} F(F&& o) : own(o.own) { o.own = false; } F(const F& o) : own(o.own) {} ~F() { if (own) fdead++; } int operator()(void*) const { return 7; } };
static void cbody(unsigned t) { CO::ptr_type c(*ca[t]); sym_assert(c->is_finished() && c->get_ret_code() == 7, "the coroutine is alive while referenced"); *ca[t] = nullptr; c.reset(); }
ENTRY(u03_co) {
  uint64_t live = sym_live(); fdead = 0; { F f; copp::allocator::stack_allocator_malloc al; CO::ptr_type p = CO::create(std::move(f), al, 64 * 1024); f.own = false; sym_assert((bool)p, "created"); p->start(nullptr); fdead = 0; for (int t = 0; t < 2; t++) ca[t] = new (cmem[t]) CO::ptr_type(p); }
  sym_threads(2, cbody, 3 + 2 * TIER, 2, 0); sym_assert(sym_live() == live, "coroutine and stack are released once"); sym_reach("end");
}
