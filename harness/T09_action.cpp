/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t09_kinds": {"reach": ["end", "resumed", "killed"], "what": "every way to give a task its function"},
  "t09_next": {"reach": ["end", "at once", "later"], "what": "every way to create a follower"},
  "t09_throw": {"reach": ["end", "threw", "made"], "what": "functors whose construction throws"}},
 "bounds": "17 ways to create, 9 ways to chain; all values passed to start, resume and next and all results; one suspension; kill, resume or drop of the suspended task", "assumptions": ["the result of a member function, and of a functor that does not return int, is not part of the promise (existing tests require it to be dropped)"]}
SPEC*/
#include <memory>
#include <functional>
#include <cstring>
#include <new>
#include <list>
#include <utility>
#include <exception>
#include "sym.h"
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcotask/task.h>
using namespace copp;
using namespace cotask;
#ifdef LSYM
static const size_t STK = 8192;
#else
static const size_t STK = 256 * 1024;
#endif
struct macro_t { typedef allocator::stack_allocator_malloc stack_allocator_type; typedef coroutine_context_container<stack_allocator_type> coroutine_type; typedef int value_type; using stack_allocator_t = stack_allocator_type; using coroutine_t = coroutine_type; };
typedef task<macro_t> T;
static int g_runs, g_ret, g_live, g_bad, g_boom, g_hook; static void *g_in, *g_self; static bool g_yield; static void* g_got; static bool g_inside;
static void common(void* p, bool takes = true) { g_runs++; if (takes) g_in = p; g_inside = T::this_task() != nullptr; if (g_yield) { T::this_task()->yield(&g_got); } }
struct Count { int m; uint32_t v; Count(uint32_t x = 7) : m(99), v(x) { g_live++; } Count(const Count& o) : m(99), v(o.v) { if (o.m != 99) g_bad++; if (g_boom && --g_boom == 0) throw 5; g_live++; } Count(Count&& o) : m(99), v(o.v) { if (o.m != 99) g_bad++; if (g_boom && --g_boom == 0) throw 5; o.v = 0; g_live++; } ~Count() { if (m != 99) g_bad++; m = 0; g_live--; } };
struct F1 { Count c; int operator()(void* p) { g_self = this; common(p); return g_ret ^ (int)c.v; } };
struct F2 { Count c; int operator()(void* p) const { common(p); return g_ret ^ (int)c.v; } };
struct F3 { Count c; int operator()() { common(nullptr, false); return g_ret ^ (int)c.v; } };
struct F4 { Count c; int operator()() const { common(nullptr, false); return g_ret ^ (int)c.v; } };
struct F5 { Count c; void operator()(void* p) { common(p); } };
struct F6 { Count c; void operator()() const { common(nullptr, false); } };
struct Act : public impl::task_action_impl { Count c; int extra; Act(uint32_t v, int e) : c(v), extra(e) {} int operator()(void* p) override { common(p); return g_ret ^ (int)c.v ^ extra; } int on_finished(impl::task_impl& t) override { g_hook++; sym_assert(static_cast<T*>(&t)->is_exiting(), "the hook gets the ended task"); return 0; } };
static int f_int(void* p) { common(p); return g_ret; }
static short f_short(void* p) { common(p); return (short)g_ret; }
static bool f_bool(void* p) { common(p); return g_ret & 1; }
static unsigned f_uns(void* p) { common(p); return (unsigned)g_ret; }
static void f_void(void* p) { common(p); }
struct Obj { int id; int run(void* p) { common(p); g_self = this; return g_ret; } void nop(void* p) { common(p); g_self = this; } };
static Obj g_obj[2];
enum { KINDS = 17 };
static T::ptr_type make(unsigned kind, uint32_t v, size_t priv, int& expect, bool& takes, bool& known) {
  takes = known = true; int r = g_ret; expect = r; allocator::stack_allocator_malloc al;
  switch (kind) {
    case 0: return T::create(&f_int, STK, priv);
    case 1: expect = (short)r; return T::create(&f_short, STK, priv);
    case 2: expect = r & 1; return T::create(&f_bool, STK, priv);
    case 3: return T::create(&f_uns, al, STK, priv);
    case 4: expect = 0; return T::create(&f_void, STK, priv);
    case 5: expect = r ^ (int)v; return T::create(F1{Count(v)}, STK, priv);
    case 6: { expect = r ^ (int)v; F2 f{Count(v)}; T::ptr_type t = T::create(f, STK, priv); sym_assert(f.c.v == v, "an lvalue functor is copied, not moved from"); return t; }
    case 7: takes = false; expect = r ^ (int)v; return T::create(F3{Count(v)}, al, STK, priv);
    case 8: { takes = false; expect = r ^ (int)v; const F4 f{Count(v)}; return T::create(f, STK, priv); }
    case 9: expect = 0; return T::create(F5{Count(v)}, STK, priv);
    case 10: takes = false; expect = 0; return T::create(F6{Count(v)}, STK, priv);
    case 11: { expect = r ^ (int)v; Count c(v); return T::create([c](void* p) { common(p); return g_ret ^ (int)c.v; }, STK, priv); }
    case 12: { expect = r ^ (int)v; Count c(v); std::function<int(void*)> f = [c](void* p) { common(p); return g_ret ^ (int)c.v; }; return T::create(f, STK, priv); }
    case 13: known = false; return T::create(&Obj::run, &g_obj[1], STK, priv);
    case 14: expect = 0; return T::create(&Obj::nop, &g_obj[1], al, STK, priv);
    case 15: expect = r ^ (int)v ^ 3; return T::create(Act(v, 3), STK, priv);
    default: expect = r ^ (int)v ^ 5; return T::create_with<Act>(al, STK, priv, v, 5);
  }
}
static void reset() { { T::create(+[](void*) { return 0; }, STK, 0); } g_runs = g_live = g_bad = g_boom = g_hook = 0; g_in = g_self = g_got = nullptr; g_yield = g_inside = false; g_ret = (int)sym_bits(32, "ret"); }
ENTRY(t09_kinds) {
  reset(); uint64_t live0 = sym_live(); unsigned kind = sym_pick(KINDS, "kind"); uint32_t v = (uint32_t)sym_bits(32, "captured"); size_t priv = sym_pick(2, "private") * 24; int expect; bool takes, known; void *a = (void*)sym_bits(64, "start value"), *b = (void*)sym_bits(64, "resume value");
  { T::ptr_type t = make(kind, v, priv, expect, takes, known); sym_assert((bool)t & (t->get_status() == EN_TS_CREATED) & (g_runs == 0), "created, not run"); sym_assert(g_live == (kind >= 5 && kind != 13 && kind != 14 ? 1 : 0), "exactly one action object is kept"); sym_assert(t->get_private_buffer_size() >= priv, "private area");
    g_yield = sym_bool("yield"); sym_assert(t->start(a) == 0, "started"); sym_assert((g_runs == 1) & g_inside, "the given function runs once, in the task"); if (takes) sym_assert(g_in == a, "it gets the value passed at the start");
    if (g_yield) { sym_assert(!t->is_completed() & (t->get_status() == EN_TS_WAITING), "suspended"); switch (sym_pick(3, "then")) { case 0: sym_assert(t->resume(b) == 0, "resumed"); sym_assert(g_got == b, "it gets the value passed at the resumption"); sym_reach("resumed"); break; case 1: sym_assert(t->kill(EN_TS_KILLED, b) == 0, "killed"); sym_reach("killed"); break; default: t.reset(); sym_assert((g_runs == 1) & (g_live == 0) & (g_bad == 0), "dropped"); } }
    if (t) { sym_assert(t->is_completed() & t->is_exiting() & (g_runs == 1), "ended"); if (known) sym_assert(t->get_ret_code() == expect, "the result of the function is the task's return code"); if (kind == 13 || kind == 14) sym_assert(g_self == &g_obj[1], "a member function runs on its object"); if (kind >= 15) sym_assert(g_hook == 1, "the action's hook runs"); } }
  sym_assert((g_live == 0) & (g_bad == 0) & (sym_live() == live0), "the action is destroyed once and nothing leaks"); sym_reach("end");
}
ENTRY(t09_next) {
  reset(); uint64_t live0 = sym_live(); uint32_t v = (uint32_t)sym_bits(32, "captured"); void* a = (void*)sym_bits(64, "follow value"); allocator::stack_allocator_malloc al;
  { T::ptr_type p = T::create([](void*) { return 1; }, STK, 16); bool over = sym_bool("over"); if (over) p->start(); unsigned kind = sym_pick(9, "kind"); T::ptr_type t; int expect = g_ret ^ (int)v; bool known = true; size_t stk = STK, priv = 0;
    switch (kind) {
      case 0: t = p->next(F1{Count(v)}, a, STK, 8); priv = 8; break;
      case 1: { F2 f{Count(v)}; t = p->next(f, al, a, STK, 8); priv = 8; break; }
      case 2: expect = g_ret; t = p->next(&f_int, a, STK, 8); priv = 8; break;
      case 3: expect = (short)g_ret; t = p->next(&f_short, al, a, STK); break;
      case 4: known = false; t = p->next(&Obj::run, &g_obj[0], a, STK); break;
      case 5: known = false; t = p->next(&Obj::nop, &g_obj[0], al, a, STK); break;
      case 6: t = p->then(F1{Count(v)}, a); priv = 16; break;
      case 7: expect = g_ret; t = p->then(&f_int, a); priv = 16; break;
      default: { T::ptr_type q = T::create(Act(v, 0), STK, 0); t = p->then(q, a); sym_assert(t == q, "then returns the follower"); } }
    sym_assert((bool)t & (t != p), "a follower is made"); sym_assert(t->get_private_buffer_size() >= priv, "private area"); (void)stk;
    if (over) { sym_assert(g_runs == 1, "the follower of an ended task runs at once"); sym_reach("at once"); } else { sym_assert((g_runs == 0) & (t->get_status() == EN_TS_CREATED), "the follower waits"); if (sym_bool("kill")) p->kill(); else p->start(); sym_assert(g_runs == 1, "the follower runs when its predecessor ends"); sym_reach("later"); }
    sym_assert((g_in == a) & t->is_completed(), "the follower gets its value"); if (known) sym_assert(t->get_ret_code() == expect, "the result of the function is the task's return code"); if (kind == 4 || kind == 5) sym_assert(g_self == &g_obj[0], "a member function runs on its object"); }
  sym_assert((g_live == 0) & (g_bad == 0) & (sym_live() == live0), "nothing leaks"); sym_reach("end");
}
ENTRY(t09_throw) {
  reset(); uint64_t live0 = sym_live(); bool ok = false, threw = false;
  { F1 f{Count(3)}; g_boom = 1 + (int)sym_pick(3, "boom"); bool lv = sym_bool("lvalue"), pred = sym_bool("follower"); T::ptr_type p = pred ? T::create(&f_int, STK, 0) : T::ptr_type(); T::ptr_type t;
    try { if (pred) { if (lv) t = p->next(f, nullptr, STK); else t = p->next(F1{Count(4)}, nullptr, STK); } else { if (lv) t = T::create(f, STK, 0); else t = T::create(F1{Count(4)}, STK, 0); } } catch (int e) { threw = e == 5; }
    g_boom = 0; if (threw) { sym_assert(!t, "no task is made"); sym_assert(g_live == 1, "a failed construction leaves no action"); if (pred) { sym_assert(p->start() == 0, "the predecessor still works"); sym_assert(g_runs == 1, "nothing follows"); } sym_reach("threw"); } else { ok = (bool)t; sym_assert(ok, "made"); sym_assert(f.c.v == 3, "an lvalue functor keeps its value"); sym_reach("made"); } }
  sym_assert((g_live == 0) & (g_bad == 0) & (sym_live() == live0), "a constructor that throws leaks nothing"); sym_reach("end");
}
