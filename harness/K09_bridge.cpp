/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "k09_call": {"reach": ["end", "woken", "immediate", "killed waiter", "killed task", "nothing", "two waiters", "by reference", "held"], "what": "callables awaiting stackful tasks", "time": 100, "time_thorough": 900},
  "k09_task": {"reach": ["end", "woken", "immediate", "killed waiter", "killed task", "two waiters"], "what": "C++20 tasks awaiting stackful tasks", "time": 100, "time_thorough": 900},
  "k09_drop": {"reach": ["end", "dropped", "woken", "dropped unstarted"], "what": "awaited tasks that are released before they ended", "time": 60, "time_thorough": 600}},
 "bounds": "2 stackful tasks (at most 1 yield each), 2 C++20 coroutines with 1 or 2 waits each, 4 operations (thorough: 5), issued from outside, inside the tasks and inside the coroutines; one thread", "assumptions": ["whoever starts or resumes a task holds a reference to it during the call", "no exception leaves the function of a coroutine that waits", "a stackful task which a coroutine awaits by reference is not destroyed by that coroutine while it waits"]}
SPEC*/
#include <memory>
#include <functional>
#include <cstring>
#include <new>
#include <list>
#include <utility>
#include <exception>
#include "sym.h"
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcotask/task.h>
#include <libcotask/task_promise.h>
using namespace copp;
using namespace cotask;
#ifdef LSYM
static const size_t STK = 8192;
#else
static const size_t STK = 256 * 1024;
#endif
#define skip() do { sym_assume(false); return true; } while (0)
struct macro_t { typedef allocator::stack_allocator_malloc stack_allocator_type; typedef coroutine_context_container<stack_allocator_type> coroutine_type; typedef int value_type; using stack_allocator_t = stack_allocator_type; using coroutine_t = coroutine_type; };
typedef task<macro_t> T;
enum { N = 2, C = 2 };
enum { OP_SPAWN = 1, OP_START = 2, OP_KILL = 4, OP_KILLCO = 8, OP_DROPCO = 16, OP_YIELD = 32, OP_DROP = 64 };
struct Tk { T::ptr_type p; T* raw; int st, runs, fin, ret, yields, resumer; bool killed, gone, leaving; };   // st: 1 not run, 2 running, 3 suspended, 4 over
struct Cr { void* fut; bool (*kill)(void*, promise_status); void (*del)(void*); int (*stat)(void*); bool (*ready)(void*); int waiting, frames, waits, st, sum, active; bool held, done, spawned; };
static Tk t[N]; static Cr c[C]; static int g_left, g_cur, g_nest, g_touched; static unsigned g_mask; static bool g_taskkind;
static bool step(int self, int co);
// the tasks are alike: a task is touched only after those with lower numbers
static int pick(const char* nm) { int i = (int)sym_pick(g_touched < N ? g_touched + 1 : N, nm); if (i == g_touched) g_touched++; return i; }
struct Guard { int j; Guard(int x) : j(x) { c[j].frames++; } ~Guard() { c[j].frames--; } };
static int result(int i) { return t[i].killed ? (int)COPP_EC_TASK_IS_EXITING : t[i].ret; }
static bool over(int i) { return t[i].killed || t[i].st == 4; }
static bool inuse(int i) { for (int j = 0; j < C; j++) if (c[j].waits && c[j].held && c[j].waiting == i) return true; return false; }
static void last(int i) { if (!over(i)) { if (t[i].st == 1) t[i].gone = true; else t[i].killed = true; } }
struct HoldUp { int j; HoldUp(int x) : j(x) { c[j].held = true; } ~HoldUp() { c[j].held = false; int i = c[j].waiting; if (!t[i].p && !inuse(i)) last(i); } };
template <class F> static F body(int j) {
  Guard g(j); c[j].active++; int n = 1 + (int)sym_pick(2, "waits");
  for (int k = 0; k < n; k++) {
    unsigned how = k && !TIER ? 0 : sym_pick(4, "how"); int i = how == 3 ? -1 : pick("awaited");
    if (i >= 0 && !t[i].p) { sym_assume(false); }
    bool imm = i < 0 || over(i) || c[j].st > 3; int expect = i < 0 ? (int)COPP_EC_NOT_INITED : over(i) ? result(i) : (int)COPP_EC_TASK_IS_KILLED;
    c[j].waiting = i; c[j].waits = 1; c[j].active--; int rc, act = c[j].active;
    if (i < 0) { T::ptr_type none; rc = co_await none; sym_reach("nothing"); }
    else if (how == 0) rc = co_await t[i].p;
    else if (how == 1) { rc = co_await *t[i].p; sym_reach("by reference"); }
    else { T::ptr_type copy = t[i].p; HoldUp u(j); rc = co_await copy; sym_reach("held"); }
    sym_assert((c[j].waits == 1) & (c[j].waiting == i) & (c[j].active == act), "a waiting coroutine is resumed once, where it waits");
    c[j].waits = 0; c[j].waiting = -1; c[j].active++;
    if (imm) { sym_assert(rc == expect, "awaiting an ended task, or nothing, answers at once with its result"); sym_reach("immediate"); }
    else if (t[i].gone) { sym_assert(rc < 0, "a task that is destroyed unstarted reports an error"); }
    else if (over(i)) { sym_assert(((t[i].fin == 1) | (c[j].st > 3)) & (t[i].raw->get_status() >= EN_TS_DONE), "a waiter continues only after the awaited task's function ended"); sym_assert(rc == result(i), "a waiter gets the result of the task"); sym_reach(t[i].killed ? "killed task" : "woken"); }
    else { sym_assert((c[j].st > 3) & (rc == COPP_EC_TASK_IS_KILLED), "only the task's end or the end of the coroutine itself wakes a waiter"); sym_reach("killed waiter"); }
    c[j].sum += rc;
    if (g_left > 0 && g_nest < 4) { g_left--; g_nest++; step(g_cur, j); g_nest--; }
  }
  c[j].done = true; if (c[j].st < 3) c[j].st = 3; c[j].active--;
  co_return int(c[j].sum);
}
typedef callable_future<int> call; typedef task_future<int, void> stask;
static bool settle(bool top) {
  for (int j = 0; j < C; j++) if (c[j].fut) {
    if (top) sym_assert(!(c[j].waits && !c[j].active && c[j].waiting >= 0 && t[c[j].waiting].st == 4), "no coroutine stays suspended on a task that has ended");
    sym_assert(!(c[j].waits && c[j].waiting < 0), "awaiting nothing does not suspend");
    if (!c[j].active) { sym_assert(c[j].waits == !c[j].done, "a coroutine is suspended at a wait or has ended"); sym_assert(c[j].stat(c[j].fut) == (c[j].done || c[j].st > 3 ? c[j].st : 2), "a coroutine's status agrees"); sym_assert(c[j].ready(c[j].fut) == c[j].done, "a coroutine's readiness agrees"); } }
  int w[N] = {0, 0}; for (int j = 0; j < C; j++) if (c[j].fut && c[j].waits && c[j].waiting >= 0) w[c[j].waiting]++;
  for (int i = 0; i < N; i++) { if (w[i] > 1) sym_reach("two waiters"); if (!t[i].gone) sym_assert((t[i].runs <= 1) & (t[i].fin == (t[i].st == 4)), "a task runs once"); if (!t[i].gone && t[i].st == 4) sym_assert(t[i].raw->get_status() >= EN_TS_DONE, "an ended task stays ended"); }
  return true;
}
static bool step(int self, int co) {
  static const int ops[] = {OP_SPAWN, OP_START, OP_KILL, OP_KILLCO, OP_DROPCO, OP_YIELD, OP_DROP};
  unsigned op = sym_pick(7, "op"); if (!(g_mask & ops[op])) skip(); if (co >= 0 && (op == 5 || (op == 0 && !TIER))) skip();
  switch (op) {
    case 0: { int j = 0; while (j < C && c[j].spawned) j++; if (j == C) skip(); Cr& x = c[j]; x.spawned = true; x.st = 2; x.waiting = -1;
      if (!g_taskkind) { call* p = new call(body<call>(j)); x.fut = p; x.kill = [](void* q, promise_status s) { return ((call*)q)->kill(s); }; x.del = [](void* q) { delete (call*)q; }; x.stat = [](void* q) { return (int)((call*)q)->get_status(); }; x.ready = [](void* q) { return ((call*)q)->is_ready(); }; }
      else { stask* p = new stask(body<stask>(j)); x.fut = p; x.kill = [](void* q, promise_status s) { return ((stask*)q)->kill(s); }; x.del = [](void* q) { delete (stask*)q; }; x.stat = [](void* q) { return (int)((stask*)q)->get_status(); }; x.ready = [](void* q) { return ((stask*)q)->is_completed(); }; p->start(); }
      break; }
    case 1: { int i = pick("target"); if (!t[i].p) skip(); T::ptr_type k = t[i].p; int st = t[i].st, rc; bool ok = !t[i].killed && (st == 1 || st == 3); int was = g_cur; g_nest++; rc = st == 3 ? k->resume() : k->start(); g_nest--; sym_assert(g_cur == was, "control returns"); sym_assert(ok ? rc == 0 : rc < 0, "a task is started when it can run"); break; }
    case 2: { int i = pick("target"); if (!t[i].p) skip(); T::ptr_type k = t[i].p; unsigned kind = sym_pick(2, "kind"); bool ok = !over(i) && !t[i].leaving && !(kind == 0 && t[i].st == 2); if (t[i].leaving) skip(); bool sus = t[i].st != 2; if (ok) t[i].killed = true; g_nest++; int rc = kind == 0 ? k->cancel(nullptr) : k->kill(EN_TS_KILLED, nullptr); g_nest--; sym_assert(ok ? rc == 0 : rc < 0, "a task that has not ended can be killed"); if (ok && sus) sym_assert(t[i].st == 4, "killing a task that does not run ends it"); break; }
    case 3: { int j = (int)sym_pick(C, "co"); if (!c[j].fut || c[j].active) skip(); bool ok = !c[j].done && c[j].st < 3; int s = 4 + (g_left & 1); if (ok) c[j].st = s; g_nest++; bool r = c[j].kill(c[j].fut, (promise_status)s); g_nest--; sym_assert(r == ok, "a coroutine that has not ended can be killed"); if (ok) sym_assert(c[j].done, "a killed coroutine does not stay suspended on a task"); break; }
    case 4: { int j = (int)sym_pick(C, "co"); if (!c[j].fut || c[j].active) skip(); if (!c[j].done && c[j].st < 3) c[j].st = 5; void* f = c[j].fut; c[j].fut = nullptr; g_nest++; c[j].del(f); g_nest--; sym_assert(c[j].done & (c[j].frames == 0), "dropping a coroutine ends it and destroys its frame"); break; }
    case 5: { if (self < 0 || t[self].yields >= 1) skip(); t[self].yields++; t[self].st = 3; g_cur = t[self].resumer; int rc = t[self].raw->yield(); t[self].resumer = g_cur; g_cur = self; sym_assert(rc == 0, "yield"); t[self].st = 2; break; }
    case 6: { int i = pick("target"); if (!t[i].p || t[i].st == 2 || self >= 0 || co >= 0) skip(); bool lst = !inuse(i); T::ptr_type k; k.swap(t[i].p); if (lst) last(i); sym_reach(t[i].gone ? "dropped unstarted" : "dropped"); k.reset();
      if (lst) { for (int j = 0; j < C; j++) sym_assert(!(c[j].waits && c[j].waiting == i), "nobody stays suspended on a task that was destroyed"); t[i].gone = true; } break; }
  }
  return settle(self < 0 && co < 0);
}
struct Fn { int i; Fn(int x) : i(x) {} int operator()(void*) {
  Tk& x = t[i]; x.runs++; x.st = 2; x.resumer = g_cur; g_cur = i; int outer = g_nest; g_nest = 0;
  while (g_left > 0 && !sym_bool("leave")) { g_left--; if (!step(i, -1)) break; }
  g_nest = outer; x.ret = (int)sym_bits(8, "ret"); x.leaving = true; x.fin++; x.st = 4; g_cur = x.resumer; return x.ret; } };
static void run(int steps, unsigned mask, bool taskkind) {
  { T::create(+[](void*) { return 0; }, STK, 0); stask::id_type q = util::uint64_id_allocator::allocate(); (void)q; } uint64_t live0 = sym_live();
  g_left = steps; g_mask = mask; g_taskkind = taskkind; g_cur = -1; g_nest = g_touched = 0;
  for (int i = 0; i < N; i++) { t[i] = Tk(); t[i].st = 1; t[i].p = T::create(Fn(i), STK, 0); t[i].raw = t[i].p.get(); }
  for (int j = 0; j < C; j++) { c[j] = Cr(); c[j].waiting = -1; }
  while (g_left > 0) { g_left--; step(-1, -1); }
  for (int j = 0; j < C; j++) if (c[j].fut) { if (!c[j].done && c[j].st < 3) c[j].st = 5; void* f = c[j].fut; c[j].fut = nullptr; c[j].del(f); sym_assert(c[j].done & (c[j].frames == 0), "dropping a coroutine ends it and destroys its frame"); }
  for (int i = 0; i < N; i++) { if (!t[i].p) continue; T::ptr_type k; k.swap(t[i].p); last(i); k.reset(); t[i].gone = true; }
  sym_assert(sym_live() == live0, "nothing leaks"); sym_reach("end");
}
ENTRY(k09_call) { run(4 + TIER, OP_SPAWN | OP_START | OP_KILL | OP_KILLCO | OP_DROPCO | OP_YIELD, false); }
ENTRY(k09_task) { run(4 + TIER, OP_SPAWN | OP_START | OP_KILL | OP_KILLCO | OP_DROPCO | OP_YIELD, true); }
ENTRY(k09_drop) { run(3 + TIER, OP_SPAWN | OP_START | OP_YIELD | OP_DROP, sym_bool("kind")); }
