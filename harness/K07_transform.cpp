/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "k07_gen": {"reach": ["end", "killed", "dropped", "value"], "what": "generator with its own transform and two waiters: histories of set, reset, kill and destroy waiter, drop"},
  "k07_task": {"reach": ["end", "killedtask", "killedwaiter", "value", "unstarted"], "what": "task with its own transform awaited by up to two callables: start, gate, kill task or waiter with each status, before or after awaiting, drop"},
  "k07_call": {"reach": ["end", "killed", "value", "forced"], "what": "callable with its own transform suspended at a foreign awaitable: kill with each status before or during the wait, resumed or not"},
  "k07_chain": {"reach": ["end", "l0", "l1", "l2", "l3", "value"], "what": "callable awaiting callable awaiting task awaiting generator, each with its own transform: end at each level with each status"},
  "k07_default": {"reach": ["end"], "what": "the default transforms for every status and several value types"}},
 "bounds": "histories of 5 (thorough: 7) operations; two waiters; nesting of 4; values 10 bits wide",
 "assumptions": ["the transform does not throw"]}
SPEC*/
#include "sym.h"
#include <coroutine>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
using namespace copp;
static int tr_n[4], tr_st[4];
template <int I> struct TR { using type = int; int operator()(promise_status s) const { tr_n[I]++; tr_st[I] = (int)s; return -100 * (I + 1) - (int)s; } };
static int tv(int i, int s) { return -100 * (i + 1) - s; }
static void clear() { for (int i = 0; i < 4; i++) tr_n[i] = tr_st[i] = 0; }
typedef generator_future<int, TR<3>> gen; typedef cotask::task_future<int, void, TR<2>> task; typedef callable_future<int, TR<1>> call1; typedef callable_future<int, TR<0>> call0; typedef callable_future<int> call;
static struct { int st, r; } w[2];
// generator
template <class F> static call waiter(int i, F& f) { w[i].st = 1; int r = co_await f; w[i].st = 2; w[i].r = r; co_return r; }
ENTRY(k07_gen) {
  clear(); w[0] = {0, 0}; w[1] = {0, 0}; gen* g = new gen{[](gen::context_pointer_type) {}}; call* c[2] = {nullptr, nullptr}; bool ready = false; int val = 0, calls = 0, want[2] = {0, 0};
  for (int k = 0; k < (TIER ? 7 : 5) && g; k++) {
    switch (sym_pick(6, "op")) {
      case 0: { int i = c[0] ? 1 : 0; if (c[i]) { sym_assume(false); return; } want[i] = val; c[i] = new call(waiter(i, *g)); sym_assert(w[i].st == (ready ? 2 : 1), "waits iff not ready"); break; }
      case 1: { val = (int)sym_bits(10, "v"); for (int i = 0; i < 2; i++) if (c[i] && w[i].st == 1) { want[i] = val; sym_reach("value"); } ready = true; auto x = g->get_context(); x->set_value(val); break; }
      case 2: { int i = sym_pick(2, "i"), s = 4 + (int)sym_pick(3, "s"); if (!c[i] || w[i].st != 1) { sym_assume(false); return; } want[i] = tv(3, s); calls++; c[i]->kill((promise_status)s); sym_assert((tr_n[3] == calls) & (tr_st[3] == s), "a killed wait is transformed once, with its status"); sym_reach("killed"); break; }
      case 3: { if (!ready) { sym_assume(false); return; } g->get_context()->reset_value(); ready = false; break; }
      case 4: { int i = sym_pick(2, "i"); if (!c[i]) { sym_assume(false); return; } if (w[i].st == 1) { want[i] = tv(3, 5); calls++; } delete c[i]; c[i] = nullptr; sym_assert((w[i].st == 2) & (w[i].r == want[i]), "a destroyed waiter sees the killed status"); break; }
      case 5: { if (!ready) { calls++; for (int i = 0; i < 2; i++) if (c[i] && w[i].st == 1) { want[i] = tv(3, 5); sym_reach("dropped"); } } delete g; g = nullptr; for (int i = 0; i < 2; i++) if (c[i]) sym_assert(w[i].st == 2, "waiters of a dropped generator are told"); if (!ready) sym_assert(tr_st[3] == 5, "dropped means killed"); break; }
    }
    sym_assert(tr_n[3] == calls, "the transform is used once per failure and never for a value");
    for (int i = 0; i < 2; i++) if (c[i] && w[i].st == 2) sym_assert(w[i].r == want[i], "a waiter receives the value, or the transformed status");
  }
  for (int i = 0; i < 2; i++) delete c[i]; delete g; sym_reach("end");
}
// task; a generator which is dropped without a value makes one for its own context: the body's generator counts twice when its wait fails
static gen::context_pointer_type g_ctx; static int g_gate, g_body;
static task body(int v) { gen g{[](gen::context_pointer_type x) { g_ctx = x; g_body = 1; }}; int r = co_await g; g_ctx.reset(); g_body = 2; g_gate = r; co_return v + r; }
ENTRY(k07_task) {
  clear(); w[0] = {0, 0}; w[1] = {0, 0}; g_body = 0; int v = (int)sym_bits(10, "v"); task* t = new task(body(v)); call* c[2] = {nullptr, nullptr}; int st = 1, c2 = 0, c3 = 0, want[2] = {0, 0}, res = 0;
  auto done = [&](int gate) { res = v + gate; for (int i = 0; i < 2; i++) if (c[i] && w[i].st == 1) want[i] = res; };
  for (int k = 0; k < (TIER ? 7 : 5) && t; k++) {
    switch (sym_pick(6, "op")) {
      case 0: if (st != 1) { sym_assume(false); return; } st = 2; t->start(); sym_assert(g_body == 1, "waits"); break;
      case 1: { if (g_body != 1) { sym_assume(false); return; } int gv = (int)sym_bits(10, "gv"); st = 3; done(gv); auto x = g_ctx; g_ctx.reset(); x->set_value(gv); sym_reach("value"); break; }
      case 2: { int s = 4 + (int)sym_pick(3, "s"); if (st > 2) { sym_assume(false); return; } bool wait = g_body == 1; st = s; if (wait) { c3 += 2; done(tv(3, s)); } sym_assert(t->kill((promise_status)s), "kill"); if (wait) { sym_assert((g_gate == tv(3, s)) & (g_body == 2), "the body saw its status"); sym_reach("killedtask"); } else sym_reach("unstarted"); break; }
      case 3: { int i = c[0] ? 1 : 0; if (c[i]) { sym_assume(false); return; } c[i] = (call*)1; bool imm = g_body == 2 || st >= 4; if (g_body == 2) want[i] = res; else if (st >= 4) { want[i] = tv(2, st); c2++; } c[i] = new call(waiter(i, *t)); sym_assert(w[i].st == (imm ? 2 : 1), "waits iff the task has not ended"); break; }
      case 4: { int i = sym_pick(2, "i"), s = 4 + (int)sym_pick(3, "s"); if (!c[i] || w[i].st != 1) { sym_assume(false); return; } want[i] = tv(2, s); c2++; c[i]->kill((promise_status)s); sym_assert(tr_st[2] == s, "the waiter's own status is transformed"); sym_reach("killedwaiter"); break; }
      case 5: { if (g_body != 2) { bool own = st < 3; int os = st; if (own) st = 5; bool wait = g_body == 1; c3 += 2; delete t; t = nullptr; (void)os; (void)wait; sym_assert((g_body == 2) & (tr_n[3] == c3), "a dropped task runs to its end and is told once"); int gg = g_gate; for (int i = 0; i < 2; i++) if (c[i] && !want[i]) want[i] = v + gg; } else { delete t; t = nullptr; } break; }
    }
    sym_assert((tr_n[2] == c2) & (tr_n[3] == c3), "each transform is used once per failure and never for a value");
    for (int i = 0; i < 2; i++) if (c[i] && w[i].st == 2) sym_assert(w[i].r == want[i], "a waiter receives the result, or the transformed status");
  }
  for (int i = 0; i < 2; i++) delete c[i]; delete t; g_ctx.reset(); sym_reach("end");
}
// callable suspended at a foreign awaitable
static std::coroutine_handle<> g_h; static int g_pos;
struct Foreign { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> h) { g_h = h; } void await_resume() {} };
static call1 foreign(int v) { g_pos = 1; co_await Foreign{}; g_pos = 2; co_return v; }
static callable_future<int> wait1(call1& c) { w[0].st = 1; int r = co_await c; w[0].st = 2; w[0].r = r; co_return r; }
ENTRY(k07_call) {
  clear(); g_pos = 0; w[0] = {0, 0}; int v = (int)sym_bits(10, "v"), s = 4 + (int)sym_pick(3, "s"); unsigned how = sym_pick(6, "how");
  call1* c = new call1(foreign(v)); sym_assert(g_pos == 1, "suspended");
  call* a = nullptr;
  switch (how) {
    case 0: a = new call(wait1(*c)); g_h.resume(); sym_assert((w[0].st == 2) & (w[0].r == v) & (tr_n[1] == 0), "a value is not transformed"); sym_reach("value"); break;
    case 1: c->kill((promise_status)s); sym_assert(g_pos == 1, "not resumed where it waits for something foreign"); a = new call(wait1(*c)); sym_assert((w[0].st == 2) & (w[0].r == tv(1, s)) & (tr_n[1] == 1) & (tr_st[1] == s), "awaiting a killed callable gives its transformed status, once"); sym_reach("killed"); break;
    case 2: c->kill((promise_status)s, true); sym_assert(g_pos == 2, "forced"); a = new call(wait1(*c)); sym_assert((w[0].st == 2) & (w[0].r == v) & (tr_n[1] == 0), "a forced callable which returned delivers its value"); sym_reach("forced"); break;
    case 3: a = new call(wait1(*c)); c->kill((promise_status)s, true); sym_assert((w[0].st == 2) & (w[0].r == v) & (tr_n[1] == 0), "a forced callable which returned delivers its value"); break;
    case 4: a = new call(wait1(*c)); a->kill((promise_status)s); sym_assert((w[0].st == 2) & (tr_n[1] == 1) & (tr_st[1] == s) & (w[0].r == tv(1, s)), "a killed waiter gets its status transformed, once"); break;
    case 5: a = new call(wait1(*c)); delete a; a = nullptr; sym_assert((w[0].st == 2) & (tr_n[1] == 1) & (tr_st[1] == 5) & (w[0].r == tv(1, 5)), "a destroyed waiter sees killed, once"); break;
  }
  delete a; delete c; sym_assert(g_pos == 2, "run to its end"); sym_reach("end");
}
// chain
static task* g_t; static call1* g_c1; static call0* g_c0; static int r0, r1, r2;
static call1 mid() { task t = body(7); g_t = &t; t.start(); int r = co_await t; r1 = r; g_t = nullptr; co_return r; }
static call0 top() { call1 c = mid(); g_c1 = &c; int r = co_await c; r0 = r; g_c1 = nullptr; co_return r; }
static call root() { call0 c = top(); g_c0 = &c; int r = co_await c; r2 = r; g_c0 = nullptr; co_return r; }
ENTRY(k07_chain) {
  clear(); g_body = 0; r0 = r1 = r2 = 0; g_t = nullptr; int s = 4 + (int)sym_pick(3, "s"); call* c = new call(root()); sym_assert(g_body == 1, "waits");
  unsigned how = sym_pick(6, "how");
  switch (how) {
    case 0: { int gv = (int)sym_bits(10, "gv"); auto x = g_ctx; g_ctx.reset(); x->set_value(gv); sym_assert((tr_n[0] | tr_n[1] | tr_n[2] | tr_n[3]) == 0 & (r2 == gv + 7), "a value is never transformed"); sym_reach("value"); break; }
    case 1: c->kill((promise_status)s); sym_reach("l0"); break;
    case 2: g_c0->kill((promise_status)s); sym_reach("l1"); break;
    case 3: g_c1->kill((promise_status)s); sym_reach("l2"); break;
    case 4: g_t->kill((promise_status)s); sym_reach("l3"); break;
    case 5: delete c; c = nullptr; s = 5; break;
  }
  g_ctx.reset();
  if (how == 4) sym_assert((tr_n[3] == 2) & (g_gate == tv(3, s)) & (tr_n[0] + tr_n[1] + tr_n[2] == 0) & (r1 == 7 + tv(3, s)) & (r2 == r1), "a killed task returns what its body made of its status");
  else if (how) sym_assert((tr_n[2] == 1) & (tr_st[2] == s) & (r1 == tv(2, s)) & (tr_n[0] <= 1) & (tr_n[1] <= 1) & (r0 == (tr_n[1] ? tv(1, s) : r1)) & (r2 == (tr_n[0] ? tv(0, s) : r0)) & (tr_n[3] == 2) & (g_gate == tv(3, 5)), "the innermost waiter of the killed chain gets its status once; the others get their callee's value or their status once; the task it held is dropped");
  delete c; sym_reach("end");
}
struct Cls { promise_status s; };
template <class T> static void dflt(unsigned s) { T r = promise_error_transform<T>()((promise_status)s); sym_assert(r == (T)(s <= 1 ? -1 : -(int)s), "the default transform of an integer is the negated status"); }
ENTRY(k07_default) { unsigned s = (unsigned)sym_bits(3, "s"); sym_assume(s <= 6); dflt<int>(s); dflt<long long>(s); dflt<short>(s); dflt<signed char>(s); dflt<unsigned>(s); dflt<unsigned char>(s); sym_assert((unsigned)promise_error_transform<Cls>()((promise_status)s).s == s, "a class is built from the status"); sym_reach("end"); }
