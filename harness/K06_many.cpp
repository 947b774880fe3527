/*SPEC
{"libs": ["copp"],
 "entries": {
  "k06_many": {"reach": ["end", "all", "unreg", "inner_remove", "again"], "what": "up to six waiters registered together, some leaving before, one unregistering or registering another while it is resumed, then a second round"}},
 "bounds": "k06_many: 6 waiters (thorough: 7), one leaves before, one acts when resumed, two rounds"}
SPEC*/
#include "sym.h"
#include <libcopp/coroutine/std_coroutine_common.h>
using namespace copp;
enum { N = 6 + TIER };
struct Wt { struct promise_type : promise_base_type { Wt get_return_object() { return Wt{std::coroutine_handle<promise_type>::from_promise(*this)}; } std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() {} }; std::coroutine_handle<promise_type> h; };
static promise_caller_manager* m; static Wt w[N]; static bool reg[N], pend[N]; static int cnt_[N], actor, victim, act;
static promise_base_type::handle_delegate del(int i) { return promise_base_type::handle_delegate{w[i].h}; }
static Wt body(int i) { for (;;) { sym_assert(pend[i], "a waiter is resumed only if registered, and once"); pend[i] = false; cnt_[i]++;
  if (i == actor) { if (act == 1) { bool want = pend[victim] | reg[victim]; bool r = m->remove_caller(del(victim)); sym_assert(r == want, "unregistering tells whether the waiter was registered"); if (r) sym_reach("inner_remove"); pend[victim] = reg[victim] = false; } else if (act == 2 && !pend[victim]) { m->add_caller(del(victim)); reg[victim] = true; sym_reach("again"); } }
  co_await std::suspend_always{}; } }
static void round_() { int n = 0; for (int i = 0; i < N; i++) { pend[i] = reg[i]; n += reg[i]; reg[i] = false; } if (n == N) sym_reach("all"); m->resume_callers(); for (int i = 0; i < N; i++) sym_assert(!pend[i], "every waiter registered at completion was resumed"); int left = 0; for (int i = 0; i < N; i++) left += reg[i]; sym_assert(m->has_multiple_callers() == (left > 1), "has_multiple_callers"); }
ENTRY(k06_many) {
  uint64_t live0 = sym_live(); m = new promise_caller_manager; for (int i = 0; i < N; i++) { w[i] = body(i); reg[i] = pend[i] = false; cnt_[i] = 0; }
  int n = (int)sym_pick(N + 1, "n"), rot = (int)sym_pick(3, "order"); for (int k = 0; k < n; k++) { int i = rot == 0 ? k : rot == 1 ? N - 1 - k : (k * 5 + 2) % N; m->add_caller(del(i)); reg[i] = true; }
  { int regs = 0; for (bool b : reg) regs += b; sym_assert(m->has_multiple_callers() == (regs > 1), "has_multiple_callers says whether several waiters are registered"); }
  int gone = (int)sym_pick(N + 1, "gone"); if (gone < N) { bool r = m->remove_caller(del(gone)); sym_assert(r == reg[gone], "unregistering tells whether the waiter was registered"); if (r) sym_reach("unreg"); reg[gone] = false; }
  act = (int)sym_pick(3, "act"); actor = act ? (int)sym_pick(N, "actor") : -1; victim = act ? (int)sym_pick(N, "victim") : 0;
  round_(); actor = -1; round_(); bool none = false; for (bool b : reg) none |= b; sym_assert(!none, "nobody is left");
  delete m; for (int i = 0; i < N; i++) w[i].h.destroy(); sym_assert(sym_live() == live0, "bookkeeping leaks nothing"); sym_reach("end");
}
