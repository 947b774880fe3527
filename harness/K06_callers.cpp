/*SPEC
{"libs": ["copp"],
 "entries": {
  "k06_flat": {"reach": ["end", "many", "unreg"], "what": "every history of add/remove/resume/query over 3 waiters whose resumption does nothing else"},
  "k06_nested": {"reach": ["end", "inner_remove", "inner_gone", "manager_gone"], "what": "waiters that, while being resumed, register again, unregister or destroy another waiter, finish, destroy the list, or resume the list again"}},
 "bounds": "3 waiters; histories of 6 (thorough: 7) operations without and 5 (6) with actions by resumed waiters; one action per resumption",
 "assumptions": ["a waiter is only destroyed after it unregistered (as the library's awaitables do)"]}
SPEC*/
#include "sym.h"
#include <libcopp/coroutine/std_coroutine_common.h>
using namespace copp;
enum { N = 3 };
struct Wt { struct promise_type : promise_base_type {
    Wt get_return_object() { return Wt{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() {} void unhandled_exception() {} };
  std::coroutine_handle<promise_type> h; };
static promise_caller_manager* g_m;
static Wt g_w[N];
static bool g_alive[N], g_done[N];         // frame exists, body finished
static bool g_reg[N];                      // registered
static int g_pend[N];                      // 1: to be resumed by a resume_callers under way
static unsigned g_resumed[N], g_nreg;
static bool g_run[N]; static bool g_nested; static int g_budget, g_depth;
static unsigned nreg() { unsigned n = 0; for (int i = 0; i < N; i++) n += g_reg[i]; return n; }
static promise_base_type::handle_delegate del(int i) { return promise_base_type::handle_delegate{g_w[i].h}; }
static void do_add(int i) {
  if (!g_m || !g_alive[i]) { sym_assume(false); return; }
  if (g_pend[i]) { sym_assume(false); return; }
  g_m->add_caller(del(i)); if (!g_done[i]) g_reg[i] = true;
}
static void do_remove(int i) {
  if (!g_m || !g_alive[i]) { sym_assume(false); return; }
  bool want = g_reg[i] || g_pend[i]; if (g_pend[i]) sym_reach("inner_remove");
  bool r = g_m->remove_caller(del(i)); sym_assert(r == want, "unregistering tells whether the waiter was registered");
  if (r) sym_reach("unreg");
  g_reg[i] = false; g_pend[i] = 0;
}
static void do_destroy(int i) { if (g_run[i]) { sym_assume(false); return; } do_remove(i); if (g_alive[i]) { auto h = g_w[i].h; g_w[i].h = nullptr; g_alive[i] = false; h.destroy(); sym_reach("inner_gone"); } }
static void do_resume() {
  bool exp[N]; unsigned before[N]; unsigned n = 0;
  for (int i = 0; i < N; i++) { exp[i] = g_reg[i] && g_alive[i] && !g_done[i]; before[i] = g_resumed[i]; if (exp[i]) { n++; } if (g_reg[i]) { g_pend[i] = exp[i]; g_reg[i] = false; } }
  if (n > 1) sym_reach("many");
  g_depth++;
  size_t r = g_m->resume_callers();
  g_depth--;
  unsigned got = 0;
  for (int i = 0; i < N; i++) { if (exp[i]) sym_assert(!g_pend[i], "every waiter registered at completion was resumed"); }
  (void)before; (void)r; (void)got;
}
static void action(int self);
static Wt body(int i) {
  for (;;) {
    sym_assert(g_pend[i] == 1, "a waiter is resumed only if registered, and once");
    g_pend[i] = 0; g_resumed[i]++; g_run[i] = true;
    if (g_nested && g_budget > 0) {
      g_budget--;
      switch (sym_pick(7, "act")) {
        case 0: break;
        case 1: do_add(i); break;                                   // wait again
        case 2: do_remove((i + 1) % N); break;
        case 3: do_destroy((i + 1 + sym_pick(N - 1, "victim")) % N); break;
        case 4: if (g_depth > 1 || !g_m) { sym_assume(false); co_return; } do_resume(); break;
        case 6: if (!g_m) { sym_assume(false); co_return; } delete g_m; g_m = nullptr; sym_reach("manager_gone"); break;
        case 5: g_done[i] = true; g_run[i] = false; co_return;
      }
    }
    g_run[i] = false; co_await std::suspend_always{};
  }
}
static void hist(bool nested, int len) {
  uint64_t live0 = sym_live();
  promise_caller_manager* m = new promise_caller_manager; g_m = m; g_nested = nested; g_budget = 3;
  for (int i = 0; i < N; i++) { g_w[i] = body(i); g_alive[i] = true; g_done[i] = g_reg[i] = g_run[i] = false; g_pend[i] = 0; g_resumed[i] = 0; }
  for (int k = 0; k < len; k++) {
    unsigned op = sym_pick(nested ? 7 : 8, "op");
    if (op < 3) do_add(op); else if (op < 6) do_remove(op - 3); else if (op == 6) do_resume(); else { m->add_caller(promise_base_type::handle_delegate{nullptr}); }
    for (int i = 0; i < N; i++) sym_assert(!g_pend[i], "nobody is left half resumed");
    if (!g_m) break;
    bool multi = m->has_multiple_callers();
    sym_assert(multi == (nreg() > 1), "has_multiple_callers says whether several waiters are registered");
  }
  if (g_m) delete m;
  for (int i = 0; i < N; i++) if (g_alive[i]) g_w[i].h.destroy();
  sym_assert(sym_live() == live0, "bookkeeping leaks nothing");
  sym_reach("end");
}
ENTRY(k06_flat) { hist(false, TIER ? 7 : 6); }
ENTRY(k06_nested) { hist(true, TIER ? 6 : 5); }
