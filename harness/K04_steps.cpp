/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "k04_steps": {"reach": ["end", "finished by drop", "never started", "stepped", "forced", "ended later", "ended", "waited"], "what": "tasks whose body suspends up to three (thorough: four) times at points of its own: start, step, kill with and without force, copies, awaiting, and dropping the last reference anywhere"}},
 "bounds": "k04_steps: up to 3 (thorough: 4) suspensions, histories of 3 (thorough: 5) operations before the last reference goes"}
SPEC*/
#include "sym.h"
#include <libcopp/coroutine/callable_promise.h>
#include <libcotask/task_promise.h>
using namespace copp;
typedef cotask::task_future<int, void> T;
static int s_n, s_at, s_runs, s_live, s_pos, s_status, s_seen, s_ret, w_got; static std::coroutine_handle<> s_h; static bool s_self;
struct Step { bool await_ready() const noexcept { return false; } void await_suspend(std::coroutine_handle<> h) noexcept { s_h = h; s_pos = 1; } void await_resume() const noexcept { sym_assert(s_pos == 1, "resumed only where it is suspended"); s_pos = 2; s_h = nullptr; } };
struct Local { Local() { s_live++; } ~Local() { sym_assert(s_at == s_n + 1, "a body's locals are destroyed only after it ended"); s_live--; } };
static T body() {
  Local l; s_runs++; s_pos = 2;
  for (int i = 0; i < s_n; i++) { sym_assert(s_at == i, "the steps run in order"); s_at = i + 1; co_await Step{}; Local* again = nullptr; (void)again; }
  promise_status s = co_yield T::yield_status(); s_seen = (int)s; s_at = s_n + 1; s_pos = 3; co_return s_ret;
}
static callable_future<int> wait(T t) { int r = co_await t; w_got = r; co_return r; }
ENTRY(k04_steps) {
  { T w = body(); s_n = s_at = 0; w.start(); } s_runs = s_live = s_pos = 0; s_at = 0; w_got = 0x55; s_seen = -1; s_h = nullptr;
  s_n = (int)sym_pick(4 + TIER, "steps"); s_ret = (int)sym_bits(16, "ret"); s_status = 1; bool waited = false, forced = false; uint64_t live0 = sym_live();
  { callable_future<int>* c = nullptr; T* t = new T(body()); T* t2 = nullptr; 
    int len = (int)sym_pick(4 + 2 * TIER, "len");
    for (int k = 0; k < len; k++) {
      switch (sym_pick(6, "op")) {
        case 0: { bool ok = s_status == 1; sym_assert(t->start() == ok, "only a new task starts"); if (ok) s_status = 2; break; }
        case 1: { if (s_pos != 1) { sym_assume(false); return; } sym_reach("stepped"); int at = s_at; s_h.resume(); sym_assert(s_at == at + 1, "one resumption, one step"); break; }
        case 2: case 3: { bool f = sym_pick(2, "force"); int st = 4 + (int)sym_pick(3, "status"); bool ok = s_status < 3 && s_pos != 3; int at = s_at, pos = s_pos; if (ok) s_status = st; sym_assert(t->kill((promise_status)st, f) == ok, "an unfinished task is ended once");
          if (ok && f) { sym_reach("forced"); forced = true; sym_assert(pos == 0 ? s_runs == 1 : s_at == at + 1, "a forced end resumes the body"); } else { sym_assert((s_at == at) & (s_pos == pos), "without force a body suspended by itself is not resumed"); if (ok) sym_reach("ended later"); } break; }
        case 4: if (t2) { sym_assume(false); return; } t2 = new T(*t); break;
        case 5: if (c) { sym_assume(false); return; } waited = true; c = new callable_future<int>(wait(*t)); break;
      }
      if (s_pos == 3 && s_status < 3) s_status = 3;
      sym_assert((int)t->get_status() == s_status, "status"); sym_assert(t->is_completed() == (s_pos == 3), "completed exactly when the body has returned");
      sym_assert((s_runs == (s_pos != 0)) & (s_live == (s_pos == 1)), "the body runs once and its locals live as long as it");
      if (c) { bool fin = s_pos == 3; sym_assert(c->is_ready() == (fin || s_status >= 4) || !fin, "an awaiter is woken when the body ends"); if (fin && c->is_ready()) { sym_reach("waited"); } if (!fin && s_status < 3) sym_assert(!c->is_ready(), "an awaiter is woken early"); if (fin) sym_assert(c->is_ready(), "an awaiter is not woken at the end"); }
    }
    if (s_status < 3 && s_pos == 0) sym_reach("never started"); if (s_pos == 3) sym_reach("ended");
    if (c && !c->is_ready()) { sym_assume(false); return; }
    delete c; if (t2 && sym_pick(2, "order")) { delete t; t = nullptr; delete t2; t2 = nullptr; } else { delete t2; t2 = nullptr; int at = s_at; sym_assert(at == s_at, "a task with a reference left goes on only by itself"); if (s_pos != 3) sym_reach("finished by drop"); delete t; }
    sym_assert((s_runs == 1) & (s_at == s_n + 1) & (s_pos == 3) & (s_live == 0), "a task that loses its last reference is brought to its end, every step of it");
    sym_assert(s_seen == (s_status < 3 ? 5 : s_status) || s_status == 3, "the body sees how it ended");
  }
  s_h = nullptr; sym_assert(sym_live() == live0, "nothing is left"); sym_reach("end"); (void)waited; (void)forced;
}
