/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "m04_std": {"conc": true, "reach": ["end", "threads", "done", "ended", "kept"], "what": "two threads, with two and one operations (add, start, kill, remove, set_timeout, lookup, tick) on its own C++20 task of one shared manager", "time": 150, "time_thorough": 600}},
 "bounds": "one C++20 task per thread, 2 operations of one thread and 1 (thorough 2) of the other, 2 (thorough 3) preemptive switches",
 "assumptions": ["one C++20 task is used by one thread at a time (the library does not promise more)"]}
SPEC*/
#include "sym.h"
#include <memory>
#include <new>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
#include <libcotask/task_manager.h>
using namespace copp; using namespace cotask;
typedef task_future<int, void> T; typedef task_manager<T> Mgr;
static Mgr* mg; static T* A[2]; static T::id_type id[2]; static int runs[2], in_[2], dead[2], nops[2]; static unsigned op[2][3]; static bool timer[2], late[2]; alignas(T) static char mem[2][sizeof(T)];
static T make(int k) { runs[k]++; co_return 7 + k; }
static int st(int k) { return (int)A[k]->get_status(); }
static void body(unsigned t) {
  T::id_type x = id[t];
  for (int i = 0; i < nops[t]; i++) { int r;
    switch (op[t][i]) {
      case 0: r = mg->add_task(*A[t], 5, 0); sym_assert(r == (dead[t] ? (int)COPP_EC_TASK_IS_EXITING : in_[t] ? (int)COPP_EC_ALREADY_EXIST : 0), "adding"); if (r == 0) { in_[t] = 1; timer[t] = true; } break;
      case 1: r = mg->start(x); sym_assert(r == (in_[t] ? 0 : (int)COPP_EC_NOT_FOUND), "start by id"); if (r == 0) { dead[t] = 1; in_[t] = 0; sym_assert(runs[t] == 1 && A[t]->is_completed(), "the task ran to its end"); } break;
      case 2: r = mg->kill(x); sym_assert((r == (int)COPP_EC_NOT_FOUND) == !in_[t], "kill by id"); if (in_[t]) { in_[t] = 0; dead[t] = 1; } break;
      case 3: r = mg->remove_task(x); sym_assert((r == (int)COPP_EC_NOT_FOUND) == !in_[t], "remove by id"); in_[t] = 0; break;
      case 4: r = mg->set_timeout(x, 1000, 0); sym_assert(r == (in_[t] ? 0 : (int)COPP_EC_NOT_FOUND), "set_timeout by id"); if (in_[t]) timer[t] = true; break;
      case 5: { bool f = mg->find_task(x) != nullptr; sym_assert(f == (in_[t] != 0), f ? "a removed task is found" : "a managed task is not found"); break; }
      case 6: r = mg->tick(11 + (long)t * 2, 0); sym_assert(r == 0, "tick"); break;
    }
  }
}
static void run() {
  mg = new Mgr(); mg->tick(10, 0); for (int k = 0; k < 2; k++) { runs[k] = in_[k] = dead[k] = 0; timer[k] = late[k] = false; A[k] = new (mem[k]) T(make(k)); id[k] = A[k]->get_id(); }
  nops[0] = 2; nops[1] = 1 + TIER; for (int t = 0; t < 2; t++) { bool pre = t == 0 ? true : sym_pick(2, "added"); if (pre) { sym_assert(mg->add_task(*A[t], 5, 0) == 0, "added"); in_[t] = 1; timer[t] = true; } for (int i = 0; i < nops[t]; i++) op[t][i] = sym_pick(7, "op"); }
  sym_threads(2, body, 2 + TIER, 0, 0); size_t n = 0;
  for (int k = 0; k < 2; k++) { bool f = mg->find_task(id[k]) != nullptr; n += f; sym_assert(f == (in_[k] != 0), f ? "an ended or removed task is in the manager" : "a task left the manager although nobody ended or removed it"); if (f) sym_reach("kept"); if (dead[k]) sym_reach("ended"); if (A[k]->is_completed()) { sym_reach("done"); sym_assert(runs[k] == 1, "it ran"); } }
  sym_assert(mg->get_task_size() == n && mg->get_tick_checkpoint_size() == n, "sizes match"); delete mg; for (int k = 0; k < 2; k++) { A[k]->~T(); sym_assert(runs[k] == 1, "a task runs once"); } sym_reach("end");
}
ENTRY(m04_std) { { T w = make(0); w.start(); } run(); }
