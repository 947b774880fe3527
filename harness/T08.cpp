/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t08_end": {"conc": true, "reach": ["end", "threads", "waited", "at once"], "what": "one thread runs a task into awaiting another task which a second thread starts, resumes, cancels or kills to its end", "time": 150, "time_thorough": 600},
  "t08_two": {"conc": true, "reach": ["end", "threads", "waited", "at once"], "what": "two waiters in two threads, a third thread ends the awaited task", "time": 150, "time_thorough": 600},
  "t08_kill": {"conc": true, "reach": ["end", "threads", "killed", "waited"], "what": "the waiter is killed by a third thread while it starts to wait and the awaited task ends", "time": 150, "time_thorough": 600}},
 "bounds": "one waiter: 3 (thorough 6) preemptive switches and 1 stale read; two waiters or a killer: 2 (thorough 3) switches",
 "assumptions": ["nobody else resumes a waiting task", "every thread holds references to the tasks it uses"]}
SPEC*/
#include "task.inc"
static T::ptr_type A, W[2]; static int how, aEnded, got[2], after[2], rcs[2], hooks[2];
struct FA : public impl::task_action_impl { int operator()(void*) override { if (how & 1) T::this_task()->yield(nullptr); aEnded = 1; return 0; } };
struct FW : public impl::task_action_impl { int k; explicit FW(int i) : k(i) {} FW(const FW& o) : k(o.k) {} FW(FW&& o) : k(o.k) {}
  int operator()(void*) override { T* me = T::this_task(); got[k] = me->await_task(A); bool ex = A->is_exiting() || A->is_completed(); if (!me->is_exiting()) { sym_assert(ex, "the waiter continues before the awaited task has ended"); if (!(how & 12)) sym_assert(aEnded == 1, "what the awaited task wrote is visible"); } after[k]++; return 3; }
  int on_finished(impl::task_impl&) override { hooks[k]++; return 0; } };
static void endA() { int r; if (how & 1) r = (how & 4) ? A->kill() : (how & 8) ? A->cancel() : A->resume(); else r = A->start(); sym_assert(r == 0, "ends"); }
static void body(unsigned t) { if (t == 0) endA(); else { rcs[t - 1] = W[t - 1]->start(nullptr); } }
static void bodyK(unsigned t) { if (t == 2) rcs[1] = W[0]->kill(); else body(t); }
static void make(int n) { uint64_id_warm(); how = (int)sym_pick(2, "how"); if (how & 1) how |= (int)sym_pick(3, "end") << 2; aEnded = 0; A = T::create(FA(), STK, 0); if (how & 1) A->start(); for (int k = 0; k < n; k++) { got[k] = after[k] = rcs[k] = hooks[k] = 0; W[k] = T::create(FW(k), STK, 0); } }
static void settle(int n) { sym_assert(aEnded == 1 && A->is_exiting(), "the awaited task has ended"); for (int k = 0; k < n; k++) { sym_assert(rcs[k] == 0, "start"); sym_assert(after[k] == 1, "the wake-up of a waiter is lost"); sym_assert(got[k] == 0 || got[k] == COPP_EC_TASK_IS_EXITING, "await_task"); if (got[k]) sym_reach("at once"); else sym_reach("waited"); sym_assert(W[k]->get_status() == EN_TS_DONE && hooks[k] == 1, "the waiter ran to its end once"); } }
static void finish(int n) { A.reset(); for (int k = 0; k < n; k++) { sym_assert(W[k]->use_count() == 1, "no reference is left"); W[k].reset(); } sym_reach("end"); }
ENTRY(t08_end) { make(1); sym_threads(2, body, 3 + 3 * TIER, 1, 0); settle(1); finish(1); }
ENTRY(t08_two) { make(2); sym_threads(3, body, 2 + TIER, 0, 0); settle(2); finish(2); }
ENTRY(t08_kill) { make(1); sym_threads(3, bodyK, 2 + TIER, 0, 0); sym_assert(aEnded == 1 && A->is_exiting(), "the awaited task has ended"); sym_assert(after[0] <= 1 && hooks[0] == 1, "the waiter ends exactly once"); EN_TASK_STATUS s = W[0]->get_status(); sym_assert(rcs[1] == 0 ? s == EN_TS_KILLED : s == EN_TS_DONE, "one final status"); if (s == EN_TS_KILLED) sym_reach("killed"); if (after[0] && got[0] == 0) sym_reach("waited"); finish(1); }
