/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t03_attach": {"conc": true, "reach": ["end", "threads", "at once", "later"], "what": "one thread ends a task (start to its end, resume, cancel or kill) while another attaches a follower that is created or waiting", "time": 150, "time_thorough": 500},
  "t03_two": {"conc": true, "reach": ["end", "threads"], "what": "two threads each attach a follower while a third ends the task", "time": 150, "time_thorough": 500}},
 "bounds": "one task ended by one thread, one follower with 3 preemptive switches (thorough 6); two followers attached by two threads with 2 (thorough 4) switches; 1 stale read",
 "assumptions": ["a killed or cancelled task counts as ended from when its exit status is set: a follower attached by another thread while the task is still unwinding starts at once", "every thread holds references to the tasks it uses"]}
SPEC*/
#include "task.inc"
static T::ptr_type A, B[2]; static int aEnded, bRuns[2], bInside[2], early, nb, how; static void* bGot[2]; static int tokens[2], atOnce[2];
struct FA : public impl::task_action_impl { int operator()(void*) override { if (how & 1) T::this_task()->yield(nullptr); aEnded = 1; return 0; } };
struct FB : public impl::task_action_impl { int k; explicit FB(int i) : k(i) {} FB(const FB& o) : k(o.k) {} FB(FB&& o) : k(o.k) {} int operator()(void* p) override { if (how & 2) { void* q = nullptr; T::this_task()->yield(&q); p = q; } sym_assert(A->is_exiting() || A->is_completed(), "a follower starts before its predecessor has ended"); if (sym_tid() == 0 || !(how & 12)) sym_assert(aEnded == 1, "a follower starts before its predecessor has ended"); bRuns[k]++; bGot[k] = p; return 0; } };
static void body(unsigned t) {
  if (t == 0) { int r; if (how & 1) r = (how & 4) ? A->kill() : (how & 8) ? A->cancel() : A->resume(); else r = A->start(); sym_assert(r == 0, "ends"); return; }
  unsigned k = t - 1; bool was = A->is_exiting(); T::ptr_type r = A->next(B[k], &tokens[k]); sym_assert(r == B[k], "attached"); if (was) { sym_assert(bRuns[k] == 1, "a follower of an ended task starts at once"); atOnce[k] = 1; }
}
static void run(int n, unsigned preempt, unsigned stale) {
  uint64_id_warm(); nb = n; aEnded = 0; A = T::create(FA(), STK, 0); for (int k = 0; k < n; k++) { bRuns[k] = 0; bGot[k] = nullptr; atOnce[k] = 0; B[k] = T::create(FB(k), STK, 0); if (how & 2) B[k]->start(nullptr); }
  if (how & 1) A->start(nullptr); sym_threads((unsigned)n + 1, body, preempt, stale, 0);
  sym_assert(aEnded == 1 && A->is_exiting(), "ended"); for (int k = 0; k < n; k++) { sym_assert(bRuns[k] == 1, "a follower is never started although its predecessor has ended"); sym_assert(bGot[k] == &tokens[k], "the follower gets the data it was attached with"); sym_assert(B[k]->get_status() == EN_TS_DONE, "the follower has ended"); if (atOnce[k]) sym_reach("at once"); else sym_reach("later"); }
  A.reset(); for (int k = 0; k < n; k++) { sym_assert(B[k]->use_count() == 1, "no reference is left"); B[k].reset(); } sym_reach("end");
}
ENTRY(t03_attach) { how = (int)sym_pick(4, "how"); if (how & 1) how |= (int)sym_pick(3, "end") << 2; run(1, 3 + 3 * TIER, 1); }
ENTRY(t03_two) { how = (int)sym_pick(4, "how"); if (how & 1) how |= (int)sym_pick(3, "end") << 2; run(2, 2 + 2 * TIER, 0); }
