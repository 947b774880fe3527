/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t06_two": {"conc": true, "reach": ["end", "threads", "killed running", "refused", "done", "cancelled"], "what": "two threads, each with two operations out of start/resume, cancel, kill and kill with timed-out on one task that yields once, first created or waiting", "time": 300},
  "t06_starts": {"conc": true, "novalidate": false, "reach": ["end", "threads", "refused", "done"], "what": "three threads starting and resuming one task", "time": 200},
  "t06_kills": {"conc": true, "reach": ["end", "threads"], "what": "a thread running a task while two others kill and cancel it", "time": 200},
  "t06_drop": {"conc": true, "reach": ["end", "threads", "dropped"], "what": "two threads operating on a task and dropping their references, the last one ends and destroys it", "time": 200}},
 "bounds": "one task with up to 2 yields; two threads of 2 operations with 2 preemptive switches (thorough 4); three threads starting with 4 (thorough 6) switches and one spurious failure of a weak compare-exchange; three threads of one operation with 2 (thorough 4) switches; two threads dropping with 3 (thorough 5) switches; 1 stale read",
 "assumptions": ["every thread holds a reference to the task during its operations"]}
SPEC*/
#include "task.inc"
static T::ptr_type* P[3]; static int inside, segs, hooks, hookAt, data, yields, done_, dead_, ident[3]; static unsigned prog[3][2], plen; static int rc[3][2]; static int tok[3][2]; static void* lastIn; static int sawKillIn;
struct A : public impl::task_action_impl {
  A() {} A(const A&) {} A(A&&) {} ~A() { dead_++; }
  void enter() { sym_assert(inside == 0, "the task runs in two threads at once"); inside = 1; segs++; data = data * 2 + 1; sym_assert(T::this_task() != nullptr, "this_task names the running task"); }
  int operator()(void* p) override { lastIn = p; for (int i = 0; i < yields; i++) { enter(); inside = 0; void* q = nullptr; sym_assert(T::this_task()->yield(&q) == 0, "yield"); lastIn = q; } enter(); inside = 0; done_++; return 5; }
  int on_finished(impl::task_impl& t) override { hooks++; sym_assert(inside == 0 && done_ == 1, "the completion hook runs after the function"); hookAt = (int)t.get_status(); sym_assert(t.is_exiting(), "the completion hook runs after the status is final"); return 0; } };
static const int KS[2] = {EN_TS_KILLED, EN_TS_TIMEOUT};
static void op(unsigned t, unsigned k) {
  T& x = **P[t]; void* me = &tok[t][k]; int r;
  switch (prog[t][k]) { case 0: r = x.start(me); break; case 1: r = x.cancel(me); break; case 2: case 3: r = x.kill((EN_TASK_STATUS)KS[prog[t][k] - 2], me); break; default: return; }
  rc[t][k] = r; sym_assert(T::this_task() == nullptr, "no current task outside of one");
  if (prog[t][k] == 0) sym_assert(r == 0 || r == COPP_EC_IS_RUNNING || r == COPP_EC_ALREADY_FINISHED, "the losing thread gets an error that names the reason");
  else { sym_assert(r == 0 || r == COPP_EC_ALREADY_FINISHED || (r == COPP_EC_IS_RUNNING && prog[t][k] == 1), "the losing thread gets an error that names the reason"); sym_assert(x.is_exiting() || r == COPP_EC_IS_RUNNING, "a task that was ended is exiting for whoever ended it"); }
}
static void body(unsigned t) { for (unsigned k = 0; k < plen; k++) op(t, k); }
static void make(int y) { uint64_id_warm(); inside = segs = hooks = hookAt = data = done_ = dead_ = 0; lastIn = nullptr; yields = y; for (int t = 0; t < 3; t++) for (int k = 0; k < 2; k++) { rc[t][k] = 99; prog[t][k] = 9; } static T::ptr_type p[3]; for (int t = 0; t < 3; t++) P[t] = &p[t]; p[0] = T::create(A(), STK, 0); dead_ = 0; p[1] = p[2] = p[0]; }
static void settle(unsigned n) {
  T& x = **P[0]; int st = (int)x.get_status(), starts = 0, ends = 0, endst = 0; bool kr = false; void* fin = nullptr;
  for (unsigned t = 0; t < n; t++) for (unsigned k = 0; k < plen; k++) if (rc[t][k] == 0) { if (prog[t][k] == 0) starts++; else { ends++; endst = prog[t][k] == 1 ? EN_TS_CANCELED : KS[prog[t][k] - 2]; fin = &tok[t][k]; } } else if (rc[t][k] != 99) sym_reach("refused");
  sym_assert(ends <= 1, "two threads ended the task"); sym_assert(st == (ends ? endst : done_ ? EN_TS_DONE : starts || segs ? EN_TS_WAITING : EN_TS_CREATED), "exactly one final status"); 
  sym_assert(hooks == (st >= EN_TS_DONE) && (!hooks || hookAt == st), "completion is notified exactly once"); sym_assert(done_ == hooks && x.is_completed() == (done_ == 1), "an ended task's function has ended"); sym_assert(inside == 0, "nobody is inside"); int d = 0; for (int i = 0; i < segs; i++) d = d * 2 + 1; sym_assert(data == d, "the writes of earlier runners are seen");
  if (!ends) sym_assert(segs == starts + (segs - starts), "x"); if (st == EN_TS_DONE) { sym_assert(starts <= segs && x.get_ret_code() == 5, "result"); sym_reach("done"); } if (st == EN_TS_CANCELED) sym_reach("cancelled");
  if (ends && segs > 1) sym_reach("killed running");
}
static void finish(int pre) { (void)pre; T& x = **P[0]; if (!x.is_exiting()) x.kill(); sym_assert(hooks == 1 && done_ == 1, "ended"); for (int t = 0; t < 3; t++) P[t]->reset(); sym_assert(dead_ == 1, "destroyed once"); sym_reach("end"); }
static int preStart(bool w) { if (!w) return 0; (*P[0])->start(); return 1; }
ENTRY(t06_two) { make(1); plen = 2; bool w = sym_pick(2, "waiting"); int s0 = preStart(w);
  for (unsigned t = 0; t < 2; t++) for (unsigned k = 0; k < 2; k++) prog[t][k] = sym_pick(4, "op"); if (prog[0][0] > prog[1][0]) { sym_assume(false); return; }
  sym_threads(2, body, 2 + 2 * TIER, 1, 0); (void)s0; settle(2); finish(s0); }
ENTRY(t06_starts) { make(1 + (int)sym_pick(2, "yields")); plen = 1; for (unsigned t = 0; t < 3; t++) prog[t][0] = 0; sym_threads(3, body, 4 + 2 * TIER, 1, 1); settle(3); finish(0); }
ENTRY(t06_kills) { make(1); plen = 1; prog[0][0] = 0; prog[1][0] = 1 + sym_pick(3, "op"); prog[2][0] = 1 + sym_pick(3, "op"); if (prog[1][0] > prog[2][0]) { sym_assume(false); return; } preStart(sym_pick(2, "waiting")); sym_threads(3, body, 2 + 2 * TIER, 1, 0); settle(3); if ((*P[0])->get_status() >= EN_TS_DONE && segs == 2 && lastIn && rc[0][0] == 0) for (int t = 1; t < 3; t++) if (rc[t][0] == 0) sym_assert(lastIn == &tok[t][0] || lastIn == &tok[0][0], "the data of the kill reaches the function"); finish(0); }
static void bodyDrop(unsigned t) { op(t, 0); P[t]->reset(); }
ENTRY(t06_drop) { make(1); plen = 1; for (unsigned t = 0; t < 2; t++) { prog[t][0] = sym_pick(5, "op"); } P[2]->reset(); if (prog[0][0] > prog[1][0]) { sym_assume(false); return; } bool w = sym_pick(2, "waiting"); preStart(w); sym_threads(2, bodyDrop, 3 + 2 * TIER, 1, 0); sym_assert(dead_ == 1, "the task is destroyed exactly once"); bool ran = segs > 0; sym_assert(done_ == (ran ? 1 : 0) && hooks == done_, "a suspended task is ended before it is destroyed"); if (prog[0][0] == 4 || prog[1][0] == 4) sym_reach("dropped"); sym_reach("end"); }
