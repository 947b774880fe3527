/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "m04_ops": {"conc": true, "reach": ["end", "threads", "left", "ended", "removed", "kept"], "what": "two threads, each with one operation out of find, start, resume, cancel, kill, remove, set_timeout and tick on a manager with two tasks, each with a timeout", "time": 200, "time_thorough": 700},
  "m04_add": {"conc": true, "reach": ["end", "threads", "added", "refused"], "what": "one thread adds a task while another adds it too, runs it to its end, kills it, ticks or works on another task", "time": 150, "time_thorough": 600},
  "m04_reset": {"conc": true, "reach": ["end", "threads"], "what": "a reset against one other operation", "time": 150, "time_thorough": 600}},
 "bounds": "a manager with 2 tasks (created or waiting, with a timeout); two threads with one operation each (thorough: one thread with two) and 2 (adding 4, reset 3; thorough 4 to 5) preemptive switches; no stale reads in quick (thorough 1)",
 "assumptions": ["a tick which meets another tick under way is ignored, as documented", "sizes and contents are read when no operation is under way", "the manager outlives the operations on it and on its tasks", "every thread holds references to the tasks it uses"]}
SPEC*/
#include "mgr.inc"
typedef task_manager<T> M;
static M* mg; static T::ptr_type A[2], keep[2]; static T::id_type id[2]; static int hooks[2], ended[2], yields, runs[2];
struct Ac : public impl::task_action_impl { int k; explicit Ac(int i) : k(i) {} Ac(const Ac& o) : k(o.k) {} Ac(Ac&& o) : k(o.k) {} int operator()(void*) override { runs[k]++; for (int i = 0; i < yields; i++) T::this_task()->yield(nullptr); ended[k]++; return 0; } int on_finished(impl::task_impl&) override { hooks[k]++; return 0; } };
enum { FIND, START, RESUME, CANCEL, KILL, REMOVE, SETT, TICK, NOPS, ADD, DSTART, DKILL, RESET };
struct O { int op, on, rc; }; static O prog[2][2]; static int plen[2]; static int found[2][2];
static void doop(unsigned t, int i) {
  O& o = prog[t][i]; T::id_type x = id[o.on]; int& r = o.rc;
  switch (o.op) {
    case FIND: { T::ptr_type p = mg->find_task(x); found[t][i] = (bool)p; sym_assert(!p || p->get_id() == x, "a lookup finds the task with this id"); r = 0; break; }
    case START: r = mg->start(x); break; case RESUME: r = mg->resume(x); break; case CANCEL: r = mg->cancel(x); break; case KILL: r = mg->kill(x, EN_TS_KILLED); break;
    case REMOVE: r = mg->remove_task(x); break; case SETT: r = mg->set_timeout(x, 50, 0); break; case TICK: r = mg->tick(o.on ? 30 : 20, 0); break;
    case ADD: r = mg->add_task(A[o.on], 0, 0); break; case DSTART: r = A[o.on]->start(nullptr); break; case DKILL: r = A[o.on]->kill(); break; case RESET: mg->reset(); r = 0; break;
  }
}
static void body(unsigned t) { for (int i = 0; i < plen[t]; i++) doop(t, i); }
static void make(int added, bool waiting, int y) {
  uint64_id_warm(); mg = new M(); yields = y; for (int k = 0; k < 2; k++) { hooks[k] = ended[k] = runs[k] = 0; A[k] = T::create(Ac(k), STK, 0); id[k] = A[k]->get_id(); }
  mg->tick(10, 0); for (int k = 0; k < added; k++) { int r = mg->add_task(A[k], 5 + 10 * k, 0); sym_assert(r == 0, "added"); if (waiting) A[k]->start(nullptr); }
  for (int t = 0; t < 2; t++) { plen[t] = 1; for (int i = 0; i < 2; i++) { prog[t][i] = O{99, 0, 99}; found[t][i] = -1; } }
}
static bool in(int k) { T::ptr_type p = mg->find_task(id[k]); sym_assert(!p || p.get() == A[k].get(), "found"); return (bool)p; }
// what every outcome has in common
static void settle() {
  int n = 0; for (int k = 0; k < 2; k++) { EN_TASK_STATUS st = A[k]->get_status(); bool i = in(k); n += i; sym_assert(st != EN_TS_RUNNING, "nobody runs the task"); sym_assert(hooks[k] == (st >= EN_TS_DONE), "a task ends exactly once"); sym_assert(ended[k] == (st >= EN_TS_DONE ? runs[k] : 0) && runs[k] <= 1, "an ended task's function has ended"); sym_assert(!i || st < EN_TS_DONE, "an ended task is still in the manager"); }
  sym_assert((int)mg->get_task_size() == n, "the size counts the tasks which can be found"); sym_assert((int)mg->get_container().size() == n, "the contents match");
}
static void finish() {
  sym_assert(mg->get_tick_checkpoint_size() <= mg->get_task_size(), "no timer is left without its task");
  delete mg; for (int k = 0; k < 2; k++) { T* t = A[k].get(); if (!t->is_exiting()) t->kill(); sym_assert(A[k]->use_count() == 1, "no reference is left"); A[k].reset(); } sym_reach("end");
}
ENTRY(m04_ops) {
  uint64_t live = 0; bool w = sym_pick(2, "waiting"); make(2, w, 1); int last = -1; (void)live;
  if (TIER) plen[1] = 2; for (unsigned t = 0; t < 2; t++) for (int i = 0; i < plen[t]; i++) { O& o = prog[t][i]; o.op = (int)sym_pick(NOPS, "op"); o.on = (int)sym_pick(o.op == TICK ? 2 : t + 1, "on"); if (!TIER && o.op < last) { sym_assume(false); return; } last = o.op; }
  sym_threads(2, body, 2 + 2 * TIER, TIER, 0); settle();
  for (int k = 0; k < 2; k++) {
    int out = 0, ends = 0, cando = 0, tick = 0, moved = 0, ticks = 0; for (int t = 0; t < 2; t++) for (int i = 0; i < plen[t]; i++) { O& o = prog[t][i];
      if (o.op == TICK) { sym_assert(o.rc == 0, "tick"); ticks++; if (k == 0 || o.on == 1) tick++; continue; } if (o.on != k) continue;
      bool nf = o.rc == COPP_EC_NOT_FOUND; switch (o.op) { case CANCEL: case KILL: case REMOVE: cando++; out += !nf; if (o.rc == 0) ends++; break; case SETT: if (o.rc == 0) moved++; break; case FIND: break; case START: case RESUME: sym_assert(o.rc == 0 || o.rc == COPP_EC_IS_RUNNING || o.rc == COPP_EC_ALREADY_FINISHED || nf, "starting names the reason"); if (o.rc == 0) cando++; break; } }
    sym_assert(out <= 1, "two threads took the same task out of the manager"); EN_TASK_STATUS st = A[k]->get_status();
    if (out) sym_reach("removed"); if (st >= EN_TS_DONE) sym_reach("ended"); if (in(k)) sym_reach("left");
    if (!cando && !tick) { sym_assert(in(k), "a task left the manager although nobody ended or removed it"); sym_reach("kept"); }
    if (out) sym_assert(!in(k), "a removed task is gone"); if (!tick) sym_assert(st != EN_TS_TIMEOUT, "only a tick times out"); if (tick && ticks == tick && !cando && !moved) sym_assert(st == EN_TS_TIMEOUT, "the tick past the deadline ends the task");
  }
  finish();
}
ENTRY(m04_add) {
  static const int W[5] = {ADD, DSTART, DKILL, TICK, KILL}; bool w = sym_pick(2, "waiting"); make(1, w, w ? 1 : 0); if (w) A[1]->start(nullptr);
  prog[0][0] = O{ADD, 1, 99}; int c = W[sym_pick(5, "other")]; prog[1][0] = O{c, c == TICK || c == KILL ? 0 : 1, 99}; bool was = w;
  if (TIER && c == ADD) { plen[1] = 2; prog[1][1] = O{sym_pick(2, "then") ? DKILL : START, 1, 99}; }
  sym_threads(2, body, 4 + TIER, 1, 0); settle(); int a = prog[0][0].rc, b = prog[1][0].rc; (void)was;
  if (c == ADD) sym_assert((a == 0) + (b == 0) >= 1 && (plen[1] == 2 || (a == 0) + (b == 0) == 1), "a task is added once"); else if (c == TICK || c == KILL) sym_assert(a == 0 && in(1), "added");
  else sym_assert(a == 0 || a == COPP_EC_TASK_IS_EXITING, "adding names the reason");
  if (a == 0) sym_reach("added"); else sym_reach("refused"); finish();
}
ENTRY(m04_reset) {
  bool w = sym_pick(2, "waiting"); make(1, w, 1); static const int W[8] = {FIND, START, KILL, REMOVE, SETT, TICK, ADD, DKILL}; prog[0][0] = O{RESET, 0, 99}; int c = W[sym_pick(8, "other")]; prog[1][0] = O{c, c == ADD ? 1 : 0, 99};
  sym_threads(2, body, 3 + TIER, 1, 0); for (int k = 0; k < 2; k++) sym_assert(A[k]->get_status() != EN_TS_RUNNING && hooks[k] == (A[k]->get_status() >= EN_TS_DONE), "a task ends exactly once");
  sym_assert(!in(0) && (A[0]->is_exiting() || c == REMOVE), "a reset ends every task of the manager"); if (c == ADD) sym_assert(in(1) || prog[1][0].rc != 0 || A[1]->is_exiting(), "a task which was added is in the manager or was ended by the reset"); finish();
}
