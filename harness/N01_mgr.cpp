/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "n01_hist": {"time": 400, "reach": ["end", "added", "refused add", "unknown", "started", "forgotten", "removed", "killed"], "what": "add, lookup, sizes, start, kill, cancel and remove by id, direct start and kill, tasks acting on the manager from their bodies", "time_thorough": 800},
  "n01_refs": {"time": 400, "reach": ["end", "added", "started", "dropped", "last reference", "removed", "destroyed"], "what": "the same with dropped outside handles, a second manager and destruction of the manager", "time_thorough": 800},
  "n01_tick": {"time": 400, "reach": ["end", "added", "timed out", "reset", "tick in tick", "rebased"], "what": "ticks, resets and further operations by tasks that time out", "time_thorough": 800},
  "n01_reset": {"reach": ["end", "added", "reset", "destroyed", "refused in reset", "reset in reset"], "what": "reset and destruction by the owner and by tasks, in any state of the tasks", "time_thorough": 800},
  "n01_wide": {"reach": ["end", "late", "not yet", "first tick", "stale tick", "never", "moved"], "what": "one task with an arbitrary timeout, possibly changed, against two ticks at 64-bit times", "time_thorough": 800},
  "n01_order": {"time": 400, "reach": ["end", "late", "not yet", "first tick", "stale tick", "never"], "what": "two tasks with arbitrary timeouts against two ticks", "time_thorough": 800},
  "n01_three": {"reach": ["end", "added", "killed", "removed", "reset", "destroyed", "dropped"], "what": "three managed tasks, some waiting, then every history of operations by id, kills, drops, reset and destruction, also from their bodies", "time_thorough": 800},
  "n01_due": {"reach": ["end", "added", "timed out", "reset"], "what": "three managed tasks with timeouts, some waiting, and what their bodies do while a tick ends them", "time_thorough": 800},
  "n01_many": {"reach": ["end", "late", "not yet", "first tick", "moved"], "what": "four tasks with any timeouts of a few seconds, one changed, against ticks", "time_thorough": 800}},
 "bounds": "2 tasks, 5 operations in any nesting (thorough: 6); 3 tasks in one manager, then 3 operations (thorough: 4); 4 tasks with timeouts of 1 to 4 and ticks of 1 to 8 seconds; one task: all seconds up to 2^61, two tasks: seconds up to 255; all nanoseconds 0..999999999",
 "assumptions": ["whoever starts or resumes a task holds a reference to it during the call", "a manager is not destroyed while one of its own operations is under way", "nanoseconds within 0..999999999 as documented", "times and timeouts do not overflow the clock type", "a task does not drop the last reference to itself while it runs"]}
SPEC*/
#include "sym.h"
#include <memory>
#include <new>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
#include <libcotask/task_manager.h>
using namespace copp; using namespace cotask;
typedef task_future<int, void> T; typedef task_manager<T> Mgr; typedef generator_future<int> gen;
#define skip() do { sym_assume(false); return 0; } while (0)
enum { ADD = 1, START = 2, KILL = 4, CANCEL = 8, REMOVE = 16, DKILL = 32, DSTART = 64, FIRE = 128, WAIT = 256, RET = 512, TICK = 1024, RESET = 2048, DESTROY = 4096, DROP = 8192, ADD2 = 16384 };
template <int NT> struct Sim {
  struct M { T p; std::weak_ptr<T::context_type> w; T::id_type id = 0; int st = 1, runs = 0, temps = 0, pend = 0; long deadline = 0, rel = 0; bool in = false, in2 = false, was = false, done = false, wait = false, run = false; gen::context_pointer_type g; };
  M m[NT]; enum { n = NT }; int left, touched = 0, opdepth = 0, intick = 0, inreset = 0, depth = 0; bool wasreset = false; unsigned mask; long last = 0, now = 10; Mgr::ptr_type mg, mg2; Mgr* mp = nullptr;
  int pick(const char* nm) { int k = (int)sym_pick(touched < n ? (unsigned)touched + 1 : (unsigned)n, nm); if (k == touched) touched++; return k; }
  int raw(M& x) { auto c = x.w.lock(); return c ? (int)c->get_status() : 0; }
  void out(M& x) { x.in = false; x.pend = 0; x.deadline = x.rel = 0; }
  void sync() { for (M& x : m) if (x.pend && x.st < 3) { int a = raw(x); if (a == x.pend) { x.st = a; x.in = false; x.deadline = x.rel = 0; x.pend = 0; } } else if (x.pend && x.in && intick && mp && !inreset && !mp->find_task(x.id)) out(x); }
  int refs(M& x) { return (int)x.p.valid() + x.in + x.in2 + x.temps + x.was; }
  void agree() {
    sync(); size_t c = 0, t = 0; bool loose = intick;
    for (M& x : m) { bool in = x.in;
      if (int a = raw(x)) sym_assert(a == x.st, "a task's status is what was asked of it through the manager"); else sym_assert(x.done, "only ended tasks are gone");
      sym_assert(x.runs <= 1, "a task runs once");
      if (x.p.valid()) sym_assert((x.p.is_completed() == (x.done)) & (x.p.is_exiting() == (x.st >= 3)), "handles see the task's state");
      if (!depth) { sym_assert(!(x.wait && x.st >= 4), "an ended task does not stay suspended"); if (x.done) sym_assert(!x.in & !x.in2, "an ended task is forgotten"); }
      if (mp && !inreset) { const T* f = mp->find_task(x.id); if (x.done && depth) in = x.in = f != nullptr; else if (depth && x.st >= 3) { in = f != nullptr; loose = true; } sym_assert((f != nullptr) == in, in ? "a managed task can be found" : "only managed tasks can be found"); if (f) sym_assert(f->get_id() == x.id, "the right task is found"); }
      if (mp && inreset) sym_assert(!mp->find_task(x.id), "nothing is found during a reset");
      c += in; t += x.in && (x.deadline || x.rel);
    }
    if (mp && !inreset) { sym_assert((mp->get_task_size() == c) & (mp->get_container().size() == c), "the number of tasks is exact"); if (!loose) sym_assert((mp->get_tick_checkpoint_size() == t) & (mp->get_checkpoints().size() == t), "the number of timeouts is exact"); }
    if (mp && !intick && !inreset) sym_assert((mp->get_last_tick_time().tv_sec == last) & (mp->get_last_tick_time().tv_nsec == 0), "the last tick time is exact");
  }
  void begin() { opdepth++; depth++; } void end() { opdepth--; depth--; }
  void willkill(M& x, int to) { if (x.st < 3) x.st = to; }
  void lost(M& x) { if (refs(x) == 0) sym_assert(x.done, "a task nobody refers to any more is run to its end"); }
  // 0 stop, 1 go on, 2 wait
  int step(int self) {
    unsigned op = sym_pick(15, "op"); if (!(mask & (1u << op))) skip(); if (!mp && !(op >= 5 && op <= 9) && op != 13) skip();
    sync();
    switch (op) {
      case 0: { M& x = m[pick("t")]; if (!x.p.valid()) skip(); long to = (mask & TICK) && !intick ? (long)sym_pick(3, "timeout") : 0; int rc = mp->add_task(x.p, to, 0);
        int want = inreset ? COPP_EC_IN_RESET : x.st >= 3 ? COPP_EC_TASK_IS_EXITING : x.in ? COPP_EC_ALREADY_EXIST : x.in2 ? COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER : COPP_EC_SUCCESS;
        sym_assert(rc == want, "adding a task succeeds exactly if it is usable and not managed"); if (rc == 0) { x.in = true; if (to) { if (last) x.deadline = last + to; else x.rel = to; } sym_reach("added"); } else if (inreset) sym_reach("refused in reset"); else sym_reach("refused add"); break; }
      case 1: { M& x = m[pick("t")]; int st = x.st, runs = x.runs; bool in = x.in && !inreset; if (in) { x.temps++; if (st == 1) x.st = 2; } begin(); int rc = mp->start(x.id); end();
        if (!in) { sym_assert((rc == (inreset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND)) & (x.runs == runs), "an unknown task cannot be started"); sym_reach("unknown"); break; }
        sync(); sym_assert(rc == 0, "a managed task is found by its id"); sym_assert((x.runs == runs + (st == 1)) | ((st >= 3) & (x.runs == 1)), "a managed task is started by its id, once"); sym_reach("started");
        if (x.st >= 3 && x.in) { if (!inreset) sym_assert(!mp || !mp->find_task(x.id), "a task that ended is forgotten"); out(x); sym_reach("forgotten"); } x.temps--; lost(x); break; }
      case 2: case 3: { M& x = m[pick("t")]; bool in = x.in && !inreset; int to = op == 3 ? 4 : 5 + (left & 1); bool w = x.wait && x.st < 3; if (in && x.run && !x.p.valid() && !x.in2 && !x.temps) skip(); if (in) { x.temps++; out(x); willkill(x, to); x.temps--; } begin(); int rc = op == 3 ? mp->cancel(x.id) : mp->kill(x.id, (promise_status)to); end();
        if (!in) { sym_assert(rc == (inreset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND), "an unknown task cannot be killed"); break; }
        sym_assert(rc == 0, "kill by id succeeds"); if (w) sym_assert(x.done, "a killed waiting task ends"); if (!x.run) lost(x); sym_reach("killed"); break; }
      case 4: { M& x = m[pick("t")]; unsigned v = sym_pick(2, "confirm"); bool in = x.in && !inreset; if (v) { M& o = &x == m ? m[1] : m[0]; if (!o.p.valid()) skip(); int rc = mp->remove_task(x.id, o.p); sym_assert(rc == (inreset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND), "a different task is not removed"); break; }
        if (in && x.run && !x.p.valid() && !x.in2 && !x.temps) skip(); bool w = x.wait; if (in) { out(x); if (x.st == 2) x.st = 5; } begin(); int rc = mp->remove_task(x.id); end();
        if (!in) { sym_assert(rc == (inreset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND), "an unknown task cannot be removed"); break; }
        sym_assert(rc == 0, "a managed task is removed"); if (w) sym_assert(x.done, "removing a waiting task ends it"); if (!x.run) lost(x); sym_reach("removed"); break; }
      case 5: { M& x = m[pick("t")]; if (!x.p.valid() || x.st >= 3) skip(); bool w = x.wait; T keep = (const T&)x.p; x.temps++; willkill(x, 5); depth++; sym_assert(keep.kill(), "kill"); depth--; if (w) sym_assert(x.done, "a killed waiting task ends"); if (x.run && refs(x) == 1) skip(); x.temps--; keep.reset(); if (!x.run) lost(x); break; }
      case 6: { M& x = m[pick("t")]; if (!x.p.valid() || x.st != 1) skip(); T keep = (const T&)x.p; x.temps++; x.st = 2; depth++; sym_assert(keep.start(), "start"); depth--; x.temps--; depth++; keep.reset(); depth--; lost(x); break; }
      case 7: { M& x = m[pick("t")]; if (!x.wait || x.st != 2 || !x.g) skip(); auto g = x.g; x.g.reset(); depth++; g->set_value(1); depth--; break; }
      case 8: if (self < 0) skip(); return 2;
      case 9: return 0;
      case 10: {
        unsigned d = sym_pick(2, "clock"); long at = now + (d ? 3 : 1); if (intick) { begin(); int rc = mp->tick(at, 0); end(); sym_assert(rc == 0, "a tick in a tick is ignored"); sym_reach("tick in tick"); break; }
        now = at; if (inreset) { int rc = mp->tick(now, 0); sym_assert(rc == COPP_EC_IN_RESET, "no tick during a reset"); break; } bool first = last == 0;
        if (!first) for (M& x : m) if (x.in && x.deadline && x.deadline < now) x.pend = 6;
        begin(); intick = 1; wasreset = false; int rc = mp->tick(now, 0); intick = 0; end(); sym_assert(rc == 0, "tick succeeds"); sync(); if (!wasreset) last = now;
        if (first && !wasreset) for (M& x : m) if (x.in && x.rel) { x.deadline = now + x.rel; x.rel = 0; sym_reach("rebased"); }
        for (M& x : m) { if (x.pend && x.in && x.st >= 3) out(x); if (x.pend && x.in && !x.done) sym_assert(false, "a task past its deadline is ended by the tick"); x.pend = 0; if (x.st == 6) sym_reach("timed out"); if (!x.run) lost(x); } break; }
      case 11: if (selfdrop()) skip(); reset(); break;
      case 12: if (opdepth || selfdrop()) skip(); doreset([&] { opdepth++; mg.reset(); opdepth--; }); mp = nullptr; sym_reach("destroyed"); break;
      case 13: { M& x = m[pick("t")]; if (!x.p.valid()) skip(); if (x.run && refs(x) - x.was <= 1) skip(); drop(x); break; }
      case 14: { M& x = m[pick("t")]; if (!x.p.valid() || x.in || x.in2 || x.st >= 3 || !mg2) skip(); sym_assert(mg2->add_task(x.p) == 0, "added to another manager"); x.in2 = true; break; }
    }
    agree(); return 1;
  }
  void drop(M& x) { bool l = refs(x) == 1; T t = std::move(x.p); if (l && !x.done) sym_reach("last reference"); depth++; t.reset(); depth--; lost(x); sym_reach("dropped"); }
  template <class F> void doreset(F f) {
    bool nested = inreset; if (!nested) for (M& x : m) { x.was = x.in; if (x.in) { out(x); if (x.st < 3) x.pend = 5; } }
    inreset++; depth++; wasreset = true; f(); depth--; inreset--; if (nested) { sym_reach("reset in reset"); return; }
    sync(); for (M& x : m) { if (x.was) { x.was = false; sym_assert(x.st >= 3, "a reset ends every managed task"); if (!x.run) lost(x); } x.pend = 0; }
    last = 0; sym_reach("reset");
  }
  bool selfdrop() { for (M& x : m) if (x.run && x.in && !x.p.valid() && !x.in2 && !x.temps) return true; return false; }
  void reset() { doreset([&] { opdepth++; mp->reset(); opdepth--; }); }
  static T body(Sim& s, int k) {
    M& x = s.m[k]; x.runs++; x.run = true; sym_assert(x.runs == 1, "a body runs once"); s.sync(); bool waitfirst = s.prestart;
    if (x.st == 1) { sym_assert(!x.p.valid() & !x.in & !x.in2 & !x.temps, "a body starts when it is started, or when its last reference is dropped"); x.st = 5; }
    s.depth++; s.agree(); s.depth--;
    while (s.left > 0 || waitfirst) {
      int r = 2; if (waitfirst) waitfirst = false; else { s.left--; r = s.step(k); } if (!r) break;
      if (r == 2) { x.run = false; x.wait = true; bool over = x.st >= 3; if (!over) { gen g{[&x](gen::context_pointer_type c) { x.g = c; }}; int v = co_await g; x.wait = false; x.run = true; s.sync(); if (v != 1) { if (x.st == 2) { sym_assert(!x.p.valid() & !x.in & !x.in2, "a waiting task is ended only by a kill or by dropping its last reference"); x.st = 5; } } else sym_assert(x.st == 2, "a wait ends with its value"); x.g.reset(); } x.wait = false; x.run = true; s.depth++; s.agree(); s.depth--; }
    }
    s.sync(); promise_status ps = co_yield T::yield_status(); sym_assert((int)ps == x.st, "the body reads its own status");
    x.run = false; x.done = true; if (x.st < 3) x.st = 3; if (!s.inreset && x.in) s.out(x); x.in2 = false; co_return 1;
  }
  bool prestart = false;
  void preamble() {
    touched = n; for (int k = 0; k < n; k++) { M& x = m[k]; int to = (mask & TICK) ? 2 - (k & 1) : 0; sym_assert(mp->add_task(x.p, to, 0) == 0, "added"); x.in = true; if (to) { if (last) x.deadline = last + to; else x.rel = to; } } sym_reach("added");
    int w = (int)sym_pick((unsigned)n + 1, "waiting"); prestart = true; for (int k = 0; k < w; k++) { m[k].st = 2; depth++; m[k].p.start(); depth--; } prestart = false; agree();
  }
  void run(int steps, unsigned mk, bool pre = false) {
    left = steps; mask = mk; { (void)util::uint64_id_allocator::allocate(); } uint64_t live0 = sym_live();
    for (int i = 0; i < n; i++) { m[i].p = body(*this, i); m[i].w = m[i].p.get_context(); m[i].id = m[i].p.get_id(); } sym_assert(m[0].id != m[1].id, "ids differ");
    mg = Mgr::create(); mp = mg.get(); if ((mask & TICK) && sym_bool("ticked")) { sym_assert(mp->tick(now, 0) == 0, "tick succeeds"); last = now; } if (mask & ADD2) mg2 = Mgr::create(); agree();
    if (pre) preamble();
    while (left > 0) { left--; if (!step(-1)) break; }
    left = 0; agree();
    if (mg) doreset([&] { mg.reset(); }); mp = nullptr; if (mg2) { for (M& x : m) if (x.in2) { x.in2 = false; if (x.st < 3) x.pend = 5; } depth++; mg2.reset(); depth--; sync(); }
    for (M& x : m) { if (x.p.valid()) drop(x); lost(x); x.g.reset(); sym_assert((x.runs == 1) & x.done, "every task ended once"); x.w.reset(); }
    sym_assert(sym_live() == live0, "nothing leaks"); sym_reach("end");
  }
};
static Sim<2> s2; static void go(int steps, unsigned mk) { new (&s2) Sim<2>(); s2.run(steps, mk); }
static Sim<3> s3; static void go3(int steps, unsigned mk) { new (&s3) Sim<3>(); s3.run(steps, mk, true); }
ENTRY(n01_hist) { go(5 + TIER, ADD | START | KILL | CANCEL | REMOVE | DKILL | WAIT | FIRE); }
ENTRY(n01_refs) { go(5 + TIER, ADD | ADD2 | START | DSTART | REMOVE | DROP | WAIT | DESTROY); }
ENTRY(n01_tick) { go(5 + TIER, ADD | DSTART | WAIT | TICK | RESET); }
ENTRY(n01_reset) { go(5 + TIER, ADD | DSTART | DKILL | WAIT | FIRE | RESET | DESTROY | DROP); }
ENTRY(n01_three) { go3(3 + TIER, START | KILL | CANCEL | REMOVE | DKILL | FIRE | DROP | RESET | DESTROY); }
ENTRY(n01_due) { go3(3 + TIER, ADD | DKILL | REMOVE | FIRE | TICK | RESET); }
// arbitrary times
struct tm2 { int64_t s, n; };
static bool lt(tm2 a, tm2 b) { return (a.s < b.s) | ((a.s == b.s) & (a.n < b.n)); }
static tm2 plus(tm2 a, tm2 b) { tm2 r; bool c = a.n + b.n >= 1000000000; r.s = a.s + b.s + c; r.n = a.n + b.n - (c ? 1000000000 : 0); return r; }
static bool wide, narrow;
static tm2 anytime(const char* a, const char* b) { tm2 r; if (narrow) { r.s = (int64_t)sym_bits(a[2] == 'c' ? 3 : 2, a) + 1; r.n = 0; return r; } r.s = (int64_t)(wide ? sym_range(0, 1ull << 61, a) : sym_bits(8, a)); r.n = (int64_t)sym_range(0, 999999999, b); return r; }
static T nop() { co_return 0; }
static void times(int n, int ticks, bool change) {
  T p[4]; bool in[4] = {}, timed[4] = {}, first = true; tm2 dl[4] = {}, last = {0, 0}; Mgr m; for (int i = 0; i < n; i++) p[i] = nop();
  auto set = [&](int k, tm2 to) { timed[k] = (bool)sym_concrete((to.s > 0) | (to.n > 0)); if (timed[k]) dl[k] = plus(last, to); else sym_reach("never"); };
  auto tick = [&]() { tm2 now = anytime("tick sec", "tick nsec"); sym_assert(m.tick(now.s, (int)now.n) == 0, "tick succeeds"); if (!sym_concrete(lt(last, now))) { sym_reach("stale tick"); return; }
    if (first) { first = false; for (int k = 0; k < n; k++) if (in[k] && timed[k]) dl[k] = plus(now, dl[k]); sym_reach("first tick"); }
    else for (int k = 0; k < n; k++) if (in[k] && timed[k]) { bool late = (bool)sym_concrete(lt(dl[k], now)); sym_assert((p[k].get_status() == promise_status::kTimeout) == late, late ? "a task past its deadline is ended by the tick" : "no task is ended before its deadline"); if (late) { in[k] = timed[k] = false; sym_reach("late"); } else sym_reach("not yet"); }
    last = now; size_t c = 0, t = 0; for (int k = 0; k < n; k++) { c += in[k]; t += timed[k]; sym_assert((m.find_task(p[k].get_id()) != nullptr) == in[k], "a timed out task is forgotten, others are not"); } sym_assert((m.get_task_size() == c) & (m.get_tick_checkpoint_size() == t), "sizes are exact"); };
  if (narrow || sym_bool("ticked")) tick();
  for (int k = 0; k < n; k++) { tm2 to = anytime("timeout sec", "timeout nsec"); sym_assert(m.add_task(p[k], to.s, (int)to.n) == 0, "added"); in[k] = true; set(k, to); }
  if (change && sym_bool("change")) { tm2 to = anytime("timeout sec", "timeout nsec"); int k = narrow ? 1 : 0; sym_assert(m.set_timeout(p[k].get_id(), to.s, (int)to.n) == 0, "timeouts can be changed"); set(k, to); sym_reach("moved"); }
  for (int i = 0; i < ticks; i++) tick();
  sym_reach("end");
}
ENTRY(n01_wide) { wide = true; times(1, 2 + TIER, true); }
ENTRY(n01_order) { wide = false; times(2, 2 + TIER, TIER); }
ENTRY(n01_many) { narrow = true; times(4, 1 + TIER, true); }
