// histories of a task manager: tasks run scripts that act on the manager again; the solver chooses every step
#include <memory>
#include <functional>
#include <cstring>
#include <new>
#include <list>
#include <vector>
#include <set>
#include <unordered_map>
#include <utility>
#include <exception>
#include "sym.h"
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
using namespace copp;
using namespace cotask;
#define skip() do { sym_assume(false); return true; } while (0)
#ifdef LSYM
static const size_t STK = 8192;
#else
static const size_t STK = 256 * 1024;
#endif
struct macro_t { typedef allocator::stack_allocator_malloc stack_allocator_type; typedef coroutine_context_container<stack_allocator_type> coroutine_type; typedef int value_type; using stack_allocator_t = stack_allocator_type; using coroutine_t = coroutine_type; };
typedef task<macro_t> T;
typedef task_manager<T> Mgr;
enum { OP_ADD = 1, OP_START = 2, OP_KILL = 4, OP_CANCEL = 8, OP_REMOVE = 16, OP_DKILL = 32, OP_YIELD = 64, OP_RETURN = 128, OP_TICK = 256, OP_RESET = 512, OP_DESTROY = 1024, OP_DROP = 2048, OP_DSTART = 4096, OP_HOOKOPS = 8192, OP_ADD2 = 16384, OP_FOLLOW = 32768 };
static void uint64_id_warm() { T::create(+[](void*) { return 0; }, STK, 0); }
struct Sim;
struct Act : public impl::task_action_impl { Sim* s; int k; Act(Sim* a, int b) : s(a), k(b) {} Act(const Act& o) : s(o.s), k(o.k) {} Act(Act&& o) : s(o.s), k(o.k) { o.s = nullptr; } ~Act(); int operator()(void* p) override; int on_finished(impl::task_impl&) override; };
struct Sim {
  enum { MAXN = 3 };
  struct M { T::ptr_type p; T* raw = nullptr; T::id_type id = 0; int st = EN_TS_CREATED, hooks = 0, runs = 0, ent = 0, resumer = -1, pend = 0, folby = -1; long deadline = 0, rel = 0; bool in = false, in2 = false, was = false, ended = false, dead = false, leaving = false; };
  M m[MAXN]; int n, left, cur = -1, touched = 0, opdepth = 0, inhook = 0, intick = 0, inreset = 0, depth = 0; bool wasreset = false; unsigned mask; long last = 0, now = 10; Mgr::ptr_type mg, mg2; Mgr* mp = nullptr;
  int pick(const char* nm) { int k = (int)sym_pick(touched < n ? (unsigned)touched + 1 : (unsigned)n, nm); if (k == touched) touched++; return k; }
  // a task that a running tick or reset is about to end may have been ended in the meantime
  void sync() { for (int k = 0; k < n; k++) { M& x = m[k]; if (x.dead) continue; int a = (int)x.raw->get_status(); if (x.pend && x.st < EN_TS_DONE && a == x.pend) { x.st = a; out(k); } else if (a == EN_TS_TIMEOUT && x.st == EN_TS_WAITING && !x.p && !x.in && !x.in2 && x.folby < 0) { x.st = a; sym_reach("unreferenced"); }
    if (x.st >= EN_TS_DONE && mp && !inreset) { x.in = mp->find_task(x.id).get() == x.raw; } } }
  void agree() {
    sync(); size_t c = 0, t = 0; bool loose = intick;
    for (int k = 0; k < n; k++) { M& x = m[k]; if (x.dead) continue;
      sym_assert((int)x.raw->get_status() == x.st, "a task's status is what was asked of it through the manager");
      sym_assert(x.hooks <= 1, "a task ends once");
      if (x.st >= EN_TS_DONE) { if (depth) loose = true; else sym_assert(!x.in && x.hooks == 1, "an ended task is forgotten"); }
      if (mp && !inreset) { T::ptr_type f = mg_find(k); sym_assert(f.get() == (x.in ? x.raw : nullptr), x.in ? "a managed task can be found" : "only managed tasks can be found"); }
      c += x.in; t += x.in && (x.deadline || x.rel); }
    if (mp && !inreset) { sym_assert(mp->get_task_size() == c && mp->get_container().size() == c, "the number of tasks is exact"); if (!loose) sym_assert(mp->get_tick_checkpoint_size() == t && mp->get_checkpoints().size() == t, "the number of timeouts is exact"); }
    if (mp && !intick && !inreset) sym_assert(mp->get_last_tick_time().tv_sec == last && mp->get_last_tick_time().tv_nsec == 0, "the last tick time is exact");
    if (mp && inreset) for (int k = 0; k < n; k++) if (!m[k].dead) sym_assert(!mp->find_task(m[k].id), "nothing is found during a reset");
  }
  T::ptr_type mg_find(int k) { return mp->find_task(m[k].id); }
  void letgo(T::ptr_type& p) { depth++; T::ptr_type t; t.swap(p); t.reset(); depth--; }
  void swin(int k) { m[k].resumer = cur; cur = k; m[k].ent++; sync(); if (m[k].st < EN_TS_DONE) m[k].st = EN_TS_RUNNING; }
  void swout(int k) { cur = m[k].resumer; if (m[k].st == EN_TS_RUNNING) m[k].st = EN_TS_WAITING; }
  void begin() { opdepth++; depth++; } void end() { opdepth--; depth--; }
  // the model of "k is killed with status to"; before the call
  void willkill(int k, int to) { if (m[k].st < EN_TS_DONE) m[k].st = to; }
  void out(int k) { m[k].in = false; m[k].pend = 0; m[k].deadline = m[k].rel = 0; }
  bool step(int self) {
    static const int ops[] = {OP_ADD, OP_START, OP_KILL, OP_CANCEL, OP_REMOVE, OP_DKILL, OP_YIELD, OP_RETURN, OP_TICK, OP_RESET, OP_DESTROY, OP_DROP, OP_DSTART, OP_ADD2, OP_FOLLOW};
    unsigned op = sym_pick(15, "op"); if (!(mask & ops[op])) skip(); if (inhook && (op == 6 || op == 7)) skip(); if (!mp && op != 5 && op != 6 && op != 7 && op != 11 && op != 12) skip();
    sync();
    switch (op) {
      case 0: { int k = pick("target"); M& x = m[k]; if (!x.p) skip(); long to = (mask & OP_TICK) && !intick ? (long)sym_pick(3, "timeout") : 0; int rc = mp->add_task(x.p, to, 0);
        int want = inreset ? COPP_EC_IN_RESET : x.st >= EN_TS_DONE ? COPP_EC_TASK_IS_EXITING : x.in ? COPP_EC_ALREADY_EXIST : x.in2 ? COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER : COPP_EC_SUCCESS;
        sym_assert(rc == want, "adding a task succeeds exactly if it is usable and not managed"); if (rc == 0) { x.in = true; if (to) { if (last) x.deadline = last + to; else x.rel = to; } sym_reach("added"); } else if (inreset) sym_reach("refused in reset"); else sym_reach("refused add"); break; }
      case 1: { int k = pick("target"); M& x = m[k]; if (x.dead) skip(); bool res = sym_bool("resume"); int st = x.st, ent = x.ent; bool in = x.in; begin(); int rc = res ? mp->resume(x.id) : mp->start(x.id); end(); if (!in || inreset) { sym_assert(rc == (inreset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND), "an unknown task cannot be started"); sym_assert(x.ent == ent, "a refused start does nothing"); sym_reach("unknown"); } else { if (st == EN_TS_CREATED || st == EN_TS_WAITING) { sym_assert(rc == 0 && x.ent > ent, "a managed task is started by its id"); sym_reach("started"); } else { sym_assert(rc < 0 && x.ent == ent, "a task that cannot run is not started"); } if (x.st >= EN_TS_DONE) { if (!inreset) sym_assert(!mp || !mp->find_task(x.id), "a task that ended is forgotten"); out(k); sym_reach("forgotten"); } } break; }
      case 2: case 3: { int k = pick("target"); M& x = m[k]; if (x.dead) skip(); bool in = x.in; int st = x.st; begin(); if (in && !inreset) { out(k); if (op == 2) willkill(k, EN_TS_KILLED); else if (st != EN_TS_RUNNING) willkill(k, EN_TS_CANCELED); } int rc = op == 2 ? mp->kill(x.id) : mp->cancel(x.id); end(); 
        if (!in || inreset) sym_assert(rc == (inreset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND), "an unknown task cannot be killed"); else { bool ok = st < EN_TS_DONE && !(op == 3 && st == EN_TS_RUNNING); sym_assert((rc == 0) == ok, "kill by id reports whether the task was ended"); if (ok && st != EN_TS_RUNNING) sym_assert(x.hooks == 1, "a killed task has ended"); sym_reach("killed"); } break; }
      case 4: { int k = pick("target"); M& x = m[k]; if (x.dead) skip(); unsigned v = sym_pick(2, "confirm"); bool in = x.in; int st = x.st; if (v == 1 && n > 1) { int o = k ? 0 : 1; if (m[o].dead) skip(); int rc = mp->remove_task(x.id, m[o].raw); sym_assert(rc == (inreset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND), "a different task is not removed"); break; } begin(); if (in && !inreset) { out(k); if (st > EN_TS_CREATED) willkill(k, EN_TS_KILLED); } int rc = mp->remove_task(x.id); end();  if (!in || inreset) sym_assert(rc == (inreset ? COPP_EC_IN_RESET : COPP_EC_NOT_FOUND), "an unknown task cannot be removed"); else { sym_assert(rc == 0, "a managed task is removed"); if (st == EN_TS_WAITING) sym_assert(x.hooks == 1, "removing a suspended task ends it"); sym_reach("removed"); } break; }
      case 5: { int k = pick("target"); M& x = m[k]; if (!x.p || x.st >= EN_TS_DONE) skip(); T::ptr_type keep = x.p; int st = x.st; willkill(k, EN_TS_KILLED); depth++; keep->kill(); depth--; if (st != EN_TS_RUNNING) sym_assert(x.hooks == 1, "a killed task has ended"); letgo(keep); break; }
      case 6: { if (self < 0) skip(); swout(self); void* v; int rc = m[self].raw->yield(&v); swin(self); sym_assert(rc == 0, "yield"); break; }
      case 7: { if (self < 0) return false; m[self].leaving = true; return false; }
      case 8: { // the clock moves on by one unit or by three
        unsigned d = sym_pick(2, "clock"); bool nested = intick; long at = now + (d ? 3 : 1); if (nested) { begin(); int rc = mp->tick(at, 0); end(); sym_assert(rc == 0, "a tick in a tick is ignored"); sym_reach("tick in tick"); break; }
        now = at; if (inreset) { int rc = mp->tick(now, 0); sym_assert(rc == COPP_EC_IN_RESET, "no tick during a reset"); break; } bool first = last == 0;
        if (!first) for (int k = 0; k < n; k++) { M& x = m[k]; if (!x.dead && x.in && x.deadline && x.deadline < now && x.st < EN_TS_DONE) x.pend = EN_TS_TIMEOUT; else if (!x.dead && x.in && x.deadline && x.deadline < now) { out(k); } }
        begin(); intick = 1; wasreset = false; int rc = mp->tick(now, 0); intick = 0; end(); sym_assert(rc == 0, "tick succeeds"); sync(); if (!wasreset) last = now;
        if (first && !wasreset) for (int k = 0; k < n; k++) if (m[k].in && m[k].rel) { m[k].deadline = now + m[k].rel; m[k].rel = 0; sym_reach("rebased"); }
        for (int k = 0; k < n; k++) { M& x = m[k]; if (x.pend && x.in && !x.dead) { sym_assert(false, "a task past its deadline is ended by the tick"); } x.pend = 0; if (x.st == EN_TS_TIMEOUT) sym_reach("timed out"); } break; }
      case 9: { reset(); break; }
      case 10: { if (opdepth) skip(); destroy(); sym_reach("destroyed"); break; }
      case 11: { int k = pick("target"); M& x = m[k]; if (!x.p) skip(); letgo(x.p); sym_reach("dropped"); break; }
      case 12: { int k = pick("target"); M& x = m[k]; if (!x.p) skip(); T::ptr_type keep = x.p; depth++; keep->start(); depth--; letgo(keep); break; }
      case 13: { int k = pick("target"); M& x = m[k]; if (!x.p || x.in || x.in2 || x.pend || x.st >= EN_TS_DONE || !mg2) skip(); sym_assert(mg2->add_task(x.p) == 0, "added to another manager"); x.in2 = true; break; }
      case 14: { int i = pick("pred"), j = pick("succ"); if (i == j || !m[i].p || !m[j].p || m[i].st >= EN_TS_DONE || m[j].st != EN_TS_CREATED || m[j].folby >= 0 || m[i].folby >= 0) skip(); m[j].folby = i; m[i].p->next(m[j].p); sym_reach("chained"); break; }
    }
    agree(); return true;
  }
  template <class F> void doreset(F f) {
    bool nested = inreset; if (!nested) for (int k = 0; k < n; k++) { M& x = m[k]; x.was = x.in; if (x.in) { out(k); if (x.st < EN_TS_DONE) x.pend = EN_TS_KILLED; } }
    inreset++; depth++; wasreset = true; f(); depth--; inreset--; if (nested) { sym_reach("reset in reset"); return; }
    sync(); for (int k = 0; k < n; k++) { M& x = m[k]; if (x.was && !x.dead) { sym_assert(x.st >= EN_TS_DONE, "a reset ends every managed task"); } x.pend = 0; }
    last = 0; sym_reach("reset");
  }
  void reset() { doreset([&] { opdepth++; mp->reset(); opdepth--; }); }
  void destroy() { doreset([&] { opdepth++; mg.reset(); opdepth--; mp = nullptr; }); }
  int body(int k) {
    M& x = m[k]; x.runs++; swin(k); agree(); if (prestart) { swout(k); void* v; int rc = x.raw->yield(&v); swin(k); sym_assert(rc == 0, "yield"); agree(); }
    while (left > 0 && !x.leaving) { left--; if (!step(k)) break; }
    x.leaving = true; x.ended = true; cur = x.resumer; return 0;
  }
  int hook(int k) {
    M& x = m[k]; sync(); x.hooks++; sym_assert(x.hooks == 1, "a task ends once"); if (x.st == EN_TS_RUNNING) x.st = EN_TS_DONE; 
    if ((mask & OP_HOOKOPS) && left > 0 && !inhook) { left--; inhook++; step(cur); inhook--; }
    sync(); x.in2 = false; return 0;
  }
  void gone(int k) { sym_assert(!m[k].dead, "destroyed once"); m[k].dead = true; m[k].in = false; for (int j = 0; j < n; j++) if (m[j].folby == k) m[j].folby = -1; }
  bool prestart = false;
  // all tasks are added first, the first of them started, with timeouts counted from a first tick
  void preamble() {
    touched = n; for (int k = 0; k < n; k++) { M& x = m[k]; int to = (mask & OP_TICK) ? 2 - (k & 1) : 0; sym_assert(mp->add_task(x.p, to, 0) == 0, "added"); x.in = true; x.rel = to; } sym_reach("added");
    if (mask & OP_TICK) { sym_assert(mp->tick(now, 0) == 0, "tick succeeds"); last = now; for (int k = 0; k < n; k++) { m[k].deadline = m[k].rel ? now + m[k].rel : 0; m[k].rel = 0; } }
    int w = (int)sym_pick((unsigned)n + 1, "waiting"); prestart = true; for (int k = 0; k < w; k++) { depth++; m[k].p->start(); depth--; } prestart = false; agree();
  }
  void run(int N, int steps, unsigned mk, bool pre = false) {
    n = N; left = steps; mask = mk; uint64_id_warm(); uint64_t live0 = sym_live();
    for (int i = 0; i < n; i++) { m[i].p = T::create(Act(this, i), STK, 0); sym_assert((bool)m[i].p, "created"); m[i].raw = m[i].p.get(); m[i].id = m[i].raw->get_id(); }
    for (int i = 1; i < n; i++) sym_assert(m[i].id != m[i - 1].id, "ids differ");
    mg = Mgr::create(); mp = mg.get(); if (mask & OP_ADD2) mg2 = Mgr::create(); agree();
    if (pre) preamble();
    while (left > 0) { left--; if (!step(-1)) break; }
    sym_assert(cur == -1, "main continues last"); agree();
    if (mg) destroy(); if (mg2) { for (int k = 0; k < n; k++) if (!m[k].dead && m[k].in2 && m[k].st < EN_TS_DONE) m[k].pend = EN_TS_KILLED; left = 0; depth++; mg2.reset(); depth--; sync(); }
    for (int i = 0; i < n; i++) letgo(m[i].p);
    for (int i = 0; i < n; i++) { sym_assert(m[i].dead, "nothing keeps a task alive in the end"); if (m[i].runs) sym_assert(m[i].hooks == 1, "every started task has ended"); }
    sym_assert(sym_live() == live0, "nothing leaks"); sym_reach("end");
  }
};
Act::~Act() { if (s && s->m[k].raw && s->m[k].raw->get_raw_action() == this) s->gone(k); s = nullptr; }
int Act::operator()(void*) { return s->body(k); }
int Act::on_finished(impl::task_impl&) { return s->hook(k); }
