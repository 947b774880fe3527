// histories of tasks: every task's function runs the same script interpreter; the solver chooses every step
#include <memory>
#include <functional>
#include <cstring>
#include <new>
#include <list>
#include <utility>
#include <exception>
#include "sym.h"
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcotask/task.h>
using namespace copp;
using namespace cotask;
#define skip() do { sym_assume(false); return true; } while (0)
enum { STATUS = 1, HOOKS = 2, FOLLOW = 4, AWAIT = 8, LIFE = 16, EXC = 32 };
enum { OP_START = 1, OP_YIELD = 2, OP_KILL = 4, OP_CANCEL = 8, OP_RETURN = 16, OP_THROW = 32, OP_NEXT = 64, OP_AWAIT = 128, OP_DROP = 256, OP_HOOKOPS = 512, OP_HOOKTHROW = 1024, OP_BADAWAIT = 2048, OP_TIMEOUT = 4096 };
#ifdef LSYM
static const size_t STK = 8192;
#else
static const size_t STK = 256 * 1024;
#endif
struct macro_t { typedef allocator::stack_allocator_malloc stack_allocator_type; typedef coroutine_context_container<stack_allocator_type> coroutine_type; typedef int value_type; using stack_allocator_t = stack_allocator_type; using coroutine_t = coroutine_type; };
typedef task<macro_t> T;
struct Boom { int v; };
static void uint64_id_warm() { T::create(+[](void*) { return 0; }, STK, 0); } // the thread's id cache and keys are allocated once
struct Sim;
struct Act : public impl::task_action_impl { Sim* s; int k; int magic; Act(Sim* a, int b) : s(a), k(b), magic(4711) {} Act(const Act& o) : s(o.s), k(o.k), magic(o.magic) {} Act(Act&& o) : s(o.s), k(o.k), magic(4711) { o.magic = 0; } ~Act(); int operator()(void* p) override; int on_finished(impl::task_impl&) override; };
struct Sim {
  enum { MAXN = 3 };
  struct M { T::ptr_type p; T* raw = nullptr; int st = EN_TS_CREATED, runs = 0, res = 0, hooks = 0, resumer = -1, ret = 0, awaiting = -1, onstack = 0; bool ended = false, dead = false, threw = false, direct = false, leaving = false, notified = false; void* expect = nullptr; void* fol = nullptr; unsigned pend = 0, followed = 0; };
  M m[MAXN]; int n, left, cur = -1, touched = 0; bool symmetric = false; int unc = 0, depth = 0, nothrow = 0, inhook = 0; unsigned claims, mask, variants;
  // the tasks are alike: with no order between them, a task is touched only after those with lower numbers
  int pick(const char* nm) { int k = (int)sym_pick(symmetric && touched < n ? (unsigned)touched + 1 : (unsigned)n, nm); if (k == touched) touched++; return k; }
  void letgo(T::ptr_type& p) { nothrow++; depth++; T::ptr_type t; t.swap(p); t.reset(); depth--; nothrow--; }
  bool alive(int k) { return !m[k].dead; }
  void agree() {
    if (claims & STATUS) sym_assert(T::this_task() == (cur < 0 ? nullptr : m[cur].raw), "this_task names the running task");
    for (int i = 0; i < n; i++) if (alive(i) && !m[i].leaving) { T* t = m[i].raw;
      if (claims & STATUS) { sym_assert((int)t->get_status() == m[i].st, "status agrees with the history"); sym_assert(t->is_exiting() == (m[i].st >= EN_TS_DONE), "is_exiting agrees"); sym_assert(t->is_canceled() == (m[i].st == EN_TS_CANCELED), "is_canceled agrees"); sym_assert(t->is_timeout() == (m[i].st == EN_TS_TIMEOUT), "is_timeout agrees"); sym_assert(t->is_faulted() == (m[i].st >= EN_TS_KILLED), "is_faulted agrees"); sym_assert(m[i].runs <= 1, "the function runs at most once"); }
      if ((claims & STATUS) && m[i].ended && m[i].hooks && !m[i].threw) sym_assert(t->get_ret_code() == m[i].ret && t->is_completed(), "result of the function");
      if (claims & HOOKS) sym_assert(m[i].hooks <= 1, "completion hook runs once"); }
  }
  void settled() { // no operation is under way
    for (int i = 0; i < n; i++) {
      if (claims & HOOKS) { sym_assert(m[i].hooks == (m[i].st >= EN_TS_DONE ? 1 : 0), "completion hook runs exactly once for every ended task"); if (m[i].st >= EN_TS_DONE) sym_assert(m[i].ended && m[i].runs == 1, "an ended task's function has ended"); }
      if (claims & (FOLLOW | HOOKS)) if (m[i].hooks) for (int j = 0; j < n; j++) if ((m[i].followed >> j) & 1) sym_assert(m[j].runs == 1, "a follower of an ended task has been started");
      if (claims & AWAIT) if (m[i].awaiting >= 0) sym_assert(m[m[i].awaiting].st < EN_TS_DONE && !m[m[i].awaiting].dead, "nobody waits for an ended task");
      if (claims & LIFE) { bool held = (bool)m[i].p || needed(i); sym_assert(m[i].dead == !held, held ? "a referenced task stays alive" : "an unreferenced task is destroyed"); } }
  }
  bool needed(int k) { for (int i = 0; i < k; i++) if (!m[i].dead && !m[i].hooks && ((m[i].pend >> k) & 1)) return true; return false; }
  void swin(int k) { m[k].resumer = cur; cur = k; m[k].res++; m[k].onstack++; if (m[k].st == EN_TS_CREATED || m[k].st == EN_TS_WAITING) m[k].st = !m[k].p && m[k].raw->get_status() == EN_TS_TIMEOUT ? EN_TS_TIMEOUT : EN_TS_RUNNING; }
  void swout(int k) { cur = m[k].resumer; m[k].onstack--; if (m[k].st == EN_TS_RUNNING && !m[k].ended) m[k].st = EN_TS_WAITING; }
  bool hookdone(int k) { for (int i = 0; i < n; i++) if (((m[i].followed >> k) & 1) && m[i].hooks) return true; return false; }
  template <class F> int guarded(F f) { int outer = unc; unc = 0; int c = 0; depth++; try { f(); } catch (const Boom&) { c = 1; } depth--; if (claims & EXC) sym_assert(c == (unc ? 1 : 0), unc ? "an escaping exception reaches the caller" : "no stray exception"); if (c) sym_reach("caught"); unc = outer; return c; }
  template <class F> void listed(F f) { int outer = unc; unc = 0; std::list<std::exception_ptr> l; depth++; f(l); depth--; if (claims & EXC) { sym_assert((int)l.size() == unc, "every escaping exception is collected once"); for (auto& e : l) sym_assert((bool)e, "collected exceptions are not empty"); } unc = outer; }
  bool step(int self) {
    static const int ops[] = {OP_START, OP_YIELD, OP_KILL, OP_CANCEL, OP_RETURN, OP_THROW, OP_NEXT, OP_AWAIT, OP_DROP};
    unsigned op = sym_pick(9, "op"); if (!(mask & ops[op])) skip(); if (inhook && (op == 1 || op == 4 || op == 5 || op == 7 || op == 8)) skip();
    switch (op) {
      case 0: { int k = pick("target"); unsigned v = sym_pick(variants, "how"); M& x = m[k]; if (!x.p) skip(); T::ptr_type keep = x.p; void* val = (void*)sym_bits(64, "value"); int st = x.st, res = x.res; bool aw = x.awaiting >= 0; void* olde = x.expect; bool oldd = x.direct; x.expect = val; x.direct = true; int rc = 99, th;
        bool ok = st == EN_TS_CREATED || st == EN_TS_WAITING;
        if (v & 2) { th = 0; listed([&](std::list<std::exception_ptr>& l) { rc = (v & 1) ? keep->resume(l, val) : keep->start(l, val); }); } else th = guarded([&] { rc = (v & 1) ? keep->resume(val) : keep->start(val); });
        x.expect = olde; x.direct = oldd;
        if (claims & STATUS) { if (ok) { if (!th) sym_assert(rc == COPP_EC_SUCCESS, "a task that can run is started"); sym_assert(x.res > res || aw, "a started task runs"); } else { sym_assert(!th && rc == (st == EN_TS_RUNNING ? COPP_EC_IS_RUNNING : COPP_EC_ALREADY_FINISHED), "the refusal names the reason"); sym_assert(x.res == res, "a refused start does not run the task"); sym_reach(st == EN_TS_RUNNING ? "refused running" : "refused ended"); } }
        letgo(keep); break; }
      case 1: { if (self < 0) { sym_assert(true, ""); skip(); } void* got = (void*)0x77; swout(self); int rc = m[self].raw->yield(&got); swin(self); if (claims & STATUS) sym_assert(rc == 0 && (m[self].st == EN_TS_RUNNING || m[self].st >= EN_TS_DONE), "yield of a running task"); if ((claims & FOLLOW) && m[self].direct) sym_assert(got == (m[self].st >= EN_TS_DONE ? (void*)0x99 : m[self].expect), "the value of resume arrives"); sym_reach("resumed"); break; }
      case 2: case 3: { int k = pick("target"); M& x = m[k]; if (!x.p) skip(); T::ptr_type keep = x.p; bool lst = variants > 2 && sym_bool("list"); EN_TASK_STATUS to = op == 3 ? EN_TS_CANCELED : (mask & OP_TIMEOUT) && sym_bool("timeout") ? EN_TS_TIMEOUT : EN_TS_KILLED; int st = x.st, hooks = x.hooks, res = x.res; void* val = (void*)0x99; void* olde = x.expect; bool oldd = x.direct; int rc = 99, th = 0;
        bool ok = st < EN_TS_DONE && !(op == 3 && st == EN_TS_RUNNING); if (ok) { x.st = to; if (st != EN_TS_RUNNING) { x.expect = val; x.direct = true; } }
        auto call = [&](std::list<std::exception_ptr>* l) { rc = op == 3 ? (l ? keep->cancel(*l, val) : keep->cancel(val)) : (l ? keep->kill(*l, to, val) : keep->kill(to, val)); };
        if (lst) listed([&](std::list<std::exception_ptr>& l) { call(&l); }); else th = guarded([&] { call(nullptr); });
        x.expect = olde; x.direct = oldd;
        if (ok) { if ((claims & STATUS) && !th) sym_assert(rc == COPP_EC_SUCCESS, "kill or cancel of an unfinished task"); if ((claims & HOOKS) && st != EN_TS_RUNNING) sym_assert(x.hooks == 1 && x.ended, "kill or cancel of a task that does not run ends it at once"); sym_reach(st == EN_TS_RUNNING ? "killed running" : "killed"); }
        else { if (claims & STATUS) sym_assert(rc < 0, "kill or cancel of an ended task, or cancel of a running one, is refused"); if (claims & (STATUS | HOOKS)) { sym_assert(x.hooks == hooks && x.res == res, "a refused kill has no effect"); sym_reach("refused kill"); } }
        letgo(keep); break; }
      case 4: { if (self < 0) return false; m[self].ret = (int)sym_bits(32, "ret"); m[self].leaving = true; return false; }
      case 5: { if (self < 0 || nothrow) skip(); m[self].threw = true; m[self].leaving = true; sym_reach("throw"); return false; }
      case 6: { unsigned i = sym_pick((unsigned)n, "pred"), j = sym_pick((unsigned)n, "succ"); if (i > j || !m[i].p || !m[j].p || m[i].leaving) skip(); M& x = m[i]; M& y = m[j]; T::ptr_type ki = x.p, kj = y.p; if (i == j) { T::ptr_type r = ki->next(kj, nullptr); if (claims & FOLLOW) sym_assert(r == ki && kj->get_status() == y.st, "a task cannot follow itself"); break; }
        if ((x.followed >> j) & 1) skip(); if (y.awaiting >= 0) skip(); x.followed |= 1u << j; int st = y.st, res = y.res; bool over = x.st >= EN_TS_DONE; if (!over) { x.pend |= 1u << j; sym_reach("chained"); } T::ptr_type r; guarded([&] { r = ki->next(kj, y.fol); if (claims & FOLLOW) sym_assert(r == kj, "next returns the follower"); });
        if (claims & FOLLOW) { if (!over) { sym_assert(y.res == res && y.st == st, "a follower does not start before its predecessor ended"); } else if (st == EN_TS_CREATED || st == EN_TS_WAITING) { sym_assert(y.res == res + 1 || y.st >= EN_TS_DONE, "a follower of an ended task starts at once"); sym_reach("at once"); } }
        letgo(r); letgo(ki); letgo(kj); break; }
      case 7: { // wait for another task
        unsigned i = sym_pick((unsigned)n, "awaited"); M& x = m[i]; if (mask & OP_BADAWAIT) { unsigned w = sym_pick(4, "bad"); if (w == 1) { if (self < 0) skip(); int rc = m[self].raw->await_task(T::ptr_type()); sym_assert(rc == COPP_EC_ARGS_ERROR, "awaiting nothing is refused"); break; } if (w == 2) { if (!x.p) skip(); int rc = x.p->await_task(x.p); sym_assert(rc == COPP_EC_TASK_CAN_NOT_WAIT_SELF, "awaiting itself is refused"); break; } if (w == 3) { unsigned j = sym_pick((unsigned)n, "other"); if ((int)j == self || i == j || !x.p || !m[j].p) skip(); unsigned oi = x.followed; int rc = m[j].p->await_task(x.p); (void)oi; sym_assert(rc == (x.st >= EN_TS_DONE || m[j].st >= EN_TS_DONE ? COPP_EC_TASK_IS_EXITING : COPP_EC_TASK_NOT_IN_ACTION), "awaiting from outside the task is refused"); sym_reach("refused outside"); break; } }
        if (self < 0 || (int)i >= self || !x.p || x.leaving) skip(); M& y = m[self]; T* px = x.raw; int st = x.st, yst = y.st;
        if (st >= EN_TS_DONE) { int rc = y.raw->await_task(x.p); if (claims & AWAIT) sym_assert(rc == COPP_EC_TASK_IS_EXITING, "awaiting an ended task continues at once"); sym_reach("ended already"); break; }
        if (yst >= EN_TS_DONE) { int rc = y.raw->await_task(x.p); if (claims & AWAIT) sym_assert(rc == COPP_EC_TASK_IS_EXITING, "a killed task waits for nothing"); break; }
        y.awaiting = (int)i; x.pend |= 1u << self; swout(self); int rc = y.raw->await_task(px); y.awaiting = -1; swin(self);
        if (claims & AWAIT) { if (y.st < EN_TS_DONE) { sym_assert(x.st >= EN_TS_DONE, "a waiter continues only after the awaited task ended"); sym_assert(rc == 0, "awaiting succeeds"); sym_reach("awaited"); } else { sym_assert(rc == COPP_EC_TASK_IS_EXITING || x.st >= EN_TS_DONE, "a killed waiter learns it"); sym_reach("killed waiter"); } }
        break; }
      case 8: { int k = pick("target"); M& x = m[k]; if (!x.p) skip(); for (int j = 0; j < n; j++) if (m[j].awaiting == k && !x.ended) skip(); letgo(x.p); sym_reach("dropped"); break; }
    }
    agree(); if (depth == 0 && cur < 0) settled(); return true;
  }
  int body(int k, void* p, Act* a) {
    M& x = m[k]; bool forced = x.st >= EN_TS_DONE; x.runs++; sym_assert(x.runs == 1, "the function runs once"); swin(k);
    if (claims & FOLLOW) { sym_assert(x.direct || hookdone(k) || chainStart(k), "a task starts only by an operation or as a follower of an ended task"); sym_assert(p == (x.direct ? x.expect : x.fol), "the private data given at the start arrives"); }
    (void)forced; agree();
    while (left > 0 && !x.leaving) { left--; if (!step(k)) break; if (claims & LIFE) sym_assert(a->magic == 4711 && !x.dead, "the action is alive while the function runs"); }
    if (!x.leaving) x.ret = -7 - k; x.leaving = true; x.ended = true; cur = x.resumer; x.onstack--;
    if (x.threw) { unc++; throw Boom{k}; }
    return x.ret;
  }
  bool chainStart(int k) { for (int i = 0; i < n; i++) if (((m[i].followed >> k) & 1) && (m[i].st >= EN_TS_DONE || m[i].dead || m[i].leaving || !m[i].p)) return true; return false; }
  int hook(int k, impl::task_impl& t) {
    M& x = m[k]; sym_assert(&t == x.raw, "the hook gets its task"); x.hooks++; if (claims & HOOKS) { sym_assert(x.hooks == 1, "completion hook runs once"); sym_assert(x.ended && t.get_status() >= EN_TS_DONE, "the hook runs after the task has ended"); }
    if (x.st == EN_TS_RUNNING) x.st = EN_TS_DONE; x.leaving = false; x.pend = 0; sym_reach("hook");
    if ((mask & OP_HOOKOPS) && left > 0 && !inhook) { left--; inhook++; depth++; step(cur); depth--; inhook--; }
    if ((mask & OP_HOOKTHROW) && !nothrow && sym_bool("hookthrow")) { unc++; throw Boom{100 + k}; }
    return 0;
  }
  void gone(int k) { if (claims & LIFE) { sym_assert(!m[k].dead, "an action is destroyed once"); sym_assert(!m[k].onstack, "a task is not destroyed while its function is active"); } m[k].dead = true; if (m[k].st < EN_TS_DONE) m[k].hooks = m[k].hooks; }
  void run(int N, int steps, unsigned cl, unsigned mk, unsigned va) {
    n = N; left = steps; claims = cl; mask = mk; variants = va; { uint64_id_warm(); } uint64_t live0 = sym_live();
    for (int i = 0; i < n; i++) { m[i].fol = (void*)sym_bits(64, "follow value"); m[i].p = T::create(Act(this, i), STK, 0); sym_assert((bool)m[i].p, "created"); m[i].raw = m[i].p.get(); m[i].dead = false; }
    agree();
    while (left > 0) { left--; if (!step(-1)) break; }
    sym_assert(cur == -1, "main continues last"); agree(); settled(); nothrow++; for (int j = 0; j < n; j++) if (m[j].awaiting >= 0) { int i = m[j].awaiting; sym_assert((bool)m[i].p, "awaited"); m[i].st = EN_TS_KILLED; m[i].p->kill(); sym_assert(m[j].awaiting < 0, "a waiter continues when the awaited task is killed"); }
    for (int i = 0; i < n; i++) { T::ptr_type t; t.swap(m[i].p); t.reset(); }
    if (claims & LIFE) for (int i = 0; i < n; i++) sym_assert(m[i].dead, "every task is destroyed in the end");
    if (claims & (LIFE | HOOKS)) for (int i = 0; i < n; i++) if (m[i].runs) sym_assert(m[i].ended && m[i].hooks == 1, "a suspended task is ended before its destruction");
    sym_assert(sym_live() == live0, "nothing leaks"); sym_reach("end");
  }
};
Act::~Act() { if (magic == 4711 && s && k >= 0) { if (s->m[k].raw && s->m[k].raw->get_raw_action() == this) s->gone(k); } magic = 0; }
int Act::operator()(void* p) { sym_assert(magic == 4711, "the action is alive"); return s->body(k, p, this); }
int Act::on_finished(impl::task_impl& t) { sym_assert(magic == 4711, "the action is alive when the task ends"); return s->hook(k, t); }
