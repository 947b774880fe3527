// histories of nested coroutines: every coroutine runs the same script interpreter; the solver chooses every step
#include <memory>
#include <functional>
#include <cstring>
#include <new>
#include <utility>
#include <exception>
#include "sym.h"
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_allocator.h>
using namespace copp;
#define skip() do { sym_assume(false); return true; } while (0)
enum { STATUS = 1, VALUES = 2, CURRENT = 4, EXC = 8 };
#ifdef LSYM
static const size_t STK = 4096;
#else
static const size_t STK = 256 * 1024;
#endif
struct Boom { uint64_t v; int* alive; explicit Boom(uint64_t x, int* a) : v(x), alive(a) { ++*alive; } Boom(const Boom& o) : v(o.v), alive(o.alive) { ++*alive; } ~Boom() { --*alive; } };
struct Sim {
  typedef coroutine_context_container<allocator::stack_allocator_malloc> Co;
  enum { NOT, READY, RUN, DONE };
  struct M { Co::ptr_type co; int st = NOT, runs = 0, resumer = -2, ret = 0, locals = 0, ends = 0, rcnow = 0; void* in = nullptr; bool threw = false; uint64_t eval = 0; };
  enum { MAXN = 4 };
  M m[MAXN]; int n; int left, cur = -1, booms = 0; unsigned claims, mask, variants;
  struct Local { M& m; explicit Local(M& x) : m(x) { m.locals++; } ~Local() { m.locals--; m.ends++; } };
  void agree(const char*) {
    coroutine_context* c = this_coroutine::get_coroutine();
    if (claims & CURRENT) { sym_assert(c == (cur < 0 ? nullptr : static_cast<coroutine_context*>(m[cur].co.get())), "the current coroutine is the one that is running"); sym_assert((coroutine_context_base*)c == coroutine_context_base::get_this_coroutine_base(), "both queries agree"); }
    for (int i = 0; i < n; i++) if (m[i].co) {
      if (claims & STATUS) { sym_assert(m[i].co->is_finished() == (m[i].st == DONE), "finished exactly when the function has ended"); sym_assert(m[i].runs == (m[i].st == NOT || (m[i].st == READY && m[i].resumer == -2) ? 0 : 1), "the function runs exactly once"); sym_assert(m[i].ends == (m[i].st == DONE ? 1 : 0), "locals are destroyed exactly when the function ends"); }
      if ((claims & VALUES) && m[i].st == DONE && !m[i].threw) sym_assert(m[i].co->get_ret_code() == m[i].ret, "return value of the function"); }
  }
  // one operation by the running side; false: this side's body ends
  bool step(int self) {
    unsigned op = sym_pick(6, "op"); if (!((mask >> op) & 1)) skip();
    switch (op) {
      case 0: { // start or resume somebody
        int k = (int)sym_pick((unsigned)n, "target"); unsigned v = sym_pick(variants, "how"); void* val = (void*)sym_bits(64, "value"); int st = m[k].st, was = m[k].resumer; void* oldin = m[k].in;
        int before_runs = m[k].runs;
        if (st == READY) { m[k].resumer = self; m[k].in = val; m[k].st = RUN; }
        int rc = 99; uint64_t got = 0; int caught = 0; std::exception_ptr ep; cur = st == READY ? k : cur;
        if (v == 0) { try { rc = st == READY && before_runs ? m[k].co->resume(val) : m[k].co->start(val); } catch (const Boom& b) { caught++; got = b.v; } }
        else { rc = st == READY && before_runs ? m[k].co->resume(ep, val) : m[k].co->start(ep, val); if (ep) { try { std::rethrow_exception(ep); } catch (const Boom& b) { caught++; got = b.v; } ep = nullptr; } }
        if (st == READY) {
          sym_assert(cur == self, "control comes back to whoever started or resumed");
          if (claims & STATUS) { sym_assert(m[k].st == READY || m[k].st == DONE, "start returns when the coroutine yields or ends"); if (!(v == 0 && caught)) sym_assert(rc == COPP_EC_SUCCESS, "start of a ready coroutine succeeds"); }
          if (claims & EXC) { bool exp = m[k].st == DONE && m[k].threw && m[k].eval; sym_assert(caught == (exp ? 1 : 0), exp ? "an escaping exception reaches the resumer once" : "a resumer sees an exception that is not its own"); if (exp) { sym_assert(got == m[k].eval - 1, "the exception arrives unchanged"); sym_reach("caught"); m[k].eval = 0; } sym_assert(booms == liveBooms(), "exception objects are destroyed once"); }
        } else { if (claims & STATUS) { sym_assert(rc < 0 && !caught, "start of a coroutine that is not ready is refused"); sym_assert(rc == (st == NOT ? COPP_EC_NOT_INITED : st == RUN ? COPP_EC_IS_RUNNING : COPP_EC_NOT_READY), "the error names the reason"); sym_reach(st == RUN ? "refused running" : st == DONE ? "refused done" : "refused uninit"); } m[k].resumer = was; m[k].in = oldin; }
        break; }
      case 1: { // yield
        void* got = (void*)0x5a5a; bool byself = variants > 1 && sym_bool("byself"); 
        if (self < 0) { if (byself) skip(); int rc = this_coroutine::yield(&got); if (claims & STATUS) sym_assert(rc == COPP_EC_NOT_RUNNING && got == (void*)0x5a5a, "yield outside a coroutine is refused"); break; }
        m[self].st = READY; int r = m[self].resumer; cur = r; int rc = byself ? m[self].co->yield(&got) : this_coroutine::yield(&got);
        if (claims & STATUS) sym_assert(rc == 0, "yield of a running coroutine succeeds"); sym_assert(m[self].st == RUN && cur == self, "a yielded coroutine continues only when resumed"); if (claims & VALUES) sym_assert(got == m[self].in, "the value of resume is the result of yield"); sym_reach("resumed"); break; }
      case 2: { // yield on a coroutine that does not run
        int k = (int)sym_pick((unsigned)n, "target"); if (m[k].st == RUN) skip(); void* got = (void*)0x5a5a; int rc = m[k].co->yield(&got); if (claims & STATUS) { sym_assert(rc == (m[k].st == NOT ? COPP_EC_NOT_INITED : m[k].st == READY ? COPP_EC_NOT_RUNNING : COPP_EC_ALREADY_EXIST), "yield of a coroutine that does not run is refused"); sym_assert(got == (void*)0x5a5a, "a refused yield delivers nothing"); } break; }
      case 3: { // return
        if (self < 0) return false; m[self].ret = (int)sym_bits(32, "ret"); m[self].rcnow = 1; return false; }
      case 4: { if (self < 0) skip(); m[self].threw = true; m[self].eval = 1 + sym_bits(32, "exception"); m[self].rcnow = 1; sym_reach("throw"); return false; }
      case 5: { // set the function once more, or for the first time
        int k = (int)sym_pick((unsigned)n, "target"); bool empty = sym_bool("empty"); int rc = m[k].co->set_runner(empty ? coroutine_context::callback_type() : coroutine_context::callback_type([this, k](void* p) { return body(k, p); }));
        if (empty) { if (claims & STATUS) sym_assert(rc == COPP_EC_ARGS_ERROR, "an empty function is refused"); } else if (m[k].st == NOT) { if (claims & STATUS) sym_assert(rc == 0, "first function accepted"); m[k].st = READY; } else { if (claims & STATUS) sym_assert(rc == COPP_EC_ALREADY_INITED, "a second function is refused"); } break; }
    }
    agree("op"); return true;
  }
  int liveBooms() { return 0; }
  int body(int self, void* p) {
    Local l(m[self]); m[self].runs++; sym_assert(m[self].runs == 1, "the function runs once"); sym_assert(m[self].st == RUN && cur == self, "a coroutine enters only when started"); if (claims & VALUES) sym_assert(p == m[self].in, "the value of start is the function's argument"); agree("entry");
    while (left > 0) { left--; if (!step(self)) break; }
    if (!m[self].rcnow) m[self].ret = -7 - self;
    m[self].st = DONE; cur = m[self].resumer;
    if (m[self].threw) throw Boom(m[self].eval - 1, &booms);
    return m[self].ret;
  }
  void run(int N, int initially, int steps, unsigned cl, unsigned mk, unsigned va) {
    n = N; left = steps; claims = cl; mask = mk; variants = va; uint64_t live0 = sym_live();
    for (int i = 0; i < n; i++) { allocator::stack_allocator_malloc al; coroutine_context::callback_type f; if (i < initially) f = [this, i](void* p) { return body(i, p); }; m[i].co = Co::create(std::move(f), al, STK, 0); sym_assert((bool)m[i].co, "created"); m[i].st = i < initially ? READY : NOT; }
    agree("init");
    while (left > 0) { left--; if (!step(-1)) break; }
    sym_assert(cur == -1, "main continues last"); agree("end"); int susp = 0; for (int i = 0; i < n; i++) if (m[i].st == READY && m[i].runs) susp++;
    for (int i = 0; i < n; i++) m[i].co.reset();
    if (claims & EXC) sym_assert(booms == 0, "no exception object is left over");
    if (!susp) { sym_assert(sym_live() == live0, "nothing leaks"); sym_reach("allended"); } sym_reach("end");
  }
};
