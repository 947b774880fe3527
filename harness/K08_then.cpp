/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "k08_int_callable": {"reach": ["end", "before", "after", "killedpred", "killedcont", "inner"], "what": "then() on a task<int> giving a callable, for continuations returning a value, nothing, a callable, a void callable or a task: histories of start, gate, kill, attach, await, drop"},
  "k08_int_task": {"reach": ["end", "before", "after", "killedpred", "killedcont", "inner"], "what": "the same with then(f, nullptr) giving a task"},
  "k08_int_priv": {"reach": ["end", "before", "after", "killedpred", "killedcont", "inner"], "what": "the same with then(f, private data) giving a task with private data"},
  "k08_void_callable": {"reach": ["end", "before", "after", "killedpred", "killedcont", "inner"], "what": "then() on a task<void>"},
  "k08_void_task": {"reach": ["end", "before", "after", "killedpred", "killedcont", "inner"], "what": "then(f, nullptr) on a task<void>"},
  "k08_void_priv": {"reach": ["end", "before", "after", "killedpred", "killedcont", "inner"], "what": "then(f, private data) on a task<void>"},
  "k08_big": {"reach": ["end", "chain"], "what": "a chain of three continuations over a counted class value, attached before or after completion, predecessor killed or not"},
  "k08_empty": {"reach": ["end"], "what": "then() on an empty task handle: the continuation runs at once with the invalid status"}},
 "bounds": "one task with at most one gate, one continuation with at most one inner gate, one awaiter of the continuation; histories of 6 (thorough: 7) operations; values 10 bits wide",
 "assumptions": ["the continuation does not throw"]}
SPEC*/
#include "sym.h"
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
using namespace copp;
typedef generator_future<int> gen;
enum { P_NOT, P_GATE, P_RET };
enum { C_NONE, C_WAIT, C_INNER, C_END };
static struct { int st, pos, ret, gv; bool gate, live; gen::context_pointer_type ctx; } p;
static struct { int st, pos, calls, seen, result, err; bool ig; int igv; gen::context_pointer_type ctx; int igpos; bool self; } q;  // continuation
static struct { int st, r; } w;   // awaiter of the continuation
static int g_frames; struct Guard { Guard() { g_frames++; } ~Guard() { g_frames--; } };
static callable_future<int> innerc(int v) { Guard g; if (q.ig) { q.igpos = P_GATE; gen gg{[](gen::context_pointer_type x) { q.ctx = x; }}; int r = co_await gg; q.ctx.reset(); sym_reach("inner"); if (r < 0) { v = r; } else v += r; } q.igpos = P_RET; co_return v; }
static callable_future<void> innerv(int v) { int r = co_await innerc(v); q.result = r; }
static cotask::task_future<int, void> innert(int v) { int r = co_await innerc(v); co_return r; }
template <class V, int F> struct World {
  typedef cotask::task_future<V, void> task; typedef typename task::context_pointer_type cptr;
  static task body() {
    Guard g; int v = p.ret;
    if (p.gate) { p.pos = P_GATE; p.live = p.st == 2; gen gg{[](gen::context_pointer_type x) { p.ctx = x; }}; int r = co_await gg; p.ctx.reset(); if (p.st == 2) sym_assert(r == p.gv, "gate value"); else sym_assert(p.live ? r == -p.st : r < 0, "a killed task sees its status"); v = r < 0 ? r : v + r; }
    p.ret = v; p.pos = P_RET; if (p.st < 3) p.st = 3;
    if constexpr (!std::is_void_v<V>) co_return v; else co_return;
  }
  static void* want;
  static int ran(const cptr& c, int v) {   // the continuation is invoked
    sym_assert((q.calls++ == 0) & (q.pos <= C_WAIT), "a continuation runs once");
    sym_assert((void*)c.get() == want, "the continuation gets the task's context");
    bool done = p.pos == P_RET, kc = q.st >= 4, kp = p.st >= 4;
    sym_assert(done | kc | kp, "a continuation runs only after the task (or itself) ended");
    sym_assert((int)c->get_status() == p.st, "the continuation can read how the task ended");
    if constexpr (!std::is_void_v<V>) sym_assert((done & (v == p.ret)) | (!done & kc & (v == -q.st)) | (!done & !kc & kp & (v == -p.st)), "the continuation receives the result, or the status of whoever ended");
    if constexpr (std::is_void_v<V>) v = done ? p.ret : 0;
    q.seen = v; q.pos = C_INNER; q.result = v; return v;
  }
  template <class T> struct Cont {  // kind as a return type
    static int K() { return std::is_same_v<T, int> ? 0 : std::is_same_v<T, void> ? 1 : std::is_same_v<T, callable_future<int>> ? 2 : std::is_same_v<T, callable_future<void>> ? 3 : 4; }
    static T mk(int v) { if constexpr (std::is_same_v<T, int>) return v + 7; else if constexpr (std::is_void_v<T>) return; else if constexpr (std::is_same_v<T, callable_future<int>>) return innerc(v); else if constexpr (std::is_same_v<T, callable_future<void>>) return innerv(v); else return innert(v); }
    static auto fn() { if constexpr (std::is_void_v<V>) return [](cptr c) -> T { return mk(ran(c, 0)); }; else return [](cptr c, int v) -> T { return mk(ran(c, v)); }; }
    static auto make(task& t) { if constexpr (F == 0) return t.then(fn()); else if constexpr (F == 1) return t.then(fn(), nullptr); else return t.then(fn(), 1234); }
    typedef decltype(make(*(task*)nullptr)) fut;
    static constexpr bool RV = std::is_void_v<typename fut::value_type>;
    static callable_future<int> awaiter(fut& f) { w.st = 1; int r = 0; if constexpr (RV) co_await f; else r = co_await f; w.st = 2; w.r = r; co_return r; }
    static bool ready(fut& f) { if constexpr (F == 0) return f.is_ready(); else return f.is_completed(); }
    static int data(fut& f) { if constexpr (RV) return 0; else if constexpr (F == 0) return f.get_internal_promise().data(); else return *f.get_context()->data(); }
    static void run(int len) {
      { auto x = util::uint64_id_allocator::allocate(); (void)x; }
      uint64_t live0 = sym_live(); p.st = 1; p.pos = P_NOT; q.st = 2; q.pos = C_NONE; q.calls = 0; q.self = false; q.igpos = P_NOT; w.st = 0; g_frames = 0; q.err = 0;
      p.gate = sym_pick(2, "gate"); q.ig = K() >= 2 ? sym_pick(2, "ig") : false; p.ret = (int)sym_bits(10, "ret");
      task* t = new task(body()); want = t->get_context().get(); typename task::context_pointer_type keep = t->get_context();
      fut* f = nullptr; callable_future<int>* a = nullptr; bool aw_killed = false;
      auto settle = [&]() {  // after each operation
        if (f) {
          bool due = p.pos == P_RET || p.st >= 4 || q.st >= 4;
          if (q.pos == C_NONE) q.pos = C_WAIT;
          if (p.pos == P_RET || q.st >= 4) sym_assert(q.calls == 1, "the continuation runs as soon as the task (or itself) has ended");
          if (q.calls) { bool in = K() >= 2 && q.igpos != P_RET; sym_assert(ready(*f) == !in, "the continuation's own future is ready when it has returned"); if (q.st >= 4) sym_assert(!in, "a killed continuation ends"); if (!in) q.pos = C_END;
            if (!in) { int ex = K() == 0 ? q.seen + 7 : K() == 2 || K() == 4 ? (q.ig ? (q.st >= 4 && q.igv < 0 ? q.igv : q.seen + q.igv) : q.seen) : 0; if (!RV && !q.err) sym_assert(data(*f) == ex, "the continuation's own result is its future's value"); if (!RV && q.err) sym_assert(data(*f) < 0, "a killed continuation reports an error"); 
              if (K() == 3 && !q.err) sym_assert(q.result == (q.ig ? q.seen + q.igv : q.seen), "the coroutine returned by the continuation ran to its end"); } }
          else { sym_assert(!ready(*f), "not ready before the continuation ran"); (void)due; }
          if (a) sym_assert((w.st == 2) == (q.pos == C_END || aw_killed), "whoever awaits the continuation is resumed when it ended");
          if (a && w.st == 2 && !RV && !aw_killed) sym_assert(w.r == data(*f), "the continuation's result reaches whoever awaits it");
          if constexpr (F == 2) sym_assert(*f->get_private_data() == 1234, "private data is kept");
        }
      };
      for (int k = 0; k < len; k++) {
        switch (sym_pick(8, "op")) {
          case 0: if (!t || p.st != 1) { sym_assume(false); return; } p.st = 2; sym_assert(t->start(), "start"); if (!p.gate) sym_assert(p.pos == P_RET, "ran"); break;
          case 1: { if (p.pos != P_GATE) { sym_assume(false); return; } p.gv = (int)sym_bits(10, "gv"); auto x = p.ctx; p.ctx.reset(); x->set_value(p.gv); sym_assert(p.pos == P_RET, "ran"); break; }
          case 2: { if (!t || p.st > 2) { sym_assume(false); return; } int s = 4 + (int)sym_pick(3, "st"); bool wait = p.pos == P_GATE; p.st = s; sym_assert(t->kill((promise_status)s), "kill"); sym_reach("killedpred"); if (wait) sym_assert(p.pos == P_RET, "a killed waiting task ends"); break; }
          case 3: { if (!t || f) { sym_assume(false); return; } sym_reach(p.pos == P_RET ? "after" : "before"); f = new fut(make(*t)); break; }
          case 4: { if (q.igpos != P_GATE) { sym_assume(false); return; } q.igv = (int)sym_bits(10, "igv"); auto x = q.ctx; q.ctx.reset(); x->set_value(q.igv); break; }
          case 5: { if (!f || a) { sym_assume(false); return; } a = new callable_future<int>(awaiter(*f)); break; }
          case 6: { if (!f || q.pos == C_END) { sym_assume(false); return; } int s = 4 + (int)sym_pick(3, "st"); if (q.igpos == P_GATE) { q.err = 1; } q.st = s; if (!q.calls) { if (q.ig) { q.err = 1; } } q.self = true; sym_reach("killedcont"); sym_assert(f->kill((promise_status)s), "a waiting continuation can be killed"); break; }
          case 7: { if (!t || p.st == 1) { sym_assume(false); return; } if (!f && p.pos != P_RET && p.st < 4) p.st = 5; task* o = t; t = nullptr; delete o; if (!f) sym_assert(p.pos == P_RET, "a dropped task ends"); break; }
        }
        settle();
      }
      if (t) { if (!f && p.st < 3) p.st = 5; delete t; t = nullptr; }
      if (f) { if (q.st < 3 && q.pos != C_END) { q.st = 5; q.err = 1; } 
        if (a && w.st == 1) { aw_killed = true; } delete a; a = nullptr; if (p.pos != P_RET && p.st < 3 && F == 0) {} 
        if (p.pos != P_RET && p.st < 3) g_late = 1; delete f; f = nullptr; sym_assert(q.calls == 1, "a dropped continuation is told"); }
      keep.reset(); p.ctx.reset(); q.ctx.reset();
      sym_assert((g_frames == 0) & (sym_live() == live0), "everything is released"); sym_reach("end");
    }
  };
  static int g_late;
  static void run(int len) { switch (sym_pick(5, "kind")) { case 0: Cont<int>::run(len); break; case 1: Cont<void>::run(len); break; case 2: Cont<callable_future<int>>::run(len); break; case 3: Cont<callable_future<void>>::run(len); break; case 4: Cont<cotask::task_future<int, void>>::run(len); break; } }
};
template <class V, int F> void* World<V, F>::want; template <class V, int F> int World<V, F>::g_late;
#define LEN (TIER ? 7 : 6)
ENTRY(k08_int_callable) { World<int, 0>::run(LEN); }
ENTRY(k08_int_task) { World<int, 1>::run(LEN); }
ENTRY(k08_int_priv) { World<int, 2>::run(LEN); }
ENTRY(k08_void_callable) { World<void, 0>::run(LEN); }
ENTRY(k08_void_task) { World<void, 1>::run(LEN); }
ENTRY(k08_void_priv) { World<void, 2>::run(LEN); }
static int g_live_, g_double;
struct Big { int v; int magic; int pad[20]; Big(int x = 0) : v(x), magic(77) { g_live_++; } explicit Big(promise_status s) : v(-(int)s), magic(77) { g_live_++; }
  Big(const Big& o) : v(o.v), magic(77) { if (o.magic != 77) g_double++; g_live_++; } Big(Big&& o) : v(o.v), magic(77) { if (o.magic != 77) g_double++; o.v = 0x777777; g_live_++; }
  Big& operator=(const Big& o) { v = o.v; return *this; } Big& operator=(Big&& o) { v = o.v; o.v = 0x777777; return *this; }
  ~Big() { if (magic != 77) g_double++; magic = 0; g_live_--; } };
typedef cotask::task_future<Big, void> tb;
static tb bigbody(int v, bool gate) { if (gate) { gen gg{[](gen::context_pointer_type x) { p.ctx = x; }}; int r = co_await gg; p.ctx.reset(); v = r < 0 ? r : v + r; } co_return Big(v); }
ENTRY(k08_big) {
  { auto x = util::uint64_id_allocator::allocate(); (void)x; }
  uint64_t live0 = sym_live(); g_live_ = g_double = 0; int v = (int)sym_bits(10, "v"), gv = (int)sym_bits(10, "gv"); bool gate = sym_pick(2, "gate"), early = sym_pick(2, "early"), kill = gate && sym_pick(2, "kill"); int n1 = 0, n2 = 0, n3 = 0, base = kill ? -6 : gate ? v + gv : v;
  {
    tb t = bigbody(v, gate);
    if (!early) { t.start(); if (kill) t.kill(promise_status::kTimeout); else if (gate) { auto x = p.ctx; p.ctx.reset(); x->set_value(gv); } }
    auto a = t.then([&](tb::context_pointer_type, Big b) { n1++; sym_assert(b.v == base, "first continuation gets the task's value"); return Big(b.v + 1); }, nullptr);
    auto b = a.then([&](decltype(a)::context_pointer_type, Big x) -> tb { n2++; sym_assert(x.v == base + 1, "second gets the first's value"); return bigbody(x.v + 1, false); }, 5);
    auto c = b.then([&](decltype(b)::context_pointer_type x, Big y) -> callable_future<int> { n3++; sym_assert((y.v == base + 2) & (x->get_private_data() == 5), "third gets the second's value"); co_return y.v + 1; });
    auto d = t.then([&](tb::context_pointer_type, Big b) { sym_assert(b.v == base, "a second continuation of the same task gets the same value"); return 1; });
    if (early) { sym_assert((n1 == 0) & !c.is_ready(), "nothing runs early"); t.start(); if (kill) t.kill(promise_status::kTimeout); else if (gate) { auto x = p.ctx; p.ctx.reset(); x->set_value(gv); } }
    sym_assert((n1 == 1) & (n2 == 1) & (n3 == 1) & c.is_ready() & d.is_ready(), "each continuation ran once");
    sym_assert(c.get_internal_promise().data() == base + 3, "the chain's result"); sym_assert(t.get_context()->data()->v == base, "the task keeps its value"); sym_reach("chain");
  }
  sym_assert((g_live_ == 0) & (g_double == 0) & (sym_live() == live0), "everything is released once"); sym_reach("end");
}
ENTRY(k08_empty) {
  typedef cotask::task_future<int, void> ti; ti t; int n = 0;
  auto f = t.then([&](ti::context_pointer_type c, int v) { n++; sym_assert(!c & (v == -1), "told that there is no task"); return v - 1; });
  sym_assert((n == 1) & f.is_ready() && f.get_internal_promise().data() == -2, "runs at once");
  auto g = t.then([&](ti::context_pointer_type c, int v) { n++; return v - 1; }, nullptr);
  sym_assert((n == 2) & g.is_completed() && *g.get_context()->data() == -2, "runs at once"); sym_reach("end");
}
