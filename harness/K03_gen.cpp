/*SPEC
{"libs": ["copp"],
 "entries": {
  "k03_int": {"reach": ["end", "woken2", "killed", "inner_destroy", "orphan"], "what": "generator of int: histories of starting, killing and destroying waiters, setting and resetting the value and dropping the generator; woken waiters wait again or destroy another waiter"},
  "k03_big": {"reach": ["end", "woken2", "killed", "inner_destroy", "orphan"], "what": "the same with a counted class value (copied to each waiter)"},
  "k03_void": {"reach": ["end", "woken2", "killed", "inner_destroy", "orphan"], "what": "the same without a value"},
  "k03_sync": {"reach": ["end", "sync"], "what": "value set from inside the suspend callback of the awaiting coroutine, which then ends and destroys the generator while the callback runs"}},
 "bounds": "3 waiters; histories of 6 (thorough: 7) operations after creation, at most 2 actions by woken waiters; values 16 bits wide",
 "assumptions": ["whoever sets the value holds a reference to the generator meanwhile", "a waiter does not destroy a coroutine that is itself running"]}
SPEC*/
#include "sym.h"
#include <functional>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
using namespace copp;
enum { N = 3 };
static int g_live_, g_double;
struct Big { int v; int magic; int pad[20]; Big(int x = 0) : v(x), magic(77) { g_live_++; } explicit Big(promise_status s) : v(-(int)s), magic(77) { g_live_++; }
  Big(const Big& o) : v(o.v), magic(77) { if (o.magic != 77) g_double++; g_live_++; } Big(Big&& o) : v(o.v), magic(77) { if (o.magic != 77) g_double++; o.v = 0x777777; g_live_++; }
  Big& operator=(const Big& o) { v = o.v; return *this; } Big& operator=(Big&& o) { v = o.v; o.v = 0x777777; return *this; }
  ~Big() { if (magic != 77) g_double++; magic = 0; g_live_--; } };
template <class V> struct VT { static int num(const V& v) { return v.v; } };
template <> struct VT<int> { static int num(const int& v) { return v; } };
enum { S_NONE, S_WAIT, S_RUN, S_END };
struct W { int st; int frames; int wakes; int wantWake; int want; int alt; };
static W w[N];
static int g_budget, g_suspends, g_resumes, g_waitsExp, g_resumesExp;
static bool g_ready; static int g_val;
static void (*g_destroy)(int); static bool g_againOk;
// what a woken waiter may do; true: wait for the generator again
static bool action(int i) {
  if (g_budget <= 0) return false;
  unsigned a = sym_pick(4, "act"); if (!a) return false; g_budget--;
  if (a == 1) { if (!g_againOk) { sym_assume(false); return false; } return true; }
  int j = (i + a - 1) % N;
  if (w[j].st != S_WAIT) { sym_assume(false); return false; }
  sym_reach("inner_destroy"); g_destroy(j); return false;
}
struct Guard { int i; Guard(int x) : i(x) { w[i].frames++; } ~Guard() { w[i].frames--; } };
template <class V> struct World {
  typedef generator_future<V> gen; typedef callable_future<void> call;
  static gen* g; static call* c[N];
  static call waiter(int i) {
    Guard gd(i);
    for (;;) {
      w[i].st = S_WAIT; w[i].wakes = 0; w[i].wantWake = g_ready; w[i].want = g_val; w[i].alt = g_val;
      if (!g_ready) g_waitsExp++;
      if constexpr (std::is_void_v<V>) co_await *g;
      else { V r = co_await *g; sym_assert((VT<V>::num(r) == w[i].alt) | (VT<V>::num(r) == w[i].want), "the waiter sees the value that was set (or the error of its own end)"); }
      sym_assert(w[i].wantWake == 1, "a waiter is resumed only after a value was set or it was ended itself");
      w[i].wantWake = 0; w[i].st = S_RUN; 
      if (!action(i)) break;
    }
    w[i].st = S_END;
  }
  static void expectEnd(int i, int st) { w[i].wantWake = 1; w[i].want = -st; w[i].alt = g_ready ? g_val : -st; }
  static void destroy(int i) { if (w[i].st == S_WAIT) expectEnd(i, (int)promise_status::kKilled); call* p = c[i]; c[i] = nullptr; int b = g_budget; g_budget = 0; delete p; g_budget = b; sym_assert(w[i].frames == 0, "destroying a waiter destroys its frame"); w[i].st = S_NONE; }
  static void wakeAll(int v) { int n = 0; for (int i = 0; i < N; i++) if (w[i].st == S_WAIT) { w[i].wantWake = 1; w[i].want = w[i].alt = v; n++; } if (n > 1) sym_reach("woken2"); }
  static void allWoken() { for (int i = 0; i < N; i++) sym_assert(!(w[i].st == S_WAIT && w[i].wantWake), "every waiter is resumed when the value is set"); }
  static void run(int len) {
    uint64_t live0 = sym_live(); g_live_ = g_double = 0; g_suspends = g_resumes = g_waitsExp = 0; g_budget = 2; g_destroy = destroy; g_ready = false; g_val = 0; g_againOk = true;
    for (int i = 0; i < N; i++) { c[i] = nullptr; w[i] = W{}; }
    g = new gen{[](typename gen::context_pointer_type) { g_suspends++; }, [](const typename gen::context_type&) { g_resumes++; }};
    for (int k = 0; k < len && g; k++) {
      switch (sym_pick(7, "op")) {
        case 0: { int i = 0; while (i < N && c[i]) i++; if (i == N) { sym_assume(false); return; } c[i] = new call(waiter(i)); break; }
        case 1: { int i = sym_pick(N, "i"); if (!c[i] || w[i].st != S_WAIT) { sym_assume(false); return; } promise_status st = (promise_status)((int)promise_status::kCancle + sym_pick(3, "st"));
          expectEnd(i, (int)st); int b = g_budget; g_budget = 0; sym_assert(c[i]->kill(st), "killing a waiting coroutine is accepted"); g_budget = b; sym_assert((w[i].st == S_END) & (c[i]->get_status() == st) & c[i]->is_ready(), "a killed waiter ends at once with that status"); sym_reach("killed"); break; }
        case 2: { int i = sym_pick(N, "i"); if (!c[i]) { sym_assume(false); return; } destroy(i); break; }
        case 3: { int v = (int)sym_bits(16, "v"); bool was = g_ready; g_ready = true; g_val = v; wakeAll(v); (void)was; auto ctx = g->get_context();
          if constexpr (std::is_void_v<V>) ctx->set_value(); else ctx->set_value(V(v)); allWoken(); break; }
        case 4: { if (!g_ready) { sym_assume(false); return; } g->get_context()->reset_value(); g_ready = false; break; }
        case 5: { if constexpr (!std::is_void_v<V>) if (g_ready) sym_assert(VT<V>::num(*g->get_context()->data()) == g_val, "the generator keeps the value"); gen* o = g; g = new gen(*(const gen*)o); delete o; break; }  // copy the handle, drop the old one
        case 6: { gen* o = g; if (!g_ready) { int n = 0; for (int i = 0; i < N; i++) if (w[i].st == S_WAIT) { expectEnd(i, (int)promise_status::kKilled); n++; } if (n) sym_reach("orphan"); g_ready = true; g_val = -(int)promise_status::kKilled; } g_againOk = false; delete o; g = nullptr; allWoken(); break; }
      }
      if (g) { sym_assert((g->is_ready() == g_ready) & (g->is_pending() == !g_ready) & (g->get_status() == (g_ready ? promise_status::kDone : promise_status::kRunning)), "the generator's state queries agree");
        sym_assert((g_suspends == g_waitsExp), "the suspend callback runs once per suspension"); }
      for (int i = 0; i < N; i++) if (c[i]) sym_assert((c[i]->is_ready() == (w[i].st == S_END)) & (w[i].frames == (w[i].st == S_END ? 0 : 1)), "each waiter is where it should be");
    }
    for (int i = 0; i < N; i++) if (c[i]) destroy(i);
    if (g) { delete g; g = nullptr; }
    sym_assert((g_live_ == 0) & (g_double == 0) & (sym_live() == live0), "everything is released exactly once");
    sym_reach("end");
  }
};
template <class V> typename World<V>::gen* World<V>::g; template <class V> typename World<V>::call* World<V>::c[N];
#define LEN (TIER ? 7 : 6)
ENTRY(k03_int) { World<int>::run(LEN); }
ENTRY(k03_big) { World<Big>::run(LEN); }
ENTRY(k03_void) { World<void>::run(LEN); }
struct Held { int magic = 77; int more[4] = {77, 77, 77, 77}; Held() {} Held(const Held& o) : magic(o.magic) {} ~Held() { magic = 0; more[3] = 0; } };
static int s_got[2], s_n; static bool s_before;
static callable_future<int> syncwait(int i, int v, bool viaLocal) {
  Held h; generator_future<int> g{[v, h](generator_future<int>::context_pointer_type c) { c->set_value(v); sym_assert(h.magic == 77 && h.more[3] == 77, "the suspend callback lives until it returns"); }};
  int r = co_await g; s_got[i] = r; s_n++;
  int r2 = co_await g; sym_assert(r2 == r, "a ready generator answers at once with the same value");
  co_return r + 1;
}
static callable_future<void> syncouter(int i, int v) { int r = co_await syncwait(i, v, true); sym_assert(r == v + 1, "value arrives"); s_n += 10; }
ENTRY(k03_sync) {
  uint64_t live0 = sym_live(); s_n = 0; int v = (int)sym_bits(16, "v");
  { auto t = syncouter(0, v); sym_assert((s_n == 11) & t.is_ready() & (s_got[0] == v), "a value set while suspending resumes the waiter once"); }
  sym_assert(sym_live() == live0, "nothing leaks"); sym_reach("sync"); sym_reach("end");
}
