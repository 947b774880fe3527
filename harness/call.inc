// chains of nested callables: each node may wait on a gate before, between and after awaiting the next node
#include "sym.h"
#include <functional>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
using namespace copp;
enum { D = 3 };
static int g_live_, g_double;
struct Big { int v; int magic; int pad[20]; Big(int x = 0) : v(x), magic(77) { g_live_++; } explicit Big(promise_status s) : v(-(int)s), magic(77) { g_live_++; }
  Big(const Big& o) : v(o.v), magic(77) { if (o.magic != 77) g_double++; g_live_++; } Big(Big&& o) : v(o.v), magic(77) { if (o.magic != 77) g_double++; o.v = 0x777777; g_live_++; }
  Big& operator=(const Big& o) { v = o.v; return *this; } Big& operator=(Big&& o) { v = o.v; o.v = 0x777777; return *this; }
  ~Big() { if (magic != 77) g_double++; magic = 0; g_live_--; } };
static int num(const Big& b) { return b.v; } static int num(int v) { return v; }
typedef generator_future<int> gen;
enum { NONE, GATE, CHILD, RET, GONE };
struct Node {
  bool pre, post; int cm;            // cm: 0 no child, 1 await at once, 2 gate between creating and awaiting, 3 created, gate, dropped unawaited
  int val;
  int pos, frames, starts, token; bool hasGate, gateSet; int gateVal, gateWant; bool returned; int retval;
  int self;
  int st, first;                      // expected status; the awaited error still to be reported
  gen::context_pointer_type ctx; promise_status (*status)(void*); bool (*ready)(void*); bool (*kill)(void*, promise_status); void* fut;
};
static Node n[D]; static int g_resumed;
struct Guard { int i; Guard(int x) : i(x) { n[i].frames++; n[i].starts++; } ~Guard() { n[i].frames--; sym_assert(n[i].pos == RET, "a coroutine's locals are destroyed only after its body ended"); } };
template <class V> struct Chain {
  typedef callable_future<V> call;
  static void bind(int i, call& c) { n[i].fut = &c; n[i].status = [](void* p) { return ((call*)p)->get_status(); }; n[i].ready = [](void* p) { return ((call*)p)->is_ready(); }; n[i].kill = [](void* p, promise_status s) { return ((call*)p)->kill(s); }; }
  static void seen(int i, int r, int& err) {  // result of a gate
    sym_assert(n[i].pos == GATE, "a coroutine is resumed only at the point where it waits");
    n[i].hasGate = false;
    if (n[i].st <= 3) sym_assert(n[i].gateSet & (r == n[i].gateVal), "a waiting coroutine is resumed when the value is set, with that value");
    else { sym_assert((n[i].first ? r == -n[i].st : r < 0) | (n[i].gateSet & (r == n[i].gateVal)), "an ended coroutine sees its terminal status"); if (r < 0) n[i].first = 0; }
    if (r < 0) err = r;
  }
  static call node(int i) {
    Guard gd(i); int err = 0, acc = n[i].val;
#define DO_GATE { n[i].pos = GATE; n[i].gateSet = false; n[i].hasGate = true; gen g{[i](gen::context_pointer_type c) { n[i].ctx = c; }}; int r = co_await g; seen(i, r, err); if (r >= 0) acc += r; }
    if (n[i].pre) DO_GATE
    if (n[i].self && n[i].fut) { promise_status ks = (promise_status)n[i].self; bool ok = n[i].st < 3; if (ok) { n[i].st = n[i].self; n[i].first = 0; sym_reach("selfkill"); } sym_assert(n[i].kill(n[i].fut, ks) == ok, "a running coroutine can be ended from inside, once"); sym_assert(!n[i].kill(n[i].fut, promise_status::kTimeout), "a coroutine is ended twice"); }
    if (n[i].cm) {
      { call c = node(i + 1); bind(i + 1, c);
        if (n[i].cm >= 2) DO_GATE
        if (n[i].cm <= 2) {
          n[i].pos = CHILD; int r = 0;
          if (n[i].st >= 4 && !n[i + 1].returned && n[i + 1].st < 3) markEnd(i + 1, n[i].st);
          if constexpr (std::is_void_v<V>) co_await c; else { V v = co_await c; r = num(v); }
          sym_assert(n[i].pos == CHILD, "a coroutine is resumed only at the point where it waits");
          n[i].pos = NONE;
          sym_assert(n[i + 1].returned | (n[i].st >= 4), "the awaiter continues only after its callee ended, unless it was ended itself");
          if constexpr (!std::is_void_v<V>) { sym_assert(n[i + 1].returned ? r == n[i + 1].retval : r == -n[i + 1].st, "the awaiter receives exactly the value its callee returned"); if (r < 0) err = r; else acc += r; }
          sym_assert((int)c.get_status() == n[i + 1].st, "the callee's first terminal status stays");
        } else if (n[i + 1].pos != RET) { if (n[i + 1].st < 3) markEnd(i + 1, 5); }  // dropping it ends it
      }
      n[i + 1].fut = nullptr;
      sym_assert(n[i + 1].frames == 0, "a finished callee's frame is destroyed with its handle");
    }
    if (n[i].post) DO_GATE
    promise_status s = co_yield call::yield_status();
    sym_assert(n[i].st >= 4 ? (int)s == n[i].st : s == promise_status::kRunning, "a running coroutine reads its own status");
    n[i].pos = RET; n[i].returned = true; n[i].retval = err < 0 ? err : acc; if (n[i].st < 3) n[i].st = 3;
    if constexpr (!std::is_void_v<V>) co_return V(n[i].retval);
  }
  static call* root;
  static void markEnd(int i, int s) {  // node i ends with status s now; what it awaits ends with the same status, what it merely holds is killed
    n[i].st = s; n[i].first = n[i].pos == GATE;
    if (i + 1 < D && n[i].cm && n[i + 1].frames && n[i + 1].pos != RET) markEnd(i + 1, n[i].pos == CHILD ? s : (n[i].cm == 3 ? 5 : s));
  }
  static call* outer(int) { return nullptr; }
  static void run(bool kills, int depth, int len, bool selfs = false) {
    uint64_t live0 = sym_live(); g_live_ = g_double = 0;
    for (int i = 0; i < D; i++) { n[i].pos = NONE; n[i].frames = n[i].starts = 0; n[i].hasGate = n[i].gateSet = n[i].returned = false; n[i].st = 2; n[i].first = 0; n[i].fut = nullptr; n[i].cm = 0; n[i].val = (int)sym_bits(10, "val"); }
    for (int i = 0; i < D; i++) n[i].self = 0;
    for (int i = 0; i < depth; i++) { n[i].pre = sym_pick(2, "pre"); n[i].self = selfs && n[i].pre && sym_pick(2, "self") ? 4 : 0; n[i].cm = i + 1 < depth ? (int)sym_pick(4, "child") : 0; n[i].post = n[i].cm ? sym_pick(2, "post") : 0; if (i + 1 < depth && !n[i].cm) depth = i + 1; }
    root = new call(node(0)); bind(0, *root);
    int gen_ops = 0;
    for (int k = 0; ; k++) {
      for (int i = 0; i < depth; i++) {
        if (n[i].frames) {
          sym_assert((n[i].pos == GATE) | (n[i].pos == CHILD) | (n[i].pos == RET), "nothing is left half way");
          sym_assert(n[i].st < 4 || n[i].pos == RET, "an ended coroutine does not stay suspended");
          if (n[i].pos == GATE) sym_assert(!n[i].gateSet, "a coroutine whose value was set is resumed");
          if (n[i].pos == CHILD) sym_assert(!n[i + 1].returned, "the awaiter of a finished callee is resumed at once");
        }
        sym_assert((n[i].starts <= 1) & (n[i].frames <= 1), "a callable runs once");
        if (n[i].fut) sym_assert(((int)n[i].status(n[i].fut) == n[i].st) & (n[i].ready(n[i].fut) == n[i].returned), "status and readiness agree with the history");
      }
      if (n[0].returned) sym_reach("finished");
      if (k == len) break;
      unsigned op = sym_pick(kills ? 2 * depth + 2 : depth + 1, "op");
      if (op < (unsigned)depth) {
        int i = op; if (!(n[i].frames && n[i].pos == GATE && n[i].hasGate)) { sym_assume(false); return; }
        n[i].gateVal = (int)sym_bits(10, "gv"); n[i].gateSet = true; auto c = n[i].ctx; n[i].ctx.reset(); c->set_value(n[i].gateVal);
      } else if (op == (unsigned)depth) break;
      else if (op == (unsigned)depth + 1) { if (n[0].st < 3) markEnd(0, 5); delete root; root = nullptr; n[0].fut = nullptr; break; }
      else {
        int i = op - depth - 2; if (!n[i].fut) { sym_assume(false); return; }
        promise_status s = (promise_status)(sym_pick(4, "st") + 3); bool ok = n[i].st < 3;
        if (s == promise_status::kDone) { if (ok) { sym_assume(false); return; } }
        if (ok) { markEnd(i, (int)s); sym_reach(i ? "innerkill" : "kill"); }
        sym_assert(n[i].kill(n[i].fut, s) == ok, "only an unfinished coroutine can be killed");
      }
    }
    if (root) { for (int i = 0; i < depth; i++) if (n[i].frames && n[i].st < 3) { markEnd(i, 5); break; } delete root; root = nullptr; }
    else sym_reach("dropped");
    for (int i = 0; i < depth; i++) n[i].ctx.reset();
    for (int i = 0; i < depth; i++) sym_assert(n[i].frames == 0, "every frame is destroyed");
    sym_assert((g_live_ == 0) & (g_double == 0) & (sym_live() == live0), "everything is released exactly once"); sym_reach("end");
  }
};
template <class V> typename Chain<V>::call* Chain<V>::root;
