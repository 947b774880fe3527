/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "k04_int": {"reach": ["end", "ran", "killed", "dropped", "never", "woken2", "lastdrop", "self kill"], "what": "C++20 task returning int: histories of start, kill, cancel, copy, move, reset of its handles, awaiting it, firing its gates, killing and destroying awaiters; the body and woken awaiters copy or drop handles and destroy other awaiters"},
  "k04_big": {"reach": ["end", "ran", "killed", "dropped", "never", "woken2", "lastdrop", "self kill"], "what": "the same with a counted class value"},
  "k04_void": {"reach": ["end", "ran", "killed", "dropped", "never", "woken2", "lastdrop", "self kill"], "what": "the same without value"},
  "k04_chain": {"reach": ["end", "copied", "moved", "waiting", "unstarted", "finished", "through"], "what": "tasks whose private data, or whose running body, owns the next task: a handle is assigned, by copy or by move, from the handle inside the task it is the last owner of"},
  "k04_empty": {"reach": ["end"], "what": "empty handles: every operation refused, await answers at once"}},
 "bounds": "one task with up to 1 (thorough: 2) gates, 2 handles, 2 awaiters, histories of 4 (thorough: 6) operations after creation, 1 (thorough: 2) actions by the body (which may end its own task) or woken awaiters; values 10 bits wide",
 "assumptions": ["a task does not drop the last reference to itself while it runs", "the body does not throw", "a coroutine is not resumed or destroyed while it is running"]}
SPEC*/
#include "sym.h"
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcotask/task_promise.h>
using namespace copp;
enum { H = 2, A = 2 };
static int g_live_, g_double;
struct Big { int v; int magic; int pad[20]; Big(int x = 0) : v(x), magic(77) { g_live_++; } explicit Big(promise_status s) : v(-(int)s), magic(77) { g_live_++; }
  Big(const Big& o) : v(o.v), magic(77) { if (o.magic != 77) g_double++; g_live_++; } Big(Big&& o) : v(o.v), magic(77) { if (o.magic != 77) g_double++; o.v = 0x777777; g_live_++; }
  Big& operator=(const Big& o) { v = o.v; return *this; } Big& operator=(Big&& o) { v = o.v; o.v = 0x777777; return *this; }
  ~Big() { if (magic != 77) g_double++; magic = 0; g_live_--; } };
static int num(const Big& b) { return b.v; } static int num(int v) { return v; }
struct Probe;
struct PD { int gates, seed, tag; PD() : gates(-1), seed(-1), tag(0) { g_live_++; } PD(int g, int s, const Probe&) : gates(g), seed(s), tag(0) { g_live_++; } PD(const PD&) = delete; ~PD() { g_live_--; } };
typedef generator_future<int> gen;
enum { P_NOT, P_GATE, P_RUN, P_RET };
static int t_st, t_pos, t_frames, t_starts, t_gateVal, t_val, t_retval, t_refs, t_first, g_budget; static bool t_gateSet, t_hasGate, t_gone, t_inbody; static gen::context_pointer_type t_ctx; static void* t_pd; static uint64_t t_id;
enum { W_NONE, W_WAIT, W_END };
struct Aw { int st, frames, self; bool copy; };
static Aw aw[A];
struct TGuard { TGuard() { t_frames++; t_starts++; } ~TGuard() { t_frames--; sym_assert(t_pos == P_RET, "a body's locals are destroyed only after it ended"); } };
struct AGuard { int i; AGuard(int x) : i(x) { aw[i].frames++; } ~AGuard() { aw[i].frames--; } };
static int g_probe;  // lives in the frame's parameters: destroyed with the frame
struct Probe { bool on; Probe() : on(true) { g_probe++; } Probe(const Probe&) : on(true) { g_probe++; } Probe(Probe&&) : on(true) { g_probe++; } ~Probe() { g_probe--; } };
template <class V> struct World {
  typedef cotask::task_future<V, PD> task; typedef callable_future<void> call;
  static task* h[H]; static call* c[A];
  static int first() { for (int i = 0; i < H; i++) if (h[i]->valid()) return i; return -1; }
  static int refs() { int n = 0; for (int i = 0; i < H; i++) if (h[i]->valid()) n++; for (int i = 0; i < A; i++) if (c[i] && aw[i].copy) n++; return n; }
  static void refCheck() { for (int i = 0; i < H; i++) sym_assert((int)h[i]->get_ref_future_count() == (h[i]->valid() ? t_refs : 0), "the reference count counts the holders"); }
  static void lose() { t_refs--; if (t_refs == 0) { if (t_pos != P_RET) { if (t_st == 1) sym_reach("never"); if (t_st < 3) { t_st = 5; sym_reach("dropped"); } t_first = t_pos == P_GATE; } else sym_reach("lastdrop"); t_gone = true; } }
  // a step by user code running inside the body or an awaiter
  static void action() {
    if (g_budget <= 0) return;
    unsigned a = sym_pick(3 + H + A, "act"); if (!a) return; g_budget--;
    if (a == 2 + H + A) { int i = first(); if (i < 0 || !t_inbody) { sym_assume(false); return; } bool ok = t_st == 2; sym_assert(!h[i]->start(), "a running task starts again"); int s = 4 + (int)sym_pick(TIER ? 3 : 1, "self"); if (ok) { t_st = s; t_first = 0; sym_reach("self kill"); } sym_assert(h[i]->kill((promise_status)s) == ok, "a running task can be ended from inside, once"); sym_assert(!h[i]->kill(), "a task is ended twice"); return; }
    if (a == 1) { int f = -1, t = -1; for (int i = 0; i < H; i++) if (h[i]->valid()) f = i; else t = i; if (f < 0 || t < 0) { sym_assume(false); return; } *h[t] = *(const task*)h[f]; t_refs++; return; }
    if (a < 2 + H) { int i = a - 2; if (!h[i]->valid() || (t_refs == 1 && t_inbody)) { sym_assume(false); return; } lose(); h[i]->reset(); return; }
    int i = a - 2 - H; if (!c[i] || aw[i].st != W_WAIT || t_inbody) { sym_assume(false); return; } drop(i);
  }
  static task body(int gates, int seed, Probe) {
    TGuard g; t_pos = P_RUN; t_inbody = true; int acc = seed, err = 0;
    sym_assert((t_st >= 2) & (t_st != 3), "the body runs only after a start or a kill");
    for (int k = 0; k < gates; k++) {
      t_pos = P_GATE; t_gateSet = false; t_hasGate = true; gen gg{[](gen::context_pointer_type x) { t_ctx = x; t_inbody = false; }};
      int r = co_await gg; t_inbody = true;
      sym_assert(t_pos == P_GATE, "resumed only where it waits"); t_pos = P_RUN; t_hasGate = false; t_ctx.reset();
      if (t_st == 2) sym_assert(t_gateSet & (r == t_gateVal), "a waiting task is resumed when the value is set, with that value");
      else { sym_assert((t_first ? r == -t_st : r < 0) | (t_gateSet & (r == t_gateVal)), "an ended task sees its terminal status"); if (r < 0) t_first = 0; }
      if (r < 0) err = r; else acc += r;
      action();
    }
    if (!gates) action();
    promise_status s = co_yield task::yield_status(); sym_assert((int)s == t_st, "the body reads its own status");
    uint64_t id = co_yield task::yield_task_id(); sym_assert(id == t_id, "the body reads its own id");
    PD* p = co_yield task::yield_private_data(); sym_assert((p == t_pd) & (p->gates == gates) & (p->seed == seed), "the private data is built from the body's arguments and stays in place");
    p->tag++;
    t_retval = err < 0 ? err : acc; if (t_st < 3) t_st = 3; t_pos = P_RET; t_inbody = false;
    if constexpr (!std::is_void_v<V>) co_return V(t_retval); else co_return;
  }
  static call wcopy(int i, task t) { return_check(i); AGuard g(i); int r = 0; if constexpr (std::is_void_v<V>) co_await t; else { V v = co_await t; r = num(v); } woke(i, r); action(); }
  static call wref(int i, task& t) { return_check(i); AGuard g(i); int r = 0; if constexpr (std::is_void_v<V>) co_await t; else { V v = co_await t; r = num(v); } woke(i, r); action(); }
  static void return_check(int i) { aw[i].st = W_WAIT; aw[i].self = 0; }
  static void woke(int i, int r) {
    sym_assert((aw[i].st == W_WAIT), "an awaiter is resumed once"); aw[i].st = W_END;
    bool ret = t_pos == P_RET;
    sym_assert(ret | (t_st >= 4) | (aw[i].self != 0), "an awaiter is resumed only when the task or itself has ended");
    if constexpr (!std::is_void_v<V>) sym_assert((ret & (r == t_retval)) | (!ret & (t_st >= 4) & (aw[i].self == 0) & (r < 0)) | (!ret & (aw[i].self != 0) & (r == -aw[i].self)), "an awaiter gets the value the task returned, or the status of whoever ended");
  }
  static void drop(int i) { if (aw[i].st == W_WAIT && !aw[i].self) aw[i].self = 5; call* p = c[i]; c[i] = nullptr; int b = g_budget; g_budget = 0; if (aw[i].copy) lose(); delete p; g_budget = b; sym_assert((aw[i].frames == 0) & (aw[i].st == W_END), "destroying an awaiter ends it"); aw[i].st = W_NONE; }
  static void run(int len, int budget) {
    { typename task::id_type x = util::uint64_id_allocator::allocate(); (void)x; }
    uint64_t live0 = sym_live(); g_live_ = g_double = g_probe = 0; t_st = 1; t_pos = P_NOT; t_frames = t_starts = 0; t_gateSet = t_hasGate = t_gone = t_inbody = false; t_first = 0; g_budget = budget;
    for (int i = 0; i < A; i++) { c[i] = nullptr; aw[i] = Aw{}; }
    for (int i = 0; i < H; i++) h[i] = new task();
    int gates = (int)sym_pick(TIER ? 3 : 2, "gates"), seed = (int)sym_bits(10, "seed");
    { task t = body(gates, seed, Probe{}); t_id = t.get_id(); t_pd = t.get_private_data(); *h[0] = std::move(t); sym_assert(!t.valid() & (t_id != 0), "moving a handle empties it"); } t_refs = 1;
    for (int k = 0; ; k++) {
      t_refs == 0 ? void() : refCheck();
      sym_assert((t_starts <= 1) & (t_frames <= 1), "the body runs once");
      if (t_gone) { sym_assert((t_frames == 0) & (t_starts == 1) & (t_pos == P_RET), "a dropped task is run to its end"); sym_assert(g_probe == 0, "the frame is destroyed when the last reference is gone"); }
      else sym_assert(g_probe == 1, "the frame exists exactly once while there are references");
      for (int i = 0; i < H; i++) if (h[i]->valid()) {
        task& f = *h[i];
        sym_assert(((int)f.get_status() == t_st) & (f.is_exiting() == (t_st >= 3)) & (f.is_completed() == (t_pos == P_RET)) & (f.is_canceled() == (t_st == 4)) & (f.is_faulted() == (t_st >= 5)) & (f.is_timeout() == (t_st >= 6)), "every holder sees the same state");
        sym_assert((f.get_id() == t_id) & ((void*)f.get_private_data() == t_pd) & (f.get_private_data()->tag == (t_pos == P_RET)), "every holder sees the same id and private data");
        if constexpr (!std::is_void_v<V>) { if (t_pos == P_RET) sym_assert(num(*f.get_context()->data()) == t_retval, "the result is readable by every holder"); else sym_assert(f.get_context()->data() == nullptr, "no result before the end"); }
        sym_assert(f.get_context()->is_ready() == (t_pos == P_RET), "ready when returned");
      } else sym_assert((f_invalid(*h[i])), "an empty handle reports no task");
      if (t_pos == P_GATE) sym_assert(!t_gateSet & (t_st == 2), "a task whose value was set, or that was ended, does not stay suspended");
      int wok = 0; for (int i = 0; i < A; i++) if (c[i]) { sym_assert(!((aw[i].st == W_WAIT) & (t_pos == P_RET)), "awaiters of an ended task are resumed"); sym_assert((aw[i].frames == (aw[i].st == W_END ? 0 : 1)) & (c[i]->is_ready() == (aw[i].st == W_END)), "each awaiter is where it should be"); if (aw[i].st == W_END && t_pos == P_RET) wok++; }
      if (wok > 1) sym_reach("woken2"); if (t_pos == P_RET && t_st == 3) sym_reach("ran");
      if (k == len) break;
      switch (sym_pick(8, "op")) {
        case 0: { int i = first(); if (i < 0) { sym_assume(false); return; } bool ok = t_st == 1; if (ok) t_st = 2; sym_assert(h[i]->start() == ok, "a task starts exactly once"); break; }
        case 1: { int i = first(); if (i < 0) { sym_assume(false); return; } unsigned kk = sym_pick(TIER ? 6 : 3, "kk"); int s = 4 + (int)(kk % 3); bool force = TIER ? kk >= 3 : kk == 2, ok = t_st < 3;
          if (ok) { t_st = s; t_first = t_pos == P_GATE; sym_reach("killed"); }
          sym_assert((s == 4 && force ? h[i]->cancel(true) : h[i]->kill((promise_status)s, force)) == ok, "only an unfinished task can be killed");
          if (ok & force) sym_assert(t_pos == P_RET, "a forced kill runs the body to its end"); break; }
        case 2: { int i = first(), j = sym_pick(H, "j"); if (i < 0 || i == j) { sym_assume(false); return; } if (!h[j]->valid()) t_refs++; if ((k & 1)) *h[j] = *(const task*)h[i]; else { task tmp(*(const task*)h[i]); h[j]->assign(tmp); } break; }
        case 3: { int i = first(), j = sym_pick(H, "j"); if (i < 0) { sym_assume(false); return; } bool both = i != j && h[j]->valid(); *h[j] = std::move(*h[i]); sym_assert((i == j) ? h[i]->valid() : both ? h[j]->valid() : h[j]->valid() & !h[i]->valid(), "moving a handle hands it over");
          break; }
        case 4: { int i = sym_pick(H, "i"); if (!h[i]->valid()) { sym_assume(false); return; } lose(); h[i]->reset(); break; }
        case 5: { int i = 0; while (i < A && c[i]) i++; if (i == A || !t_refs) { sym_assume(false); return; } int j = -1; for (int q = 0; q < H; q++) if (h[q]->valid()) j = q; if (j < 0) { sym_assume(false); return; }
          aw[i].copy = sym_pick(2, "copy"); if (aw[i].copy) { t_refs++; } c[i] = (call*)1; call* p = aw[i].copy ? new call(wcopy(i, *h[j])) : new call(wref(i, *h[j])); c[i] = p;
          if (t_st >= 3) sym_assert(aw[i].st == W_END, "awaiting an ended task answers at once"); break; }
        case 6: { if (t_pos != P_GATE || !t_hasGate) { sym_assume(false); return; } t_gateVal = (int)sym_bits(10, "gv"); t_gateSet = true; auto x = t_ctx; t_ctx.reset(); x->set_value(t_gateVal); break; }
        case 7: { int i = sym_pick(A, "i"); if (!c[i]) { sym_assume(false); return; } if (sym_pick(2, "del")) drop(i); else { if (aw[i].st != W_WAIT) { sym_assume(false); return; } int s = 6 - k % 3; aw[i].self = s; int b = g_budget; g_budget = 0; sym_assert(c[i]->kill((promise_status)s), "an awaiter can be killed"); g_budget = b; sym_assert(aw[i].st == W_END, "a killed awaiter ends"); } break; }
      }
    }
    g_budget = 0;
    for (int i = 0; i < A; i++) if (c[i]) drop(i);
    for (int i = 0; i < H; i++) { if (h[i]->valid()) lose(); delete h[i]; }
    t_ctx.reset();
    sym_assert((t_frames == 0) & (t_starts == 1) & t_gone & (g_probe == 0), "the task ended and is gone");
    sym_assert((g_live_ == 0) & (g_double == 0) & (sym_live() == live0), "everything is released exactly once"); sym_reach("end");
  }
  static bool f_invalid(task& f) { return !f.valid() && f.get_status() == promise_status::kInvalid && f.get_id() == 0 && f.get_ref_future_count() == 0 && f.get_private_data() == nullptr && !f.start() && !f.kill() && !f.cancel() && f.is_exiting() && f.is_completed(); }
};
template <class V> typename World<V>::task* World<V>::h[H]; template <class V> typename World<V>::call* World<V>::c[A];
#define RUN(V) World<V>::run(TIER ? 6 : 4, TIER ? 2 : 1)
ENTRY(k04_int) { RUN(int); }
ENTRY(k04_big) { RUN(Big); }
ENTRY(k04_void) { RUN(void); }
typedef cotask::task_future<int, void> ti;
static callable_future<int> waitempty(ti t) { int r = co_await t; co_return r; }
ENTRY(k04_empty) {
  ti a, b; sym_assert(!a.start() & !a.kill() & !a.cancel(true) & (a == b) & !(a != b) & !a.valid() & (a.get_status() == promise_status::kInvalid) & (a.get_id() == 0), "an empty handle refuses everything");
  b = a; a = std::move(b); a.reset(); a.assign(a);
  auto c = waitempty(a); sym_assert(c.is_ready() && c.get_internal_promise().data() == -1, "awaiting an empty handle answers at once"); sym_reach("end");
}

// ---- a handle replaced by one which lives inside the task being let go
struct Rest; struct Node { Rest* next; Node() : next(nullptr) { g_live_++; } Node(const Node&) = delete; ~Node(); };
typedef cotask::task_future<int, Node> NT; typedef cotask::task_future<int, void> LT;
struct Rest { NT t; }; Node::~Node() { delete next; g_live_--; }
enum { NC = TIER ? 4 : 3 };
static gen::context_pointer_type n_ctx[NC]; static int n_ran[NC], n_end[NC]; static LT* n_local[NC];
static NT node(int i, int gates, Probe) { TGuard g; n_ran[i]++; if (gates) { gen gg{[i](gen::context_pointer_type x) { n_ctx[i] = x; }}; (void)co_await gg; n_ctx[i].reset(); } n_end[i]++; t_pos = P_RET; co_return i; }
static LT warm_() { co_return 0; }
static LT leaf(int i, int gates, LT inner, Probe) { TGuard g; n_local[i] = &inner; n_ran[i]++; if (gates) { gen gg{[i](gen::context_pointer_type x) { n_ctx[i] = x; }}; (void)co_await gg; n_ctx[i].reset(); } n_local[i] = nullptr; n_end[i]++; t_pos = P_RET; co_return i; }
template <class T, class F, class N> static void chain(F make, N next) {
  { LT w = warm_(); }
  const uint64_t live0 = sym_live(); T* t = new T(); int n = 2 + (int)sym_pick(NC - 1, "tasks"); int st[NC];
  for (int i = n; i-- > 0;) { st[i] = (int)sym_pick(3, "state"); T x = make(i, st[i] == 1, *t); if (st[i]) sym_assert(x.start(), "a fresh task starts"); *t = x; }
  for (int i = 0; i < n; i++) {
    sym_assert(t->valid() && (t->get_ref_future_count() == 1) & (n_ran[i] == (st[i] ? 1 : 0)), "the handle owns its task");
    T* from = next(i, *t); if (!from) { t->reset(); sym_reach("through"); break; }
    sym_reach(st[i] == 0 ? "unstarted" : st[i] == 1 ? "waiting" : "finished");
    auto id = from->get_id(); unsigned how = sym_pick(2, "how");
    if (how) { sym_reach("moved"); *t = std::move(*from); } else { sym_reach("copied"); *t = *(const T*)from; }
    sym_assert((n_ran[i] == 1) & (n_end[i] == 1), "the task that was let go has been brought to its end, once");
    if (i + 1 < n) sym_assert(t->get_id() == id, "the handle now holds the task it was assigned"); else sym_assert(!t->valid(), "the end of the chain");
  }
  t->reset(); delete t; for (int i = 0; i < NC; i++) n_ctx[i].reset();
  sym_assert((t_frames == 0) & (g_probe == 0), "every frame is destroyed"); sym_assert(sym_live() == live0, "nothing is leaked");
  sym_reach("end");
}
ENTRY(k04_chain) {
  if (sym_pick(2, "kind")) chain<NT>([](int i, int gates, NT& rest) { NT x = node(i, gates, Probe()); x.get_private_data()->next = new Rest(); x.get_private_data()->next->t = rest; rest.reset(); return x; }, [](int, NT& t) { return &t.get_private_data()->next->t; });
  else chain<LT>([](int i, int gates, LT& rest) { LT r = rest; rest.reset(); return leaf(i, gates, std::move(r), Probe()); }, [](int i, LT&) { return n_local[i]; });
}
