/*SPEC
{"libs": ["copp"],
 "entries": {
  "k05_gen": {"reach": ["end", "done", "part", "killed"], "what": "some(k)/any/all over generators: every initial readiness, threshold and completion order, killing or destroying the waiter at any point"},
  "k05_call": {"reach": ["end", "done", "part", "killed"], "what": "the same over callables (completed by returning or by being killed)"},
  "k05_task": {"reach": ["end", "done", "part", "killed"], "what": "the same over tasks"},
  "k05_sync": {"reach": ["end", "done", "inline"], "what": "generators that complete themselves or another one from inside their suspend callback"},
  "k05_dup": {"reach": ["end", "done"], "what": "reference wrappers, not-null pointers and two waiters on the same futures"}},
 "bounds": "up to 3 (thorough: 4) futures, thresholds 0 to n+1, all completion orders, at most one kill or destruction of the waiter",
 "assumptions": ["the futures outlive the waiter's await, as the interface requires"]}
SPEC*/
#include "sym.h"
#include <functional>
#include <vector>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcopp/coroutine/algorithm.h>
#include <libcotask/task_promise.h>
using namespace copp;
enum { MAXN = 4 };
typedef generator_future<int> gen;
typedef cotask::task_future<int, void> task;
static gen* g_gate[MAXN];
struct GenK { typedef gen F; static const bool killable = false;
  static F* make(int i) { return new gen{[](gen::context_pointer_type) {}}; } static void complete(F* f, int i) { f->get_context()->set_value(i + 100); } static bool kill(F*, promise_status) { return false; } };
static callable_future<int> cbody(int i) { int r = co_await *g_gate[i]; co_return r; }
struct CallK { typedef callable_future<int> F; static const bool killable = true;
  static F* make(int i) { g_gate[i] = new gen{[](gen::context_pointer_type) {}}; return new F(cbody(i)); } static void complete(F*, int i) { g_gate[i]->get_context()->set_value(i + 100); } static bool kill(F* f, promise_status s) { return f->kill(s); } };
static task tbody(int i) { int r = co_await *g_gate[i]; co_return r; }
struct TaskK { typedef task F; static const bool killable = true;
  static F* make(int i) { g_gate[i] = new gen{[](gen::context_pointer_type) {}}; F* f = new F(tbody(i)); f->start(); return f; } static void complete(F*, int i) { g_gate[i]->get_context()->set_value(i + 100); } static bool kill(F* f, promise_status s) { return f->kill(s); } };
static int g_res[2], g_resumes[2], g_frames; static unsigned g_rep[2]; static bool g_dup, g_foreign;
struct Guard { Guard() { g_frames++; } ~Guard() { g_frames--; } };
template <class F> struct Rd { typedef typename some_ready<F>::type type; };
template <class F, class C> static callable_future<void> waiter(int who, int mode, unsigned k, C& futures, F** all, int n) {
  Guard gd; typename Rd<F>::type ready; promise_status r;
  if (mode == 0) r = co_await some(ready, k, futures); else if (mode == 1) r = co_await any(ready, futures); else r = co_await copp::all(ready, futures);
  g_res[who] = (int)r; g_resumes[who]++; unsigned m = 0;
  for (auto& p : ready) { int x = -1; for (int i = 0; i < n; i++) if (all[i] == p.get()) x = i; if (x < 0) { g_foreign = true; continue; } if (m >> x & 1) g_dup = true; m |= 1u << x; }
  g_rep[who] = m;
}
static bool bit(unsigned m, int i) { return m >> i & 1; }
static unsigned cnt(unsigned m) { return __builtin_popcount(m); }
static uint64_t warm() { copp::util::uint64_id_allocator a; a.allocate(); return sym_live(); }
template <class K> static void run() {
  typedef typename K::F F; uint64_t live0 = warm();
  int n = 1 + sym_pick(TIER ? 4 : 3, "n"); g_frames = 0; g_res[0] = -1; g_resumes[0] = 0; g_rep[0] = 0; g_dup = g_foreign = false;
  std::vector<std::reference_wrapper<F>> fs; F* all[MAXN]; unsigned done = 0;
  for (int i = 0; i < n; i++) { all[i] = K::make(i); fs.push_back(std::ref(*all[i])); if (sym_pick(2, "ready")) { K::complete(all[i], i); done |= 1u << i; } }
  int mode = sym_pick(3, "mode"); unsigned k = mode == 0 ? sym_pick(n + 2, "k") : mode == 1 ? 1 : n; unsigned need = k > (unsigned)n ? n : k;
  callable_future<void>* t = new callable_future<void>(waiter<F>(0, mode, k, fs, all, n));
  bool killed = false; int ks = 0; unsigned atEnd = done;
  for (int step = 0; ; step++) {
    if (!killed && t) {
      bool want = cnt(done) >= need;
      if (!want && cnt(done)) sym_reach("part");
      sym_assert((t->is_ready() == want) & (g_resumes[0] == (want ? 1 : 0)), "the wait ends exactly when the required number is ready, resuming the waiter once");
      if (want) { sym_assert((g_res[0] == (int)promise_status::kDone), "a fulfilled wait reports done"); sym_assert((g_rep[0] == atEnd) & !g_dup & !g_foreign, "exactly the ready ones are reported"); sym_reach("done"); }
      else atEnd = ~0u;
    } else if (killed) { sym_assert((g_resumes[0] == 1) & (!t || (t->is_ready() & (g_res[0] == ks))) & !g_dup & !g_foreign & ((g_rep[0] & ~done) == 0), "an ended wait resumes its waiter once with that status"); }
    if (step == n + 1) break;
    unsigned op = sym_pick(n + 3, "op");
    if (op < (unsigned)n) { if (bit(done, op)) { sym_assume(false); return; } done |= 1u << op; if (atEnd == ~0u) atEnd = done;
      if (K::killable && sym_pick(2, "bykill")) sym_assert(K::kill(all[op], promise_status::kTimeout), "killing an unfinished future is accepted"); else K::complete(all[op], op); }
    else if (op == (unsigned)n) { if (!t || t->is_ready()) { sym_assume(false); return; } ks = (int)promise_status::kCancle + sym_pick(3, "st"); killed = true; sym_assert(t->kill((promise_status)ks), "the waiter can be killed"); sym_reach("killed"); }
    else if (op == (unsigned)n + 1) { if (!t || killed) { sym_assume(false); return; } bool r = t->is_ready(); auto* o = t; t = nullptr; delete o; if (!r) { killed = true; ks = 5; } sym_assert(g_frames == 0, "the waiter's frame is destroyed"); if (r) break; }
    else break;
  }
  if (t) delete t;
  for (int i = 0; i < n; i++) { if (!bit(done, i) && sym_pick(2, "late")) K::complete(all[i], i); delete all[i]; if (K::killable) delete g_gate[i]; }
  fs.clear(); fs.shrink_to_fit();
  sym_assert((g_frames == 0) & (sym_live() == live0), "everything is released exactly once"); sym_reach("end");
}
ENTRY(k05_gen) { run<GenK>(); }
ENTRY(k05_call) { run<CallK>(); }
ENTRY(k05_task) { run<TaskK>(); }
static int g_sync[3]; static gen* g_all[3]; static unsigned g_setm; static int g_n;
static void setone(int i) { if (g_setm >> i & 1) return; g_setm |= 1u << i; sym_reach("inline"); g_all[i]->get_context()->set_value(i); }
ENTRY(k05_sync) {
  uint64_t live0 = sym_live(); int n = 3; g_n = n; g_setm = 0; g_frames = 0; g_resumes[0] = 0; g_dup = g_foreign = false; g_rep[0] = 0;
  std::vector<std::reference_wrapper<gen>> fs;
  for (int i = 0; i < n; i++) { g_sync[i] = (int)sym_pick(4, "target"); g_all[i] = new gen{[i](gen::context_pointer_type) { if (g_sync[i] < 3) setone(g_sync[i]); }}; fs.push_back(std::ref(*g_all[i])); }
  unsigned k = 1 + sym_pick(3, "k");
  callable_future<void>* t = new callable_future<void>(waiter<gen>(0, 0, k, fs, g_all, n));
  for (int i = 0; i < n; i++) {
    bool want = cnt(g_setm) >= k;
    sym_assert((t->is_ready() == want) & (g_resumes[0] == (want ? 1 : 0)), "the wait ends exactly when the required number is ready, resuming the waiter once");
    if (want) { sym_reach("done"); sym_assert((cnt(g_rep[0]) >= k) & ((g_rep[0] & ~g_setm) == 0) & !g_dup & !g_foreign, "only ready ones are reported"); break; }
    setone(i);
  }
  delete t; for (int i = 0; i < n; i++) delete g_all[i]; fs.clear(); fs.shrink_to_fit();
  sym_assert((g_frames == 0) & (sym_live() == live0), "everything is released exactly once"); sym_reach("end");
}
ENTRY(k05_dup) {
  uint64_t live0 = sym_live(); int n = 2; g_frames = 0; g_dup = g_foreign = false; for (int w = 0; w < 2; w++) { g_resumes[w] = 0; g_rep[w] = 0; g_res[w] = -1; }
  gen* all[2]; for (int i = 0; i < n; i++) all[i] = GenK::make(i);
  {
    std::vector<gsl::not_null<gen*>> a; std::vector<gen> b; for (int i = 0; i < n; i++) a.push_back(gsl::make_not_null(all[i]));
    unsigned k0 = 1 + sym_pick(2, "k0"), k1 = 1 + sym_pick(2, "k1"), done = 0;
    callable_future<void> t0 = waiter<gen>(0, 0, k0, a, all, n);
    gen* arr[2] = {all[0], all[1]}; std::vector<std::reference_wrapper<gen>> c{std::ref(*all[0]), std::ref(*all[1])};
    callable_future<void> t1 = waiter<gen>(1, 0, k1, c, all, n);
    for (int s = 0; s < n; s++) { unsigned i = sym_pick(2, "i"); if (done >> i & 1) { sym_assume(false); return; } done |= 1u << i; all[i]->get_context()->set_value(7);
      sym_assert((t0.is_ready() == (cnt(done) >= k0)) & (t1.is_ready() == (cnt(done) >= k1)) & (g_resumes[0] == (cnt(done) >= k0)) & (g_resumes[1] == (cnt(done) >= k1)) & !g_dup & !g_foreign, "each wait ends at its own threshold"); }
    sym_assert((cnt(g_rep[0]) >= k0) & (cnt(g_rep[1]) >= k1), "ready ones are reported"); sym_reach("done");
  }
  for (int i = 0; i < n; i++) delete all[i];
  sym_assert((g_frames == 0) & (sym_live() == live0), "everything is released exactly once"); sym_reach("end");
}
