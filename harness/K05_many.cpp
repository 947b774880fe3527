/*SPEC
{"libs": ["copp"],
 "entries": {
  "k05_many": {"reach": ["end", "done", "part", "at once", "killed"], "what": "some(k)/any/all over five or six (thorough: seven) futures, any of them ready before, completed in four orders, one by being killed"}},
 "bounds": "k05_many: 5 to 6 (thorough: 7) futures, any initial readiness, every threshold, 4 completion orders"}
SPEC*/
#include "sym.h"
#include <functional>
#include <vector>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcopp/coroutine/algorithm.h>
using namespace copp;
enum { M = 7 };
typedef generator_future<int> gen; typedef callable_future<int> C;
static gen* gate[M]; static C* fu[M]; static int res, resumes, nrep; static unsigned rep; static bool dup_;
static C one(int i) { int r = co_await *gate[i]; co_return r; }
static callable_future<void> waiter(int mode, unsigned k, std::vector<std::reference_wrapper<C>>& fs, int n) {
  some_ready<C>::type out; promise_status r; if (mode == 0) r = co_await some(out, k, fs); else if (mode == 1) r = co_await any(out, fs); else r = co_await copp::all(out, fs);
  res = (int)r; resumes++; rep = 0; for (auto& p : out) for (int i = 0; i < n; i++) if (fu[i] == p.get()) { if (rep >> i & 1) dup_ = true; rep |= 1u << i; } nrep = (int)out.size();
}
ENTRY(k05_many) {
  uint64_t live0 = sym_live(); { int n = 5 + (int)sym_pick(2 + TIER, "n"); res = -1; resumes = 0; rep = 0; dup_ = false; nrep = 0; std::vector<std::reference_wrapper<C>> fs; unsigned done = 0;
  unsigned pre = sym_pick(5, "pre"); unsigned mask = pre == 0 ? 0 : pre == 1 ? 1u << sym_pick(n, "which") : pre == 2 ? ((1u << n) - 1) & ~(1u << sym_pick(n, "which")) : pre == 3 ? 0x15u & ((1u << n) - 1) : ((1u << n) - 1);
  for (int i = 0; i < n; i++) { gate[i] = new gen{[](gen::context_pointer_type) {}}; fu[i] = new C(one(i)); fs.push_back(std::ref(*fu[i])); if (mask >> i & 1) { gate[i]->get_context()->set_value(i); done |= 1u << i; } }
  int mode = (int)sym_pick(3, "mode"); unsigned k = mode == 0 ? sym_pick(n + 2, "k") : mode == 1 ? 1 : n, need = k > (unsigned)n ? n : k; unsigned at = ~0u;
  callable_future<void>* t = new callable_future<void>(waiter(mode, k, fs, n)); if ((unsigned)__builtin_popcount(done) >= need) { sym_reach("at once"); at = done; }
  unsigned ord = sym_pick(4, "order"), kl = sym_pick(n + 1, "killed");
  for (int s = 0; ; s++) {
    bool want = (unsigned)__builtin_popcount(done) >= need; if (!want && done) sym_reach("part"); if (want) { sym_reach("done"); if (at == ~0u) at = done; }
    sym_assert((t->is_ready() == want) & (resumes == (want ? 1 : 0)), "the wait ends exactly when the required number is ready, resuming the waiter once");
    if (want) sym_assert((res == (int)promise_status::kDone) & (rep == at) & !dup_ & (nrep == __builtin_popcount(at)), "exactly the ready ones are reported");
    if (s == n) break; int i = ord == 0 ? s : ord == 1 ? n - 1 - s : ord == 2 ? (s % 2 ? n - 1 - s / 2 : s / 2) : (s + n / 2) % n; if (done >> i & 1) continue; done |= 1u << i; if (i == (int)kl) { sym_reach("killed"); sym_assert(fu[i]->kill(), "kill"); } else gate[i]->get_context()->set_value(i);
  }
  delete t; for (int i = 0; i < n; i++) { delete fu[i]; delete gate[i]; } }
  sym_assert(sym_live() == live0, "everything is released exactly once"); sym_reach("end");
}
