/*SPEC
{"libs": ["copp"],
 "entries": {
  "k02_steps": {"reach": ["end", "stepped", "forced", "left alone", "outer first", "value", "transformed", "finished by drop", "cut short"], "what": "a callable that suspends at points of its own, awaited by another: steps, kills with and without force of either, handles dropped in both orders"}},
 "bounds": "k02_steps: up to 3 (thorough: 4) suspensions of the inner and 1 of the outer callable, histories of 4 (thorough: 5) operations before the handles go"}
SPEC*/
#include "sym.h"
#include <libcopp/coroutine/callable_promise.h>
using namespace copp;
typedef callable_future<int> C;
static int n_, at_, pos_, ist, ret_, live_, on_, oat_, opos_, ost, got_, olive_, iseen, oseen; static std::coroutine_handle<> ih, oh;
struct IStep { bool await_ready() const noexcept { return false; } void await_suspend(std::coroutine_handle<> h) noexcept { ih = h; pos_ = 1; } void await_resume() const noexcept { sym_assert(pos_ == 1, "resumed only where it is suspended"); pos_ = 2; ih = nullptr; } };
struct OStep { bool await_ready() const noexcept { return false; } void await_suspend(std::coroutine_handle<> h) noexcept { oh = h; opos_ = 4; } void await_resume() const noexcept { sym_assert(opos_ == 4, "the outer is resumed only where it is suspended"); opos_ = 2; oh = nullptr; } };
struct IL { IL() { live_++; } ~IL() { sym_assert(at_ == n_ + 1, "the inner's locals are destroyed only after it ended"); live_--; } };
struct OL { OL() { olive_++; } ~OL() { sym_assert(oat_ == on_ + 2, "the outer's locals are destroyed only after it ended"); olive_--; } };
static C inner() { IL l; pos_ = 2; for (int i = 0; i < n_; i++) { sym_assert(at_ == i, "the steps run in order"); at_ = i + 1; co_await IStep{}; } promise_status s = co_yield C::yield_status(); iseen = (int)s; at_ = n_ + 1; pos_ = 3; co_return ret_; }
static C outer(C& in) { OL l; opos_ = 1; oat_ = 0; int r = co_await in; sym_assert(opos_ == 1, "the outer is resumed once"); got_ = r; oat_ = 1; opos_ = 2; for (int i = 0; i < on_; i++) { co_await OStep{}; oat_ = i + 2; } promise_status s = co_yield C::yield_status(); oseen = (int)s; oat_ = on_ + 2; opos_ = 3; co_return 1; }
ENTRY(k02_steps) {
  n_ = (int)sym_pick(4 + TIER, "inner steps"); on_ = (int)sym_pick(2, "outer steps"); ret_ = (int)sym_bits(16, "ret"); at_ = oat_ = live_ = olive_ = pos_ = opos_ = 0; ist = ost = 2; got_ = -1000; iseen = oseen = -1; ih = oh = nullptr; int want = 0; bool have = false; uint64_t live0 = sym_live();
  {
    C* in = new C(inner()); C* out = new C(outer(*in));
    auto settle = [&]() { if (pos_ == 3) { if (ist < 3) ist = 3; if (!have) { have = true; want = ret_; sym_reach("value"); } } if (opos_ == 3 && ost < 3) ost = 3; };
    settle();
    int len = (int)sym_pick(5 + TIER, "len");
    for (int k = 0; k < len; k++) {
      switch (sym_pick(4, "op")) {
        case 0: { if (pos_ != 1) { sym_assume(false); return; } sym_reach("stepped"); int at = at_; ih.resume(); sym_assert(at_ == at + 1, "one resumption, one step"); break; }
        case 1: { if (opos_ != 4) { sym_assume(false); return; } int at = oat_; oh.resume(); sym_assert(oat_ > at, "the outer goes on"); break; }
        case 2: { bool f = sym_pick(2, "force"); int st = 4 + (int)sym_pick(TIER ? 3 : 2, "status"); bool ok = ist < 3; int at = at_; if (ok) ist = st; sym_assert(in->kill((promise_status)st, f) == ok, "an unfinished callable is ended once");
          if (ok && f) { sym_reach("forced"); sym_assert(at_ == at + 1, "a forced end resumes the body"); } else { sym_assert(at_ == at, "without force a body suspended by itself is not resumed"); if (ok) sym_reach("left alone"); } break; }
        case 3: { bool f = sym_pick(2, "force"); int st = 4 + (int)sym_pick(TIER ? 3 : 2, "status"); bool ok = ost < 3; int at = oat_, ap = at_; bool waiting = opos_ == 1; if (ok) ost = st;
          if (ok && waiting) { sym_reach("outer first"); if (ist < 3) ist = st; have = true; want = -ist; sym_reach("transformed"); }
          sym_assert(out->kill((promise_status)st, f) == ok, "an unfinished callable is ended once"); sym_assert(at_ == ap, "an inner suspended by itself does not move when its awaiter ends");
          if (ok && (waiting || f)) sym_assert(oat_ > at, "ending a waiting callable resumes it"); else sym_assert(oat_ == at, "a callable suspended by itself is not resumed"); break; }
      }
      settle();
      sym_assert((in->is_ready() == (pos_ == 3)) & (out->is_ready() == (opos_ == 3)), "ready exactly when returned"); sym_assert(((int)in->get_status() == ist) & ((int)out->get_status() == ost), "status");
      sym_assert((opos_ != 1) == have, "the awaiter goes on exactly when there is a result"); if (have) sym_assert(got_ == want, "the awaiter gets the value, or the transformed status");
      sym_assert((live_ == (pos_ == 1)) & (olive_ == (opos_ != 3)), "locals live as long as the body");
    }
    if (opos_ != 3) { sym_reach("cut short"); if (ost < 3) ost = 5; if (opos_ == 1) { if (ist < 3) ist = ost; have = true; want = -ist; } } int ap = at_; delete out; sym_assert((opos_ == 3) & (oat_ == on_ + 2) & (olive_ == 0) & (got_ == want) & (oseen == ost || ost == 3), "a dropped callable is brought to its end, every step of it"); sym_assert(at_ == ap, "dropping the awaiter does not move an inner suspended by itself");
    if (pos_ != 3) { sym_reach("finished by drop"); if (ist < 3) ist = 5; } delete in; sym_assert((pos_ == 3) & (at_ == n_ + 1) & (live_ == 0) & (iseen == ist || ist == 3), "a dropped callable is brought to its end, every step of it");
  }
  ih = oh = nullptr; sym_assert(sym_live() == live0, "nothing is left"); sym_reach("end");
}
