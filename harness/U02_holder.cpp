/*SPEC
{"libs": [],
 "entries": {
  "u02_plain": {"reach": ["end"], "what": "lock_holder over recording locks: every history of construct/move-construct/move-assign/reset/destroy over 3 slots and 2 locks"},
  "u02_try": {"reach": ["end", "unavailable"], "what": "same with try-lock acquisition that may fail"},
  "u02_rw": {"reach": ["end"], "what": "read_lock_holder / write_lock_holder"},
  "u02_spin": {"reach": ["end"], "what": "holder and try holder over the real spin lock"}},
 "bounds": "3 holder slots, 2 locks, histories of 4 (thorough: 6) operations, every outcome of a failing acquisition",
 "assumptions": []}
SPEC*/
#include "sym.h"
#include <new>
#include <utility>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>
using namespace copp::util::lock;
#define skip() do { sym_assume(false); return; } while (0)
struct Lk { int acq = 0, rel = 0, held = 0; bool canfail = false;
  void lock() { acq++; held++; } void unlock() { rel++; held--; sym_assert(held >= 0, "lock released more often than acquired"); }
  bool try_lock() { if (canfail && sym_bool("refuse")) return false; acq++; held++; return true; }
  bool try_unlock() { if (held <= 0) return false; unlock(); return true; }
  void read_lock() { lock(); } void read_unlock() { unlock(); } void write_lock() { acq += 100; held += 100; } void write_unlock() { rel += 100; held -= 100; sym_assert(held >= 0, "write lock released twice"); } };
template <class H> static void hist(bool fail) {
  Lk lk[2]; lk[0].canfail = lk[1].canfail = fail;
  alignas(H) unsigned char mem[3][sizeof(H)]; bool made[3] = {}; int owns[3] = {-1, -1, -1};
  auto at = [&](int i) -> H& { return *reinterpret_cast<H*>(mem[i]); };
  auto agree = [&]() { int n[2] = {0, 0}; for (int i = 0; i < 3; i++) if (made[i]) { sym_assert(at(i).is_available() == (owns[i] >= 0), "availability is reported truthfully"); if (!at(i).is_available()) sym_reach("unavailable"); if (owns[i] >= 0) n[owns[i]]++; }
    for (int k = 0; k < 2; k++) sym_assert(lk[k].held == n[k], "a lock is held exactly by its live holders"); };
  for (int s = 0; s < 4 + 2 * TIER; s++) {
    unsigned op = sym_pick(6, "op"), x = sym_pick(3, "slot");
    if (op == 0) { if (made[x] || (x && !made[x - 1])) skip(); unsigned l = sym_pick(2, "lock"); int a = lk[l].acq; new (mem[x]) H(lk[l]); made[x] = true; owns[x] = lk[l].acq != a ? (int)l : -1; }
    else if (op == 1) { unsigned y = sym_pick(3, "from"); if (made[x] || !made[y] || x == y || (x && !made[x - 1] && y != x - 1)) skip(); new (mem[x]) H(std::move(at(y))); made[x] = true; owns[x] = owns[y]; owns[y] = -1; }
    else if (op == 2) { unsigned y = sym_pick(3, "from"); if (!made[x] || !made[y]) skip(); at(x) = std::move(at(y)); if (x != y) { owns[x] = owns[y]; owns[y] = -1; } }
    else if (op == 3) { if (!made[x]) skip(); at(x).reset(); owns[x] = -1; }
    else if (op == 4) { if (!made[x]) skip(); at(x).~H(); made[x] = false; owns[x] = -1; }
    else break;
    agree();
  }
  for (int i = 0; i < 3; i++) if (made[i]) { at(i).~H(); made[i] = false; owns[i] = -1; }
  sym_assert(lk[0].acq == lk[0].rel && lk[1].acq == lk[1].rel, "each acquisition is released exactly once"); sym_reach("end");
}
ENTRY(u02_plain) { hist<lock_holder<Lk>>(false); }
ENTRY(u02_try) { hist<lock_holder<Lk, detail::default_try_lock_action<Lk>, detail::default_unlock_action<Lk>>>(true); }
ENTRY(u02_rw) {
  Lk l; int k = (int)sym_pick(4, "n");
  { read_lock_holder<Lk> r(l); sym_assert(l.held == 1 && r.is_available(), "read lock taken"); if (k & 1) { r.reset(); sym_assert(l.held == 0 && !r.is_available(), "reset releases"); } } sym_assert(l.held == 0 && l.rel == 1, "read lock released once");
  { write_lock_holder<Lk> w(l); sym_assert(l.held == 100 && w.is_available(), "write lock taken"); if (k & 2) { w.reset(); sym_assert(l.held == 0 && !w.is_available(), "reset releases"); } } sym_assert(l.held == 0 && l.rel == 101, "write lock released once");
  sym_reach("end");
}
ENTRY(u02_spin) {
  spin_lock l; typedef lock_holder<spin_lock> H; typedef lock_holder<spin_lock, detail::default_try_lock_action<spin_lock>, detail::default_try_unlock_action<spin_lock>> T;
  sym_assert(!l.is_locked() && !l.try_unlock() && !l.is_locked(), "a fresh lock is free");
  bool first = sym_bool("first"), early = sym_bool("early"), mv = sym_bool("move");
  { if (first) l.lock(); T t(l); sym_assert(t.is_available() == !first && l.is_locked(), "try holder acquires only a free lock");
    { T u(l); sym_assert(!u.is_available(), "second try holder is refused"); } sym_assert(l.is_locked(), "a refused holder does not release");
    if (early) { t.reset(); sym_assert(l.is_locked() == first && !t.is_available(), "reset releases what was acquired"); }
    else if (mv) { T u(std::move(t)); sym_assert(u.is_available() == !first && !t.is_available(), "move transfers"); } }
  sym_assert(l.is_locked() == first, "released at end of scope iff acquired"); if (first) { sym_assert(l.try_unlock(), "held lock can be released"); }
  { H h(l); sym_assert(l.is_locked() && h.is_available(), "locked"); } sym_assert(!l.is_locked(), "unlocked"); sym_reach("end");
}
