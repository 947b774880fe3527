/*SPEC
{"libs": [],
 "entries": {
  "u01_two": {"conc": true, "reach": ["end", "threads", "both"], "what": "two threads, each taking and releasing the lock twice with lock or try_lock, unlock or try_unlock; the protected data is plain memory", "time": 200},
  "u01_three": {"conc": true, "reach": ["end", "threads"], "what": "three threads taking the lock", "time": 200},
  "u01_free": {"conc": true, "reach": ["end", "threads"], "what": "releases of a lock that is free or held by the other thread"},
  "u01_seq": {"reach": ["end"], "what": "every sequence of lock, try_lock, unlock and try_unlock of one thread"}},
 "bounds": "two threads with 2 critical sections each (thorough: 4 preemptive switches, else 3), three threads with one each (2 preemptive switches, thorough 3); up to 2 stale reads; histories of 4 (thorough 6) operations of one thread",
 "assumptions": ["a thread calls lock() only while it does not hold the lock"]}
SPEC*/
#include "sym.h"
#include <libcopp/utils/spin_lock.h>
#include <libcopp/utils/atomic_int_type.h>
using copp::util::lock::spin_lock;
static spin_lock* L; static int holders, total, mine[3]; static unsigned how[3][2], rel_[3][2]; static int sawOther;
static void crit(unsigned t, unsigned h, unsigned r) {
  bool got = true;
  if (h == 0) L->lock(); else got = L->try_lock();
  if (!got) return;
  sym_assert(holders == 0, "a second thread holds the lock"); holders = 1;
  if (total != mine[t]) sawOther = 1;
  sym_assert(L->is_locked(), "a held lock reports that it is locked"); sym_assert(!L->try_lock(), "try_lock succeeds on a held lock");
  sym_assert(holders == 1, "another thread entered"); total++; mine[t]++; holders = 0;
  if (r == 0) L->unlock(); else sym_assert(L->try_unlock(), "releasing a held lock reports failure");
}
static void body2(unsigned t) { for (int i = 0; i < 2; i++) crit(t, how[t][i], rel_[t][i]); }
static void body1(unsigned t) { crit(t, how[t][0], rel_[t][0]); }
static void fin(unsigned n) { sym_assert(holders == 0 && !L->is_locked(), "free at the end"); int s = 0; for (unsigned i = 0; i < n; i++) s += mine[i]; sym_assert(s == total, "an update made under the lock was lost"); for (unsigned i = 0; i < n; i++) { bool all = true; for (int k = 0; k < (n == 3 ? 1 : 2); k++) all = all && how[i][k] == 0; if (all) sym_assert(mine[i] == (n == 3 ? 1 : 2), "lock() always ends up with the lock"); } sym_reach("end"); }
static void init() { static spin_lock l0; L = new (&l0) spin_lock(); holders = total = sawOther = 0; mine[0] = mine[1] = mine[2] = 0; sym_assert(!L->is_locked(), "a new lock is free"); }
ENTRY(u01_two) { init(); for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) { how[i][k] = sym_pick(2, "how"); rel_[i][k] = (unsigned)(how[i][k] ^ (unsigned)k) & 1; } sym_threads(2, body2, 4 + 4 * TIER, 3, 0); if (sawOther) sym_reach("both"); fin(2); }
ENTRY(u01_three) { init(); for (int i = 0; i < 3; i++) { how[i][0] = i == 2 ? sym_pick(2, "how") : 0; rel_[i][0] = (unsigned)i & 1; } sym_threads(3, body1, 3 + 3 * TIER, 2, 0); fin(3); }
static int relOk; static int inCrit;
static void bodyF(unsigned t) { if (t == 0) { L->lock(); inCrit = 1; sym_assert(inCrit == 1, "x"); L->unlock(); } else { bool b = L->try_lock(); if (b) { inCrit = 2; L->unlock(); } } }
ENTRY(u01_free) { init(); relOk = inCrit = 0; sym_assert(!L->try_unlock(), "releasing a free lock reports success"); sym_assert(!L->is_locked(), "releasing a free lock changed it"); sym_threads(2, bodyF, 3, 2, 0); sym_assert(!L->is_locked(), "free at the end"); sym_assert(inCrit == 1 || inCrit == 2, "x"); sym_reach("end"); }
ENTRY(u01_seq) {
  init(); bool held = false;
  for (int i = 0; i < 4 + 2 * TIER; i++) switch (sym_pick(5, "op")) {
    case 0: if (!held) { L->lock(); held = true; } break;
    case 1: { bool r = L->try_lock(); sym_assert(r == !held, "try_lock succeeds exactly on a free lock"); held = true; break; }
    case 2: L->unlock(); held = false; break;
    case 3: { bool r = L->try_unlock(); sym_assert(r == held, "try_unlock reports whether the lock was held"); held = false; break; }
    case 4: sym_assert(L->is_locked() == held, "is_locked"); break;
  }
  sym_assert(L->is_locked() == held, "is_locked"); sym_reach("end");
}
