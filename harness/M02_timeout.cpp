/*SPEC
{"libs": ["copp","cotask"],
 "entries": {
  "m02_wide": {"reach": ["end", "timed out", "not yet", "first tick", "stale tick", "never", "moved"], "what": "one task with an arbitrary timeout, possibly changed, against two or three ticks at 64-bit times", "time_thorough": 800},
  "m02_hist": {"reach": ["end", "not yet", "first tick", "stale tick", "never", "moved"], "what": "deadlines of every timeout value against ticks at every time, in every order of operations", "time_thorough": 800},
  "m02_order": {"reach": ["end", "timed out", "not yet", "first tick", "stale tick", "never"], "what": "two tasks with arbitrary timeouts, one possibly changed, against two or three ticks", "time_thorough": 800},
  "m02_many": {"reach": ["end", "timed out", "not yet", "first tick", "moved"], "what": "four tasks with any timeouts of a few seconds against two ticks, one timeout changed or one task removed in between", "time_thorough": 800}},
 "bounds": "2 tasks (m02_many: 4, timeouts of 1 to 4 and ticks of 1 to 8 seconds); 3 operations among add, set_timeout, remove and tick (thorough: 5); add, add, 2 ticks (thorough: a changed timeout and 3 ticks) before or after a first tick; one task: all seconds up to 2^61, two tasks: seconds up to 255; all nanoseconds 0..999999999; timeouts also withdrawn with values that are zero or negative", "assumptions": ["nanoseconds within 0..999999999 as documented", "times and timeouts do not overflow the clock type"]}
SPEC*/
#include <memory>
#include <list>
#include <set>
#include <vector>
#include <unordered_map>
#include <new>
#include "sym.h"
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>
using namespace copp; using namespace cotask;
#define skip() do { sym_assume(false); return; } while (0)
#ifdef LSYM
static const size_t STK = 8192;
#else
static const size_t STK = 256 * 1024;
#endif
struct macro_t { typedef allocator::stack_allocator_malloc stack_allocator_type; typedef coroutine_context_container<stack_allocator_type> coroutine_type; typedef int value_type; using stack_allocator_t = stack_allocator_type; using coroutine_t = coroutine_type; };
typedef task<macro_t> T; typedef task_manager<T> Mgr;
struct tm2 { int64_t s, n; };
static bool lt(tm2 a, tm2 b) { return (a.s < b.s) | ((a.s == b.s) & (a.n < b.n)); }
static tm2 plus(tm2 a, tm2 b) { tm2 r; bool c = a.n + b.n >= 1000000000; r.s = a.s + b.s + c; r.n = a.n + b.n - (c ? 1000000000 : 0); return r; }
static bool wide = false, narrow = false;
static tm2 anytime(const char* a, const char* b) { tm2 r; if (narrow) { r.s = (int64_t)sym_bits(a[0] == 't' && a[1] == 'i' && a[2] == 'c' ? 3 : 2, a) + 1; r.n = 0; return r; } r.s = (int64_t)(wide ? sym_range(0, 1ull << 61, a) : sym_bits(8, a)); r.n = (int64_t)sym_range(0, 999999999, b); return r; }
// also "no timeout" in all its forms: neither part is positive
static tm2 timeout() { tm2 r = anytime("timeout sec", "timeout nsec"); if (sym_bool("none")) { r.s = -r.s; r.n = -r.n; } return r; }
struct Sim {
  T::ptr_type p[4]; bool in[4] = {}, timed[4] = {}, over[4] = {}; tm2 dl[4] = {}; bool first = true; tm2 last = {0, 0}; Mgr m;
  void set(int k, tm2 to) { timed[k] = (bool)sym_concrete((to.s > 0) | (to.n > 0)); if (timed[k]) dl[k] = plus(last, to); else sym_reach("never"); }
  void add(int k) { tm2 to = wide ? timeout() : anytime("timeout sec", "timeout nsec"); sym_assert(m.add_task(p[k], to.s, (int)to.n) == 0, "added"); in[k] = true; set(k, to); }
  void change(int k) { tm2 to = timeout(); sym_assert(m.set_timeout(p[k]->get_id(), to.s, (int)to.n) == 0, "timeouts of managed tasks can be changed"); set(k, to); sym_reach("moved"); }
  void tick(int n) { tm2 now = anytime("tick sec", "tick nsec"); sym_assert(m.tick(now.s, (int)now.n) == 0, "tick succeeds");
        if (!sym_concrete(lt(last, now))) { sym_reach("stale tick"); return; }
        if (first) { first = false; for (int k = 0; k < n; k++) if (in[k] && timed[k]) dl[k] = plus(now, dl[k]); sym_reach("first tick"); }
        else for (int k = 0; k < n; k++) if (in[k] && timed[k]) { bool late = (bool)sym_concrete(lt(dl[k], now)); sym_assert((p[k]->get_status() == EN_TS_TIMEOUT) == late, late ? "a task past its deadline is ended by the tick" : "no task is ended before its deadline"); if (late) { over[k] = true; in[k] = timed[k] = false; sym_reach("timed out"); } else sym_reach("not yet"); }
        last = now; }
  void step(int n) {
    switch (sym_pick(4, "op")) {
      case 0: { int k = (int)sym_pick((unsigned)n, "task"); if (in[k] || over[k] || (k > 0 && !in[k - 1] && !over[k - 1])) skip(); add(k); break; }
      case 1: { int k = (int)sym_pick((unsigned)n, "task"); if (!in[k]) { sym_assert(m.set_timeout(p[k]->get_id(), 1, 0) == COPP_EC_NOT_FOUND, "timeouts of unknown tasks cannot be changed"); skip(); } change(k); break; }
      case 2: { int k = (int)sym_pick((unsigned)n, "task"); if (!in[k]) skip(); sym_assert(m.remove_task(p[k]->get_id()) == 0, "removed"); in[k] = timed[k] = false; break; }
      case 3: { tick(n); break; }
    }
    check(n);
  }
  void check(int n) {
    size_t c = 0, t = 0; for (int k = 0; k < n; k++) { c += in[k]; t += timed[k]; sym_assert(p[k]->is_timeout() == over[k] && p[k]->is_exiting() == over[k], "only tasks past their deadline are ended"); sym_assert((bool)m.find_task(p[k]->get_id()) == in[k], "a timed out task is forgotten, others are not"); }
    sym_assert(m.get_task_size() == c && m.get_tick_checkpoint_size() == t, "sizes are exact"); detail::tickspec_t lt2 = m.get_last_tick_time(); sym_assert((lt2.tv_sec == last.s) & (lt2.tv_nsec == last.n), "the last tick time is exact");
  }
};
static Sim s;
static void setup(int n) { new (&s) Sim(); for (int i = 0; i < n; i++) s.p[i] = T::create(+[](void*) { return 0; }, STK, 0); }
ENTRY(m02_wide) { wide = true; setup(1); if (sym_bool("ticked")) s.tick(1); s.add(0); if (sym_bool("change")) s.change(0); for (int i = 0; i < 2 + TIER; i++) s.tick(1); s.check(1); sym_reach("end"); }
ENTRY(m02_hist) { int n = 2; setup(n); for (int i = 0; i < 3 + 2 * TIER; i++) s.step(n); sym_reach("end"); }
// two tasks, then ticks; before or after the first tick, with one timeout changed or not
ENTRY(m02_order) { int n = 2; setup(n); if (sym_bool("ticked")) s.tick(n); s.add(0); s.add(1); if (TIER && sym_bool("change")) s.change((int)sym_pick(2, "task")); for (int i = 0; i < 2 + TIER; i++) s.tick(n); s.check(n); sym_reach("end"); }
// four tasks: the set of deadlines is a tree with several levels
ENTRY(m02_many) { int n = 4; narrow = true; setup(n); s.tick(n); for (int k = 0; k < n; k++) s.add(k); switch (sym_pick(3, "op")) { case 1: s.change(TIER ? (int)sym_pick(4, "task") : 1); break; case 2: { int k = TIER ? (int)sym_pick(4, "task") : 2; sym_assert(s.m.remove_task(s.p[k]->get_id()) == 0, "removed"); s.in[k] = s.timed[k] = false; } } for (int i = 0; i < 1 + TIER; i++) s.tick(n); s.check(n); sym_reach("end"); }
