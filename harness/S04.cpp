/*SPEC
{"libs": ["copp"],
 "entries": {
  "s04_ops": {"conc": true, "reach": ["end", "threads", "reused", "gc"], "what": "two threads, each with two operations out of allocate, release, collect and clear on one pool, started with 0 to 2 cached stacks, collecting automatically or not", "time": 240},
  "s04_cycle": {"conc": true, "reach": ["end", "threads", "reused"], "what": "two threads, each allocating, using and releasing a stack twice", "time": 200},
  "s04_limit": {"conc": true, "reach": ["end", "threads", "refused"], "what": "three threads allocating and releasing with a maximum of one or two stacks", "time": 200}},
 "bounds": "two threads of 2 operations with 3 preemptive switches (thorough: 3 operations, 4 switches) and 1 stale read; two threads of two fixed operations with 6 (thorough 8) switches; three threads of one allocation and release with 3 (thorough 4) preemptive switches",
 "assumptions": ["the pool is configured before it is shared; the limits are read when no operation is under way"]}
SPEC*/
#include "pool.inc"
static Pool* P; static stack_context cx[3][3]; static unsigned prog[3][3], plen; static unsigned gcs, refused, reused, pre; static int mine[3];
static void use(unsigned t, stack_context& c) { int* p = (int*)((char*)c.sp - 64); p[0] = (int)t; p[1]++; sym_assert(p[0] == (int)t, "two threads use one stack"); }
static unsigned g_[3], rf_[3], ru_[3];
static void body(unsigned t) {
  int n = 0;
  for (unsigned k = 0; k < plen; k++) switch (prog[t][k]) {
    case 0: { stack_context& c = cx[t][n]; P->allocate(c); if (!c.sp) { rf_[t] = 1; break; } n++; use(t, c); break; }
    case 1: if (n) { n--; use(t, cx[t][n]); P->deallocate(cx[t][n]); cx[t][n].reset(); } break;
    case 2: if (P->gc()) g_[t] = 1; break;
    case 3: P->clear(); break;
  }
  mine[t] = n;
}
static void run(unsigned n, unsigned preempt, unsigned stale) {
  sym_threads(n, body, preempt, stale, 0);
  size_t un = 0, us = 0, fn = 0, fs = 0; bool dup = false;
  for (unsigned t = 0; t < n; t++) for (int k = 0; k < mine[t]; k++) { un++; us += cx[t][k].size; int i = Origin::find(cx[t][k]); sym_assert(i >= 0 && Origin::out[i], "a stack in use was returned to the allocator"); for (unsigned u = 0; u < n; u++) for (int m = 0; m < mine[u]; m++) dup = dup || ((u != t || m != k) && cx[u][m].sp == cx[t][k].sp); }
  for (int i = 0; i < Origin::n; i++) if (Origin::out[i]) { fn++; fs += Origin::sz[i]; } fn -= un; fs -= us;
  auto& l = P->get_limit(); sym_assert(!dup, "a stack is handed to two owners"); sym_assert((l.used_stack_number == un) & (l.used_stack_size == us), "stacks in use are counted exactly"); sym_assert((l.free_stack_number == fn) & (l.free_stack_size == fs), "cached stacks are counted exactly");
  for (unsigned t = 0; t < n; t++) { if (g_[t]) sym_reach("gc"); if (rf_[t]) sym_reach("refused"); for (int k = 0; k < mine[t]; k++) P->deallocate(cx[t][k]); }
}
static void setup(unsigned cached, bool agc) {
  Origin::reset(); for (auto& b : Origin::blk) b = nullptr; for (unsigned t = 0; t < 3; t++) { mine[t] = 0; g_[t] = rf_[t] = ru_[t] = 0; }
  static Pool::ptr_type pp; pp = Pool::create(); P = pp.get(); P->set_stack_size(16384); P->set_auto_gc(false); stack_context c[2]; for (unsigned i = 0; i < cached; i++) P->allocate(c[i]); for (unsigned i = 0; i < cached; i++) P->deallocate(c[i]); P->set_auto_gc(agc); pre = (unsigned)Origin::n;
}
static void done(unsigned n) { if (Origin::n < (int)n) sym_reach("reused"); P->set_auto_gc(false); P->clear(); for (int i = 0; i < Origin::n; i++) sym_assert(!Origin::out[i], "a stack is never returned to the allocator"); sym_reach("end"); }
ENTRY(s04_ops) {
  plen = 2 + TIER; unsigned cached = sym_pick(3, "cached"); setup(cached, sym_pick(2, "auto_gc")); unsigned allocs = 0;
  for (unsigned t = 0; t < 2; t++) for (unsigned k = 0; k < plen; k++) { prog[t][k] = sym_pick(4, "op"); allocs += prog[t][k] == 0; }
  for (unsigned t = 0; t < 2; t++) { bool any = false; for (unsigned k = 0; k < plen; k++) { if (prog[t][k] == 1 && !any) skip(); any = any || prog[t][k] == 0; } }
  run(2, 3 + TIER, 1); done(cached + allocs);
}
ENTRY(s04_cycle) { plen = 2; setup(sym_pick(2, "cached"), sym_pick(2, "auto_gc")); for (unsigned t = 0; t < 2; t++) { prog[t][0] = 0; prog[t][1] = 1; } run(2, 6 + 2 * TIER, 2); done(2); }
ENTRY(s04_limit) { plen = 2; setup(0, sym_pick(2, "auto_gc")); P->set_max_stack_number(1 + sym_pick(2, "max")); for (unsigned t = 0; t < 3; t++) { prog[t][0] = 0; prog[t][1] = t == 2 ? 4 : 1; } run(3, 3 + TIER, 1); done(3); }
