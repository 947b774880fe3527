/*SPEC
{"libs": ["copp"],
 "entries": {
  "s03_core": {"reach": ["end", "reused"], "what": "statistics after every allocate, release, collect, clear, stack size change"},
  "s03_max": {"reach": ["end", "refused", "reused"], "what": "maximum number (symbolic) and maximum bytes (any 64-bit value)"},
  "s03_gc": {"reach": ["end"], "what": "minimum number and bytes, per-run limit, manual and automatic collection"},
  "s03_many": {"reach": ["end", "collected", "several", "limited", "kept", "mixed", "auto"], "what": "up to six (thorough: seven) stacks, some of another size, released, then collections by hand and by further releases under any minimums and per-run limit"}},
 "bounds": "s03_many: up to 6 (thorough: 7) stacks; others: 3 users, histories of 5-6 (thorough: one more) operations; limits symbolic",
 "assumptions": ["the underlying allocator is a recording stand-in (the real ones are checked by S01)"]}
SPEC*/
#include "pool.inc"
ENTRY(s03_core) { history(5 + TIER, 0x1f | (1u << 11), ACCT); }
ENTRY(s03_max) { history(5 + TIER, 0x6b, ACCT); }
ENTRY(s03_gc) { history(5 + TIER, 0x387, ACCT); }

ENTRY(s03_many) {
  enum { M = 7 }; Origin::reset(); uint64_t live0 = sym_live(); size_t pg = 4096; vx_page_size = 4096;
  { Pool::ptr_type pool = Pool::create(); PA pa(pool); stack_context u[M]; bool has[M] = {}; size_t zs[M]; pool->set_stack_size(4 * pg); pool->set_auto_gc(false);
    int n = 3 + (int)sym_pick(4 + TIER, "stacks"), sw = (int)sym_pick(3, "size change"); bool mixed = false;
    for (int i = 0; i < n; i++) { if (sw && i == sw) { pool->set_stack_size(sym_pick(2, "smaller") ? 3 * pg : 6 * pg); mixed = true; } pa.allocate(u[i], 0); sym_assert(u[i].sp != nullptr, "allocated"); has[i] = true; zs[i] = u[i].size; }
    int keep = (int)sym_pick(3, "kept"); if (keep >= n) skip(); bool front = sym_pick(2, "which");  // the kept ones are the first or the last
    auto hold = [&](size_t& un, size_t& us, size_t& fn, size_t& fs) { un = us = fn = fs = 0; for (int i = 0; i < n; i++) if (has[i]) { un++; us += zs[i]; } for (int i = 0; i < Origin::n; i++) if (Origin::out[i]) { fn++; fs += Origin::sz[i]; } fn -= un; fs -= us; };
    auto agree = [&]() { size_t un, us, fn, fs; hold(un, us, fn, fs); auto& l = pool->get_limit(); sym_assert((l.used_stack_number == un) & (l.used_stack_size == us), "stacks in use"); sym_assert((l.free_stack_number == fn) & (l.free_stack_size == fs), "cached stacks"); };
    for (int i = 0; i < n; i++) if (front ? i >= keep : i < n - keep) { has[i] = false; pa.deallocate(u[i]); agree(); }
    if (mixed) sym_reach("mixed"); if (keep) sym_reach("kept");
    uint64_t minnum = sym_range(0, 7, "minnum"), minsize = sym_range(0, 45 * 4096, "minsize"), once = sym_range(0, 4, "once"); pool->set_min_stack_number((size_t)minnum); pool->set_min_stack_size((size_t)minsize); pool->set_gc_once_number((size_t)once);
    auto judge = [&](size_t r, size_t un, size_t us, size_t fn, size_t fs) {
      size_t un2, us2, fn2, fs2; hold(un2, us2, fn2, fs2); sym_assert(fn - fn2 == r, "as many stacks go as reported");
      bool idle = ((us >= fs) & (un >= fn)) | (((minnum != 0) | (minsize != 0)) & ((minnum == 0) | (un + fn <= minnum)) & ((minsize == 0) | (us + fs <= minsize)));
      if (idle) { sym_assert(r == 0, "a collection works although it must not"); return; }
      sym_reach("collected"); if (r > 1) sym_reach("several"); if (once) { sym_assert(r <= once, "gc exceeds its configured number"); if (r == once) { sym_reach("limited"); return; } }
      sym_assert((fn2 <= fn / 2) & (fs2 <= fs / 2), "a collection leaves more than half of the cache"); sym_assert(fn2 == fn / 2, "a collection returns more than half of the cache"); };
    for (int k = 0; k < 2; k++) { size_t un, us, fn, fs; hold(un, us, fn, fs); size_t r = pool->gc(); judge(r, un, us, fn, fs); agree(); }
    pool->set_auto_gc(true);
    for (int i = 0; i < n; i++) if (has[i]) { size_t un, us, fn, fs; has[i] = false; hold(un, us, fn, fs); bool direct = zs[i] != pool->get_stack_size(); /* a stack of an outdated size is not cached */ if (direct) { fn--; fs -= zs[i]; } int b = Origin::returned; pa.deallocate(u[i]); judge((size_t)(Origin::returned - b - (direct ? 1 : 0)), un, us, fn, fs); agree(); sym_reach("auto"); }
  }
  for (int i = 0; i < Origin::n; i++) sym_assert(!Origin::out[i], "a stack is never returned to the allocator"); sym_assert(sym_live() == live0, "nothing leaks"); sym_reach("end");
}
