#include <memory>
#include <list>
#include <cstring>
#include <algorithm>
#include "sym.h"
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/stack_traits.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
using namespace copp;
#define skip() do { sym_assume(false); return; } while (0)
// the underlying allocator: every stack it hands out is a distinct block; it records who has what
struct Origin {
  enum { N = 12 };
  static char* blk[N]; static size_t sz[N]; static bool out[N]; static int n, returned; static long extra; static bool fail;
  static void reset() { n = 0; returned = 0; extra = 0; fail = false; }
  void allocate(stack_context& c, size_t s) LIBCOPP_MACRO_NOEXCEPT { if (fail || n == N) { c.sp = nullptr; c.size = 0; return; }
    size_t z = (size_t)((long)s + extra); blk[n] = (char*)malloc(64); sz[n] = z; out[n] = true; c.sp = blk[n] + 64; c.size = z; n++; }
  static int find(const stack_context& c) { for (int i = 0; i < n; i++) if (blk[i] + 64 == (char*)c.sp && sz[i] == c.size) return i; return -1; }
  void deallocate(stack_context& c) LIBCOPP_MACRO_NOEXCEPT { int i = find(c); sym_assert(i >= 0, "a stack that never came from the allocator is returned to it"); sym_assert(out[i], "a stack is returned to the allocator twice"); out[i] = false; returned++; free(blk[i]); }
};
char* Origin::blk[N]; size_t Origin::sz[N]; bool Origin::out[N]; int Origin::n, Origin::returned; long Origin::extra; bool Origin::fail;
typedef stack_pool<Origin> Pool; typedef allocator::stack_allocator_pool<Pool> PA;
enum { OWN = 1, ACCT = 2 };
// mask: bit i enables operation i
static void history(unsigned steps, unsigned mask, unsigned claims) {
  Origin::reset(); uint64_t live0 = sym_live(); size_t pg = 4096; vx_page_size = 4096;
  { Pool::ptr_type pool = Pool::create(); PA pa(pool); stack_context u[3]; int own[3] = {-1, -1, -1};
    size_t s0 = pool->set_stack_size(4 * pg); sym_assert(s0 == 4 * pg && pool->get_stack_size() == s0, "stack size is set");
    Origin::extra = (mask & (1u << 12)) ? (sym_pick(2, "extra") ? -(long)pg : 0) : (mask & (1u << 11)) ? (sym_pick(2, "extra") ? (long)pg : 0) : 0;
    uint64_t maxnum = 0, maxsize = 0, minnum = 0, minsize = 0, once = 0; bool agc = pool->is_auto_gc();
    auto held = [&](int i) { for (int k = 0; k < 3; k++) if (own[k] == i) return true; return false; };
    auto agree = [&]() { size_t un = 0, us = 0, fn = 0, fs = 0;
      for (int i = 0; i < Origin::n; i++) { if (held(i)) { un++; us += Origin::sz[i]; if (claims & OWN) sym_assert(Origin::out[i], "a stack in use was returned to the allocator"); } else if (Origin::out[i]) { fn++; fs += Origin::sz[i]; } }
      if (claims & ACCT) { auto& l = pool->get_limit(); sym_assert(l.used_stack_number == un, "number of stacks in use"); sym_assert(l.used_stack_size == us, "bytes in use"); sym_assert(l.free_stack_number == fn, "number of cached stacks"); sym_assert(l.free_stack_size == fs, "cached bytes"); } };
    agree();
    for (unsigned s = 0; s < steps; s++) {
      unsigned op = sym_pick(11, "op"); if (op == 10) break; if (!((mask >> op) & 1)) skip(); if (s == 0 && op != 0 && op < 4) skip();
      size_t un = pool->get_limit().used_stack_number, us = pool->get_limit().used_stack_size; int before = Origin::returned; size_t fn = 0; for (int i = 0; i < Origin::n; i++) if (Origin::out[i] && !held(i)) fn++;
      size_t tot = un + fn, tots = 0, fs = 0; for (int i = 0; i < Origin::n; i++) if (Origin::out[i]) { tots += Origin::sz[i]; if (!held(i)) fs += Origin::sz[i]; }
      switch (op) {
        case 0: { unsigned x = 0; while (x < 3 && own[x] >= 0) x++; if (x == 3) skip(); Origin::fail = (mask & (1u << 13)) ? sym_bool("origin_fails") : false; int n0 = Origin::n; u[x].sp = (void*)8; u[x].size = 1; pa.allocate(u[x], 12345);
          bool lim = (maxnum != 0 && un >= maxnum) || (maxsize != 0 && us + pool->get_stack_size() > maxsize);
          if (!u[x].sp) { if (claims & ACCT) { sym_assert(lim || Origin::fail, "an allocation within the limits is refused"); } sym_reach("refused"); u[x].reset(); }
          else { if (claims & ACCT) sym_assert(!lim, "an allocation beyond the configured maximum succeeds"); int i = Origin::find(u[x]); sym_assert(i >= 0 && Origin::out[i], "the stack handed out is not a live stack of the allocator"); sym_assert(!held(i), "a stack is handed to two owners"); own[x] = i; if (i < n0) sym_reach("reused"); if (Origin::extra >= 0 && (claims & ACCT)) sym_assert(u[x].size >= pool->get_stack_size(), "stack smaller than configured"); }
          break; }
        case 1: { unsigned x = sym_pick(3, "slot"); if (own[x] < 0) skip(); own[x] = -1; un--; us -= u[x].size; pa.deallocate(u[x]); u[x].reset(); break; }
        case 2: { size_t r = pool->gc(); int d = Origin::returned - before; if (claims & ACCT) { sym_assert((int)r == d, "gc reports how many stacks it returned"); if (once) sym_assert(r <= once, "gc exceeds its configured number");
            if (us >= fs && un >= fn) sym_assert(r == 0, "gc works although most stacks are in use"); 
            if ((minnum || minsize) && (!minnum || tot <= minnum) && (!minsize || tots <= minsize)) sym_assert(r == 0, "gc works at or below the configured minimums");
            size_t left = fn - r; if (r && !once) sym_assert(left == fn / 2, "gc leaves half of the cache"); sym_assert(left >= fn / 2, "gc returns more than half of the cache"); } break; }
        case 3: { pool->clear(); if (claims & OWN) for (int i = 0; i < Origin::n; i++) sym_assert(Origin::out[i] == held(i), "clear returns every cached stack"); break; }
        case 4: { size_t z = pg * (3 + sym_pick(3, "size")); size_t g = pool->set_stack_size(z); sym_assert(g == z && pool->get_stack_size() == z, "stack size is set"); break; }
        case 5: maxnum = sym_range(0, 3, "maxnum"); pool->set_max_stack_number((size_t)maxnum); sym_assert(pool->get_max_stack_number() == maxnum, "getter"); break;
        case 6: maxsize = sym_bits(64, "maxsize"); pool->set_max_stack_size((size_t)maxsize); sym_assert(pool->get_max_stack_size() == maxsize, "getter"); break;
        case 7: minnum = sym_range(0, 4, "minnum"); minsize = sym_range(0, 5 * 4096 * 4, "minsize"); pool->set_min_stack_number((size_t)minnum); pool->set_min_stack_size((size_t)minsize); sym_assert(pool->get_min_stack_number() == minnum && pool->get_min_stack_size() == minsize, "getter"); break;
        case 8: once = sym_range(0, 2, "once"); pool->set_gc_once_number((size_t)once); break;
        case 9: agc = !agc; pool->set_auto_gc(agc); sym_assert(pool->is_auto_gc() == agc, "getter"); break;
      }
      agree();
    }
    for (int x = 0; x < 3; x++) if (own[x] >= 0) { own[x] = -1; pa.deallocate(u[x]); } agree();
  }
  for (int i = 0; i < Origin::n; i++) sym_assert(!Origin::out[i], "a stack is never returned to the allocator"); sym_assert(Origin::returned == Origin::n && sym_live() == live0, "nothing leaks"); sym_reach("end");
}
