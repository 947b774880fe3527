/*SPEC
{"libs": ["copp"],
 "entries": {
  "c04_sizes": {"jobs": 4, "reach": ["ok", "refused", "freed"], "what": "container creation for every stack, private and object size, with an allocator that returns exactly, more or less than asked for, or fails"},
  "c04_raw": {"reach": ["ok", "refused"], "what": "in-place creation at every offset inside a given stack, every private and object size"},
  "c04_run": {"reach": ["end"], "what": "the private data survives a run that uses the whole run stack"}},
 "bounds": "all three sizes: every 64-bit value; block returned by the allocator: any size up to 2^28 that is a multiple of 16; page-aligned stack top; c04_run: private sizes 0..16, extra sizes 0..32 (thorough: 0..64 each)",
 "assumptions": ["the allocator returns one block with a 16-byte aligned top (S01)", "a size near 2^64 that makes the sum of the sizes wrap counts as an impossible size"]}
SPEC*/
#include "sym.h"
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_allocator.h>
using namespace copp;
typedef unsigned __int128 big;
static size_t g_size; static int g_mode, g_out; static char* g_base;
struct Reg {
  void allocate(stack_context& c, size_t s) LIBCOPP_MACRO_NOEXCEPT { if (g_mode == 0 || s > (1ull << 28)) { c.sp = nullptr; return; } 
    size_t z = g_mode == 3 ? s : g_mode == 1 ? s + (size_t)sym_range(0, 0, "zero") : (size_t)sym_range(1, 1ull << 24, "blocksize") * 16; z = (z + 15) & ~(size_t)15; g_base = (char*)malloc(z); g_size = z; c.sp = g_base + z; c.size = z; g_out++; }
  void deallocate(stack_context& c) LIBCOPP_MACRO_NOEXCEPT { sym_assert(g_out == 1 && (char*)c.sp == g_base + g_size && c.size == g_size, "exactly the allocated stack is released"); g_out--; free(g_base); }
};
typedef coroutine_context_container<Reg> Co;
static bool inside(char* p, size_t n) { return p >= g_base && n <= g_size && (size_t)(p - g_base) <= g_size - n; }
static int fn(void*) { return 0; }
static void layout(coroutine_context* c, size_t objsize, size_t extra, size_t priv) {
  char *o = (char*)c, *pr = (char*)c->get_private_buffer(), *top = (char*)vx_ctx_top; size_t ps = c->get_private_buffer_size();
  sym_assert(ps >= priv, "private data area is at least as large as requested"); sym_assert(inside(pr, ps), "private data area lies inside the stack"); sym_assert(inside(o, objsize), "coroutine object lies inside the stack");
  sym_assert(pr >= o + objsize || pr + ps <= o, "coroutine object and private data are disjoint"); sym_assert(inside(top - vx_ctx_size, vx_ctx_size), "run stack lies inside the stack");
  sym_assert(top <= o && top <= pr, "run stack overlaps the object or its private data"); sym_assert((size_t)(o - top) >= extra || (size_t)(pr - (o + objsize)) >= extra, "no room for the requested extra object size"); sym_assert(((uintptr_t)o & 15) == 0 && ((uintptr_t)pr & 15) == 0, "alignment");
}
ENTRY(c04_sizes) {
  g_out = 0; g_mode = (int)sym_pick(3, "allocator"); size_t stk = (size_t)sym_bits(64, "stack"), priv = (size_t)sym_bits(64, "private"), extra = (size_t)sym_bits(64, "extra");
  uint64_t live0 = sym_live(); Reg al; vx_ctx_top = nullptr;
  { Co::ptr_type c = Co::create(fn, al, stk, priv, extra);
    if (!c) { sym_reach("refused"); sym_assert(g_out == 0 && sym_live() == live0, "a failed creation leaks its stack"); 
      if (g_mode == 1 && stk && stk <= (1ull << 28)) sym_assert((big)priv + extra + sizeof(Co) + 4096 > stk, "a possible creation is refused"); return; }
    sym_reach("ok"); sym_assert((big)priv + extra + sizeof(Co) <= g_size, "an impossible size is accepted"); layout(c.get(), sizeof(Co), extra, priv); }
  sym_assert(g_out == 0 && sym_live() == live0, "the stack is released with the coroutine"); sym_reach("freed");
}
ENTRY(c04_raw) {
  g_size = (size_t)sym_range(16, 1ull << 24, "size16") * 16; g_base = (char*)malloc(g_size); stack_context s; s.sp = g_base + g_size; s.size = g_size; size_t off = (size_t)sym_range(sizeof(coroutine_context) / 16 + 1, 1ull << 24, "off16") * 16; sym_assume(off <= g_size);
  size_t priv = (size_t)sym_bits(64, "private"), ext = (size_t)sym_bits(64, "object"); coroutine_context* p = new (g_base + g_size - off) coroutine_context(); vx_ctx_top = nullptr;
  int rc = coroutine_context::create(p, coroutine_context::callback_type(fn), s, ext, priv);
  if (rc < 0) { sym_reach("refused"); sym_assert(p->start() == COPP_EC_NOT_INITED, "a failed creation leaves nothing to start"); }
  else { char *o = (char*)p, *pr = (char*)p->get_private_buffer(), *top = (char*)vx_ctx_top; sym_assert(p->get_private_buffer_size() >= priv && inside(pr, priv) && pr >= o + sizeof(coroutine_context), "private data area lies behind the object"); sym_assert(inside(top - vx_ctx_size, vx_ctx_size), "run stack lies inside the stack"); sym_assert(top <= o && (size_t)(s.sp > (void*)top ? (char*)s.sp - top : 0) >= priv + ext, "room for object and private data above the run stack"); sym_reach("ok"); }
  p->~coroutine_context(); free(g_base);
}
static char* pv; static unsigned np;
ENTRY(c04_run) {
  g_out = 0; g_mode = 3; np = sym_pick(17 + 48 * TIER, "private"); unsigned ex = sym_pick(5 + 4 * TIER, "extra") * 8; Reg al; unsigned char v = (unsigned char)sym_bits(8, "v"); int runs = 0;
#ifdef LSYM
  size_t stk = 4096;
#else
  size_t stk = 65536;
#endif
  { Co::ptr_type c; auto f = [&](void* d) { runs++; sym_assert(d == pv && this_coroutine::get_coroutine()->get_private_buffer() == pv, "private data address"); for (unsigned i = 0; i < np; i++) sym_assert((unsigned char)pv[i] == (unsigned char)(v + i), "private data intact when running"); this_coroutine::yield(nullptr); for (unsigned i = 0; i < np; i++) pv[i]++; return 3; };
    c = Co::create(&f, al, stk, np, ex); sym_assert((bool)c, "created"); pv = (char*)c->get_private_buffer(); for (unsigned i = 0; i < np; i++) pv[i] = (char)(v + i);
    sym_assert(c->start(pv) == 0 && c->resume(pv) == 0 && c->is_finished() && c->get_ret_code() == 3 && runs == 1, "runs"); for (unsigned i = 0; i < np; i++) sym_assert((unsigned char)pv[i] == (unsigned char)(v + i + 1), "private data intact afterwards"); }
  sym_assert(g_out == 0, "released"); sym_reach("end");
}
