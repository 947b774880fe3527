/*SPEC
{"libs": ["copp"],
 "entries": {
  "s01_posix": {"reach": ["ok", "refused", "freed"], "what": "mmap-backed allocator, every 64-bit request, page size 4K/16K/64K, limited and unlimited stack rlimit"},
  "s01_malloc": {"reach": ["ok", "refused", "freed"], "what": "malloc-backed allocator, same inputs"},
  "s01_memory": {"reach": ["ok", "busy", "again"], "what": "caller-supplied buffer of 4096..65536 bytes (multiples of 16), every 64-bit request"},
  "s01_traits": {"reach": ["end"], "what": "page rounding and default/min/max size relations"}},
 "bounds": "request: all 2^64 values; page size in {4096, 16384, 65536}; RLIMIT_STACK unlimited or any value in [2048, 2^40]; buffer size any multiple of 16 in [4096, 65536]; one allocate/deallocate pair (plus a second allocate on the buffer allocator)",
 "assumptions": ["mmap and malloc are stand-ins that fail above 2^47 bytes and otherwise return a fresh block of exactly the requested size", "valgrind client requests are compiled out"]}
SPEC*/
#include "sym.h"
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/stack/stack_context.h>
#include <libcopp/stack/stack_traits.h>
using namespace copp;
static void env() {
  static const long pages[] = {4096, 16384, 65536};
  vx_page_size = pages[sym_pick(3, "page_sel")];
  if (sym_bool("limited")) vx_stack_rlimit = (long)sym_range(2048, 1ull << 40, "rlimit"); else vx_stack_rlimit = -1;
}
static uint64_t want(uint64_t req) { uint64_t w = req; if (w < 2048) w = 2048; if (vx_stack_rlimit >= 0 && w > (uint64_t)vx_stack_rlimit) w = (uint64_t)vx_stack_rlimit; return w; }
template <class A> static void run(bool guard) {
  env(); uint64_t req = sym_bits(64, "request"); uint64_t live0 = sym_live();
  A al; stack_context c; c.sp = (void*)1;
  al.allocate(c, (size_t)req);
  if (!c.sp) { sym_reach("refused"); sym_assert(sym_live() == live0, "a refused request keeps no memory"); sym_assert(want(req) > (1ull << 46), "a satisfiable request is refused"); return; }
  sym_reach("ok");
  uint64_t w = want(req), pg = (uint64_t)vx_page_size;
  sym_assert(c.size >= w, "stack is smaller than requested");
  sym_assert(sym_isvalid((char*)c.sp - w, w), "the requested number of bytes below sp is usable");
  if (guard) { sym_assert(c.size >= pg, "size covers the guard page"); sym_assert(!sym_isvalid((char*)c.sp - c.size, 1), "the lowest page is a guard page"); }
  else sym_assert(sym_isvalid((char*)c.sp - c.size, c.size), "[sp-size, sp) is one usable block");
  sym_assert(((uintptr_t)c.sp & 15) == 0, "stack top is 16-byte aligned");
  al.deallocate(c); sym_assert(sym_live() == live0, "deallocate returns the memory"); sym_reach("freed");
}
ENTRY(s01_posix) { run<allocator::stack_allocator_posix>(true); }
ENTRY(s01_malloc) { run<allocator::stack_allocator_malloc>(false); }
ENTRY(s01_memory) {
  env(); uint64_t n = sym_range(256, 4096, "bufsize16") * 16, req = sym_bits(64, "request");
  char* buf = (char*)malloc(n);
  allocator::stack_allocator_memory al(buf, n); stack_context c, d;
  al.allocate(c, (size_t)req);
  if (!c.sp) return;
  sym_reach("ok");
  sym_assert((char*)c.sp - c.size >= buf && c.size <= n && (char*)c.sp <= buf + n, "the stack lies inside the caller's buffer");
  uint64_t w = want(req); sym_assert(c.size >= (w < n ? w : n), "stack smaller than min(request, buffer)");
  d.sp = (void*)1; al.allocate(d, 4096); sym_assert(d.sp == nullptr, "the buffer is handed out twice"); sym_reach("busy");
  al.deallocate(c); al.allocate(d, (size_t)req); sym_assert(d.sp != nullptr && (char*)d.sp <= buf + n, "the buffer is available again after deallocate"); sym_reach("again");
  free(buf);
}
ENTRY(s01_traits) {
  env(); uint64_t s = sym_bits(64, "size"); sym_assume(s < (1ull << 63)); uint64_t r = stack_traits::round_to_page_size((size_t)s), pg = (uint64_t)vx_page_size;
  sym_assert(r >= s && r - s < pg && (r & (pg - 1)) == 0, "rounding gives the next page multiple");
  sym_assert(stack_traits::page_size() == pg, "page size");
  sym_assert(stack_traits::default_size() <= stack_traits::maximum_size(), "default <= maximum");
  sym_assert(vx_stack_rlimit < 0 ? stack_traits::is_unbounded() : !stack_traits::is_unbounded() && stack_traits::maximum_size() == (size_t)vx_stack_rlimit, "limit honoured");
  sym_reach("end");
}
