/*SPEC
{"libs": ["copp"],
 "entries": {
  "u04_state": {"reach": ["end", "same second", "next second"], "what": "from every state of the generator (any time part not after the clock, any sequence number, so also with the second's budget almost or fully used): the following batches of identifiers"},
  "u04_clock": {"reach": ["end"], "what": "a fresh generator under every course of the clock"}},
 "bounds": "96 + 96 consecutive identifiers of one thread (three batches from the shared counter) from every counter state; clock readings between 2020-01-01 and 2106, any non-decreasing course of readings that stands still for at most 3 readings in a row while the generator waits", "assumptions": ["the clock never goes backwards"]}
SPEC*/
#include "sym.h"
#include <libcopp/utils/uint64_id_allocator.h>
using copp::util::uint64_id_allocator;
static const uint64_t EPOCH = 1577836800, LAST = (1ull << 32) - 1;
static uint64_t g_now; static int g_still;
static long clk() { uint64_t d = sym_range(0, 1ull << 31, "clock"); sym_assume(g_now + d <= LAST); if (++g_still > 3) sym_assume(d > 0); g_now += d; return (long)g_now; }
// every identifier lies beyond all earlier batches, or is a new member of the latest one
struct Seen { uint64_t top, mask = 0; explicit Seen(uint64_t t) : top(t) {} bool add(uint64_t x) { sym_assert(x != 0, "an identifier is never zero"); bool fresh = false; uint64_t b = x >> 5; if (b != top) { sym_assert(b > top, "a batch is new: beyond everything given out before"); top = b; mask = 0; fresh = true; } uint64_t bit = 1ull << (x & 31); sym_assert(!(mask & bit), "an identifier is given out once"); mask |= bit; return fresh; } };
ENTRY(u04_state) {
  uint64_id_allocator a; vx_time_fn = nullptr; vx_time = (long)(EPOCH + 0x0a5a5a5); uint64_t id0 = a.allocate(); sym_assert(id0 != 0, "an identifier is never zero");
  uint64_t* c = sym_find(id0 >> 5); if (!c) { for (int i = 0; i < 100; i++) { uint64_t b = a.allocate(); sym_assert(b != 0 && b != id0, "identifiers do not repeat"); } sym_reach("end"); sym_reach("same second"); sym_reach("next second"); return; } // kept in another way: no arbitrary state can be set up
  for (int i = 1; i < 32; i++) a.allocate();
  uint64_t t = sym_range(1, LAST - EPOCH, "time part"), s = sym_range(0, (1 << 24) - 1, "sequence"), prev = (t << 24) | s; g_now = sym_range(EPOCH + 1, LAST, "now"); sym_assume(g_now - EPOCH >= t); g_still = 0; vx_time_fn = clk; *c = prev;
  Seen n(prev); n.mask = ~0ull;
  for (int k = 0; k < 96; k++) { uint64_t x = a.allocate(); if (n.add(x)) { sym_assert((x >> 29) <= g_now - EPOCH, "no identifier is taken from the future"); if ((x >> 29) == (prev >> 24)) sym_reach("same second"); else sym_reach("next second"); prev = x >> 5; g_still = 0; } a.deallocate(x); }
  sym_reach("end");
}
ENTRY(u04_clock) {
  uint64_id_allocator a; g_now = sym_range(EPOCH + 1, LAST, "now"); g_still = 0; vx_time_fn = clk; Seen n(0);
  for (int i = 0; i < 97; i++) { n.add(a.allocate()); g_still = 0; }
  sym_reach("end");
}
