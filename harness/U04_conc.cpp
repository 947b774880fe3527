/*SPEC
{"libs": ["copp"],
 "entries": {
  "u04_two": {"conc": true, "reach": ["end", "threads", "same second", "next second"], "what": "two threads each taking two batches of identifiers from the shared counter, from any counter state and any course of the clock", "time": 150, "time_thorough": 500},
  "u04_three": {"conc": true, "reach": ["end", "threads"], "what": "three threads taking one batch each", "time": 100, "time_thorough": 400}},
 "bounds": "the counter up to 4 batches before the end of its second's budget, the clock on that second or the next, advancing by 0 or 1 s per reading; two threads taking 33 identifiers each with 2 (thorough 4) preemptive switches, three threads taking one each with 2 (thorough 4) switches; 1 stale read (thorough 2), 1 spurious failure (three threads, thorough); the clock stands still for at most one reading of one thread", "assumptions": ["the clock never goes backwards"]}
SPEC*/
#include "sym.h"
#include <atomic>
#include <libcopp/utils/uint64_id_allocator.h>
using copp::util::uint64_id_allocator;
static const uint64_t EPOCH = 1577836800, LAST = (1ull << 32) - 1;
static std::atomic<uint64_t> g_now; static int per; static uint64_t got[3][34], first[3];
static int still[3];
static long clk() { unsigned me = sym_tid(); uint64_t d = sym_pick(2, "clock"); if (++still[me] > 1) sym_assume(d > 0); uint64_t v = g_now.fetch_add(d, std::memory_order_relaxed) + d; sym_assume(v <= LAST); return (long)v; }
static void body(unsigned t) { still[t] = 0; uint64_id_allocator a; for (int i = 0; i < per; i++) got[t][i] = a.allocate(); }
static void run(unsigned n, int k, unsigned preempt, unsigned stale) {
  uint64_id_allocator a; vx_time_fn = nullptr; vx_time = (long)(EPOCH + 0x0a5a5a5); uint64_t id0 = a.allocate(); sym_assert(id0 != 0, "an identifier is never zero");
  uint64_t* c = sym_find(id0 >> 5); uint64_t prev = id0 >> 5; vx_time_fn = clk; per = k;
  if (c) { for (int i = 1; i < 32; i++) a.allocate(); uint64_t t = 0x0a5a5a5, s = (1 << 24) - 4 + sym_pick(4, "sequence"), ahead = sym_pick(2, "clock ahead"); still[0] = still[1] = still[2] = 0; prev = (t << 24) | s; g_now.store(EPOCH + t + ahead); *c = prev; } else g_now.store(EPOCH + 0x0a5a5a5);
  sym_threads(n, body, preempt, stale, n == 2 && !TIER ? 0 : 1);
  bool nz = true, in = true; uint64_t b[6]; unsigned nb = 0; for (unsigned t = 0; t < n; t++) { for (int i = 0; i < k; i++) nz = nz & (got[t][i] != 0); b[nb++] = got[t][0] >> 5; for (int i = 0; i < k && i < 32; i++) in = in & (got[t][i] == got[t][0] + (uint64_t)i); if (k > 32) b[nb++] = got[t][32] >> 5; }
  sym_assert(nz, "an identifier is never zero");
  if (!c) { for (unsigned t = 0; t < n; t++) for (int i = 0; i < k; i++) { sym_assert(got[t][i] != id0, "identifiers do not repeat"); for (unsigned u = 0; u < n; u++) for (int j = 0; j < k; j++) if (u < t || (u == t && j < i)) sym_assert(got[t][i] != got[u][j], "identifiers do not repeat"); } sym_reach("same second"); sym_reach("next second"); sym_reach("end"); return; }
  sym_assert(in, "a thread's batch is used in order"); bool distinct = true, later = true; for (unsigned i = 0; i < nb; i++) { later = later & (b[i] > prev); for (unsigned j = 0; j < i; j++) distinct = distinct & (b[i] != b[j]); }
  sym_assert(later, "a batch lies beyond everything given out before"); sym_assert(distinct, "two threads never get the same identifiers");
  if ((b[0] >> 24) == (prev >> 24)) sym_reach("same second"); else sym_reach("next second"); sym_reach("end");
}
ENTRY(u04_two) { run(2, 33, 2 + 2 * TIER, 1 + TIER); }
ENTRY(u04_three) { run(3, 1, 2 + 2 * TIER, 1 + TIER); }
