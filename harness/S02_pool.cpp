/*SPEC
{"libs": ["copp"],
 "entries": {
  "s02_core": {"reach": ["end", "reused"], "what": "allocate, release, collect, clear, stack size change"},
  "s02_small": {"reach": ["end"], "what": "the underlying allocator returns stacks smaller than asked for"},
  "s02_conf": {"reach": ["end", "reused"], "what": "with automatic collection off, per-run limits, failing underlying allocator"}},
 "bounds": "3 users, histories of 5 (thorough: 6-7) operations; underlying allocator returns exactly, more or less than the requested size, or fails; pool destroyed at the end",
 "assumptions": ["the underlying allocator is a recording stand-in (the real ones are checked by S01)"]}
SPEC*/
#include "pool.inc"
ENTRY(s02_core) { history(5 + 2 * TIER, 0x1f | (1u << 11), OWN); }
ENTRY(s02_small) { history(5 + TIER, 0x1f | (1u << 12), OWN); }
ENTRY(s02_conf) { history(5 + TIER, 0x30f | (1u << 13), OWN); }
