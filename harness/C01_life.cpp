/*SPEC
{"libs": ["copp"],
 "entries": {
  "c01_hist": {"reach": ["end", "allended", "resumed", "refused running", "refused done", "throw"], "what": "every history of starts, resumes, yields, refused operations, returns and exceptions, nested across coroutines"},
  "c01_init": {"reach": ["end", "refused uninit"], "what": "one coroutine has no function at first"}},
 "bounds": "3 coroutines sharing one step budget of 5 (thorough: 7) operations; nesting depth up to 3; each operation by the side that is running then",
 "assumptions": ["yield is called by the running coroutine itself, or on a coroutine that does not run", "no switch while an exception is being handled"]}
SPEC*/
#include "co.inc"
ENTRY(c01_hist) { static Sim s; new (&s) Sim(); s.run(3, 3, 5 + 2 * TIER, STATUS, 0x1f, 1); }
ENTRY(c01_init) { static Sim s; new (&s) Sim(); s.run(2, 1, 5 + 2 * TIER, STATUS, 0x3f, 1); }
