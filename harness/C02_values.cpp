/*SPEC
{"libs": ["copp"],
 "entries": {
  "c02_nest": {"reach": ["end", "allended", "resumed"], "what": "values given to start and resume, results of yield and of the function, for every nesting of 3 coroutines"},
  "c02_two": {"reach": ["end", "allended", "resumed"], "what": "2 coroutines, also resumed through the calls that store exceptions and yielding through their own object"}},
 "bounds": "3 coroutines with a budget of 6 (thorough: 7) and 2 with a budget of 6 (thorough: 8) operations; every passed pointer and returned integer is an arbitrary 64/32 bit value",
 "assumptions": ["yield is called by the running coroutine itself"]}
SPEC*/
#include "co.inc"
ENTRY(c02_nest) { static Sim s; new (&s) Sim(); s.run(3, 3, 6 + TIER, VALUES, 0x0b, 1); }
ENTRY(c02_two) { static Sim s; new (&s) Sim(); s.run(2, 2, 6 + 2 * TIER, VALUES, 0x0b, 2); }
