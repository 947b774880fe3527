/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t03_chain": {"reach": ["end", "chained", "at once", "hook", "resumed"], "what": "followers over histories of 3 tasks chained in any acyclic shape", "time": 200, "jobs": 4, "time_thorough": 600}},
 "bounds": "3 tasks, 5 operations (thorough: 6)", "assumptions": ["whoever starts or resumes a task holds a reference to it during the call"]}
SPEC*/
#include "task.inc"
ENTRY(t03_chain) { static Sim s; new (&s) Sim(); s.run(3, 5 + TIER, FOLLOW | HOOKS, OP_START | OP_YIELD | OP_KILL | OP_NEXT, 1); }
