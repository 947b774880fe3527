/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t04_await": {"reach": ["end", "awaited", "killed waiter", "ended already", "hook"], "what": "awaiting over histories of 3 tasks", "time_thorough": 600},
  "t04_bad": {"reach": ["end", "refused outside"], "what": "awaiting nothing, itself, or from outside the task is refused", "time_thorough": 300}},
 "bounds": "3 tasks, 5 operations (thorough: 6)", "assumptions": ["whoever starts or resumes a task holds a reference to it during the call", "tasks do not wait for each other in a cycle"]}
SPEC*/
#include "task.inc"
ENTRY(t04_await) { static Sim s; new (&s) Sim(); s.run(3, 5 + TIER, AWAIT | HOOKS, OP_START | OP_YIELD | OP_KILL | OP_AWAIT, 1); }
ENTRY(t04_bad) { static Sim s; new (&s) Sim(); s.run(2, 4 + TIER, AWAIT | HOOKS, OP_START | OP_YIELD | OP_KILL | OP_AWAIT | OP_BADAWAIT, 1); }
