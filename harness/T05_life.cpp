/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t05_life": {"reach": ["end", "dropped", "hook", "resumed", "killed"], "what": "references dropped at any point of histories of 2 tasks", "time_thorough": 600},
  "t05_hook": {"reach": ["end", "dropped", "hook", "chained"], "what": "references dropped inside functions and completion hooks, with followers", "time_thorough": 600}},
 "bounds": "2 tasks, 5 operations (thorough: 6)", "assumptions": ["whoever starts or resumes a task holds a reference to it during the call"]}
SPEC*/
#include "task.inc"
ENTRY(t05_life) { static Sim s; new (&s) Sim(); s.symmetric = true; s.run(2, 5 + TIER, LIFE, OP_START | OP_YIELD | OP_KILL | OP_CANCEL | OP_DROP | OP_THROW, 1); }
ENTRY(t05_hook) { static Sim s; new (&s) Sim(); s.run(2, 5 + TIER, LIFE | HOOKS, OP_START | OP_YIELD | OP_KILL | OP_NEXT | OP_AWAIT | OP_DROP | OP_HOOKOPS, 1); }
