/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t02_hooks": {"reach": ["end", "hook", "refused kill", "killed", "killed running", "chained", "resumed", "throw"], "what": "completion hook and followers over histories of 2 tasks ended by return, exception, kill and cancel", "time_thorough": 600},
  "t02_inside": {"reach": ["end", "hook", "refused kill", "chained"], "what": "the same with further operations inside the completion hook", "time_thorough": 600},
  "t02_throw": {"reach": ["end", "hook", "refused kill", "chained", "caught"], "what": "the same with exceptions thrown by the completion hook, collected or thrown on", "time_thorough": 600}},
 "bounds": "2 tasks, 5 operations (thorough: 6)", "assumptions": ["whoever starts or resumes a task holds a reference to it during the call"]}
SPEC*/
#include "task.inc"
ENTRY(t02_hooks) { static Sim s; new (&s) Sim(); s.run(2, 5 + TIER, HOOKS, OP_START | OP_YIELD | OP_KILL | OP_CANCEL | OP_RETURN | OP_THROW | OP_NEXT, 1); }
ENTRY(t02_inside) { static Sim s; new (&s) Sim(); s.run(2, 4 + TIER, HOOKS | EXC, OP_START | OP_YIELD | OP_KILL | OP_CANCEL | OP_RETURN | OP_THROW | OP_NEXT | OP_HOOKOPS, 1); }
ENTRY(t02_throw) { static Sim s; new (&s) Sim(); s.run(2, 3 + TIER, HOOKS | EXC, OP_START | OP_YIELD | OP_KILL | OP_CANCEL | OP_RETURN | OP_THROW | OP_NEXT | OP_HOOKTHROW, 4); }
