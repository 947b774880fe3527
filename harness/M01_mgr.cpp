/*SPEC
{"libs": ["copp","cotask"],
 "entries": {
  "m01_hist": {"reach": ["end", "added", "refused add", "unknown", "started", "forgotten", "removed"], "what": "lookups, sizes, start, resume and removal by id, with tasks that are also killed directly and act on the manager again", "time_thorough": 800},
  "m01_kill": {"reach": ["end", "added", "refused add", "unknown", "started", "killed"], "what": "kill and cancel by id at every moment", "time_thorough": 800},
  "m01_other": {"reach": ["end", "added", "refused add", "started", "removed", "dropped"], "what": "a second manager, dropped outside references and operations inside completion hooks", "time_thorough": 800},
  "m01_three": {"reach": ["end", "added", "killed", "removed"], "what": "three managed tasks, some waiting, started, killed, cancelled and removed by id, also by the tasks and inside hooks", "time_thorough": 800}},
 "bounds": "2 tasks, 5 manager and task operations in any nesting (thorough: 6); 3 tasks in one manager, then 3 operations (thorough: 4)", "assumptions": ["whoever starts or resumes a task holds a reference to it during the call", "a manager is not destroyed while one of its own operations is under way"]}
SPEC*/
#include "mgr.inc"
ENTRY(m01_hist) { static Sim s; new (&s) Sim(); s.run(2, 5 + TIER, OP_ADD | OP_START | OP_REMOVE | OP_DKILL | OP_YIELD | OP_RETURN); }
ENTRY(m01_kill) { static Sim s; new (&s) Sim(); s.run(2, 5 + TIER, OP_ADD | OP_START | OP_KILL | OP_CANCEL | OP_YIELD); }
ENTRY(m01_other) { static Sim s; new (&s) Sim(); s.run(2, 5 + TIER, OP_ADD | OP_ADD2 | OP_START | OP_REMOVE | OP_YIELD | OP_DROP | OP_HOOKOPS); }
ENTRY(m01_three) { static Sim s; new (&s) Sim(); s.run(3, 3 + TIER, OP_START | OP_KILL | OP_CANCEL | OP_REMOVE | OP_DKILL | OP_DROP | OP_YIELD | OP_HOOKOPS, true); }
