/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t01_hist": {"reach": ["end", "refused running", "refused ended", "refused kill", "killed", "killed running", "resumed", "throw"], "what": "status, queries, this_task() and the result of every operation over histories of 2 tasks that start, resume, yield, kill, cancel, return and throw in any nesting", "time_thorough": 600}},
 "bounds": "2 tasks, 5 operations (thorough: 6), exit statuses cancelled, killed and timed out; private data and result values arbitrary", "assumptions": ["whoever starts or resumes a task holds a reference to it during the call"]}
SPEC*/
#include "task.inc"
ENTRY(t01_hist) { static Sim s; new (&s) Sim(); s.symmetric = true; s.run(2, 5 + TIER, STATUS, OP_START | OP_YIELD | OP_KILL | OP_CANCEL | OP_RETURN | OP_THROW | OP_TIMEOUT, 2); }
