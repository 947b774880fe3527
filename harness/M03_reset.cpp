/*SPEC
{"libs": ["copp","cotask"],
 "entries": {
  "m03_reset": {"reach": ["end", "added", "reset", "destroyed", "refused in reset", "reset in reset", "dropped", "unreferenced"], "what": "reset and destruction of a manager by the owner, by its tasks and by their completion hooks, in any state of its tasks", "time_thorough": 800},
  "m03_tick": {"reach": ["end", "added", "timed out", "reset", "tick in tick", "rebased"], "what": "ticks, resets and further operations inside the callbacks of tasks that time out", "time_thorough": 800},
  "m03_taken": {"time": 240, "reach": ["end", "added", "destroyed"], "what": "tasks taken out of their manager by a cancel or removal by id, also by themselves, then given to another manager while the first one is reset or destroyed", "time_thorough": 800},
  "m03_chain": {"reach": ["end", "added", "chained", "destroyed"], "what": "managers reset or destroyed by the follower of a task that ends", "time_thorough": 800},
  "m03_three": {"reach": ["end", "added", "reset", "destroyed", "dropped"], "what": "three managed tasks, some waiting, then every history of resets, destruction, kills, drops and ticks, also inside hooks", "time_thorough": 800},
  "m03_due": {"reach": ["end", "added", "timed out", "reset"], "what": "three managed tasks with timeouts, some waiting, and the operations of their hooks while a tick ends them", "time_thorough": 800}},
 "bounds": "2 tasks, 5 operations in any nesting (thorough: 6); 3 tasks in one manager, then 3 or 4 operations (thorough: one more)", "assumptions": ["whoever starts or resumes a task holds a reference to it during the call", "a manager is not destroyed while one of its own operations is under way"]}
SPEC*/
#include "mgr.inc"
ENTRY(m03_reset) { static Sim s; new (&s) Sim(); s.run(2, 5 + TIER, OP_ADD | OP_DSTART | OP_DKILL | OP_YIELD | OP_RESET | OP_DESTROY | OP_DROP | OP_HOOKOPS); }
ENTRY(m03_tick) { static Sim s; new (&s) Sim(); s.run(2, 5 + TIER, OP_ADD | OP_DSTART | OP_YIELD | OP_RESET | OP_TICK | OP_HOOKOPS); }
ENTRY(m03_chain) { static Sim s; new (&s) Sim(); s.run(2 + TIER, 5 + TIER, OP_ADD | OP_DSTART | OP_DKILL | OP_RETURN | OP_RESET | OP_DESTROY | OP_FOLLOW); }
ENTRY(m03_taken) { static Sim s; new (&s) Sim(); s.run(2, 5 + TIER, OP_ADD | OP_ADD2 | OP_DSTART | OP_CANCEL | OP_REMOVE | OP_YIELD | OP_DESTROY); }
ENTRY(m03_three) { static Sim s; new (&s) Sim(); s.run(3, 4 + TIER, OP_DKILL | OP_RESET | OP_DESTROY | OP_DROP | OP_REMOVE | OP_YIELD | OP_HOOKOPS, true); }
ENTRY(m03_due) { static Sim s; new (&s) Sim(); s.run(3, 3 + TIER, OP_ADD | OP_DKILL | OP_RESET | OP_REMOVE | OP_TICK | OP_HOOKOPS, true); }
