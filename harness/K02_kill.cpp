/*SPEC
{"libs": ["copp"],
 "entries": {
  "k02_int": {"reach": ["end", "finished", "kill", "innerkill", "dropped"], "what": "chains of callables returning int, killing, cancelling or timing out any of them or dropping the outermost at any point"},
  "k02_void": {"reach": ["end", "finished", "kill", "innerkill", "dropped"], "what": "the same without a value"},
  "k02_big": {"reach": ["end", "finished", "kill", "innerkill", "dropped"], "what": "the same with a counted class value"},
  "k02_self": {"reach": ["end", "finished", "kill", "selfkill"], "what": "chains whose running members end themselves"}},
 "bounds": "chains of 3 callables, up to 3 waits each; histories of 3 (thorough: 4) operations; k02_self: chains of 2; values 10 bits wide", "assumptions": ["callables wait on the library's own awaitables"]}
SPEC*/
#include "call.inc"
ENTRY(k02_int) { Chain<int>::run(true, 3, TIER ? 4 : 3); }
ENTRY(k02_void) { Chain<void>::run(true, 3, TIER ? 4 : 3); }
ENTRY(k02_big) { Chain<Big>::run(true, 3, TIER ? 4 : 3); }
ENTRY(k02_self) { Chain<int>::run(true, 2, TIER ? 5 : 4, true); }
