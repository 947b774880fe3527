/*SPEC
{"libs": ["copp"],
 "entries": {
  "c05_nest": {"reach": ["end", "allended", "resumed", "throw", "caught"], "what": "exceptions escaping at every point of every nesting of 3 coroutines, received by throwing and by storing resumers"},
  "c05_deep": {"reach": ["end", "resumed", "caught"], "what": "the exception travels on through coroutines that do not catch it"}},
 "bounds": "3 coroutines with a budget of 5 (thorough: 6) operations; exception values are arbitrary 32 bit values; depth 3 for uncaught exceptions",
 "assumptions": ["no switch while an exception is being handled"]}
SPEC*/
#include "co.inc"
ENTRY(c05_nest) { static Sim s; new (&s) Sim(); s.run(3, 3, 5 + TIER, EXC, 0x1b, 2); }
typedef Sim::Co Co;
static Co::ptr_type c[3]; static int gone[3], alive; static unsigned yields[3], catcher; static uint64_t val;
struct Loc { int i; ~Loc() { gone[i]++; } };
static int deep(int i) {
  Loc l{i}; if (yields[i]) this_coroutine::yield(nullptr);
  if (i == 2) throw Boom(val, &alive);
  try { while (!c[i + 1]->is_finished()) { c[i + 1]->start(); if (yields[i]) this_coroutine::yield(nullptr); } } catch (const Boom& b) { if ((int)catcher == i) { sym_assert(b.v == val, "exception unchanged"); return 1; } throw; }
  return 2;
}
ENTRY(c05_deep) {
  uint64_t live0 = sym_live(); alive = 0; val = sym_bits(64, "value"); catcher = sym_pick(3, "catcher"); int got = 0;
  for (int i = 0; i < 3; i++) { gone[i] = 0; yields[i] = sym_pick(2, "yields"); allocator::stack_allocator_malloc al; c[i] = Co::create([i](void*) { return deep(i); }, al, STK); }
  int rounds = 0; while (!c[0]->is_finished()) { sym_assert(rounds++ < 6, "the outermost coroutine ends"); try { c[0]->start(); } catch (const Boom& b) { got++; sym_assert(b.v == val, "exception unchanged"); } if (rounds > 1) sym_reach("resumed"); }
  sym_assert(got == (catcher == 2 ? 1 : 0), "the exception arrives exactly once where it is not caught before"); if (got) sym_reach("caught");
  for (int i = 0; i < 3; i++) { sym_assert(gone[i] == 1, "locals destroyed once"); sym_assert(c[i]->is_finished(), "ended"); c[i].reset(); } sym_assert(alive == 0 && sym_live() == live0, "exception destroyed"); sym_reach("end");
}
