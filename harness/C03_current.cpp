/*SPEC
{"libs": ["copp"],
 "entries": {
  "c03_nest": {"reach": ["end", "allended", "resumed"], "what": "current coroutine after every operation and control flow of every yield, for every nesting of 3 coroutines"},
  "c03_self": {"reach": ["end", "resumed"], "what": "2 coroutines, storing resumers, yields through the coroutine's own object"},
  "c03_four": {"reach": ["end", "resumed", "throw"], "what": "4 coroutines, functions also ending with an exception"},
  "c03_thrown": {"reach": ["end", "inside"], "what": "the current coroutine while locals are destroyed and an exception is stored"}},
 "bounds": "3 coroutines with a budget of 7 (thorough: 8), 4 with a budget of 5 (thorough: 6) operations",
 "assumptions": ["yield is called by the running coroutine itself"]}
SPEC*/
#include "co.inc"
ENTRY(c03_nest) { static Sim s; new (&s) Sim(); s.run(3, 3, 7 + TIER, CURRENT, 0x0b, 1); }
ENTRY(c03_self) { static Sim s; new (&s) Sim(); s.run(2, 2, 5 + 2 * TIER, CURRENT, 0x1b, 2); }
ENTRY(c03_four) { static Sim s; new (&s) Sim(); s.run(4, 4, 5 + TIER, CURRENT, 0x1b, 1); }
typedef Sim::Co Co;
static Co::ptr_type a, b; static int seen;
struct Look { Co::ptr_type* w; ~Look() { seen++; sym_assert(this_coroutine::get_coroutine() == w->get() && this_coroutine::get<Co>() == w->get(), "current coroutine while its locals are destroyed"); sym_reach("inside"); } };
ENTRY(c03_thrown) {
  seen = 0; unsigned k = sym_pick(4, "k"); allocator::stack_allocator_malloc al;
  b = Co::create([k](void*) -> int { Look l{&b}; if (k & 1) throw 5; return 0; }, al, STK); 
  a = Co::create([k](void*) -> int { Look l{&a}; std::exception_ptr ep; b->start(ep); sym_assert(this_coroutine::get_coroutine() == a.get(), "back in the outer coroutine"); sym_assert((bool)ep == ((k & 1) != 0), "stored exception"); if (k & 2) { if (ep) std::rethrow_exception(ep); throw 7; } return 0; }, al, STK);
  int got = 0; try { a->start(); } catch (int x) { got = x; sym_assert(this_coroutine::get_coroutine() == nullptr, "none outside"); }
  sym_assert(seen == 2 && got == ((k & 2) ? ((k & 1) ? 5 : 7) : 0) && this_coroutine::get_coroutine() == nullptr, "none outside"); a.reset(); b.reset(); sym_reach("end");
}
