/*SPEC
{"libs": ["copp"],
 "entries": {
  "c06_start": {"conc": true, "reach": ["end", "threads", "refused", "handover"], "what": "two threads each starting or resuming one coroutine three times; the function yields twice before it ends", "time": 240},
  "c06_three": {"conc": true, "reach": ["end", "threads", "refused"], "what": "three threads starting one coroutine that yields once", "time": 240},
  "c06_throw": {"conc": true, "reach": ["end", "threads", "caught"], "what": "two threads resuming a coroutine that ends with an exception", "time": 200},
  "c06_nested": {"conc": true, "reach": ["end", "threads"], "what": "two coroutines in two threads, each trying to start the other's helper coroutine", "time": 200}},
 "bounds": "2 threads with up to 3 calls each on a function with 1 to 4 stretches, 8 preemptive switches (thorough 10 to 12); 3 threads with 1 call each, 5 switches (thorough 7); up to 3 stale reads",
 "assumptions": ["yield is called by the thread that runs the coroutine"]}
SPEC*/
#include "co.inc"
typedef coroutine_context_container<allocator::stack_allocator_malloc> Co;
static Co::ptr_type* co; static int inside, segs, data, yields, throws, segOf[4]; static bool fin;
static int ok[3], bad[3], got[3], calls[3], hand[3]; static unsigned order[3];
// the plain variables are written by whichever thread runs the coroutine
static void seg() { sym_assert(inside == 0, "two threads run the coroutine at once"); inside = 1; segs++; data = data * 2 + 1; if (segs > 1 && sym_tid() < 3 && segOf[segs - 2] != (int)sym_tid()) hand[sym_tid()] = 1; segOf[segs - 1] = (int)sym_tid(); sym_assert(this_coroutine::get_coroutine() == co->get(), "the current coroutine is the one that is running"); }
static int body_(void*) { for (int i = 0; i <= yields; i++) { seg(); inside = 0; if (i < yields) { int r = this_coroutine::yield(); sym_assert(r == 0, "yield of the running coroutine succeeds"); } } fin = true; if (throws) throw 77; return 5; }
static void call(unsigned t) {
  std::exception_ptr e; int r = (*co)->start(e, nullptr); sym_assert(this_coroutine::get_coroutine() == nullptr, "no current coroutine outside of one");
  if (r == 0) ok[t]++; else { sym_assert(r == COPP_EC_IS_RUNNING || r == COPP_EC_NOT_READY, "the losing thread gets an error that names the reason"); bad[t]++; }
  if (e) { sym_assert(r == 0, "a refused start reports an exception"); try { std::rethrow_exception(e); } catch (int x) { got[t] += x == 77; } }
}
static void body(unsigned t) { for (int i = 0; i < calls[t]; i++) call(t); }
static void init(int y, int th) { static Co::ptr_type p; co = &p; inside = segs = data = 0; yields = y; throws = th; fin = false; for (int t = 0; t < 3; t++) ok[t] = bad[t] = got[t] = calls[t] = hand[t] = 0; allocator::stack_allocator_malloc al; p = Co::create(body_, al, STK); sym_assert(!!p, "created"); this_coroutine::get_coroutine(); }
static void fin_(unsigned n, int total) {
  int o = 0, b = 0, g = 0; for (unsigned t = 0; t < n; t++) { o += ok[t]; b += bad[t]; g += got[t]; if (hand[t]) sym_reach("handover"); if (bad[t]) sym_reach("refused"); }
  sym_assert(o == segs, "every successful start ran one stretch of the coroutine, and every stretch had one"); sym_assert(o >= 1 && o + b == total && inside == 0, "one winner"); int d = 0; for (int i = 0; i < segs; i++) d = d * 2 + 1; sym_assert(data == d, "the writes of earlier runners are seen");
  bool end = segs == yields + 1; sym_assert((*co)->is_finished() == end && fin == end, "finished exactly when the function has ended"); sym_assert(g == (end && throws ? 1 : 0), "the exception reaches exactly the resumer of the last stretch"); if (g) sym_reach("caught");
  while (segs <= yields) { std::exception_ptr e; int s0 = segs; sym_assert((*co)->start(e, nullptr) == 0 && segs == s0 + 1, "a yielded coroutine can be resumed"); }
  sym_assert((*co)->is_finished() && (*co)->start() == COPP_EC_NOT_READY, "a finished coroutine is not run again"); if (!throws) sym_assert((*co)->get_ret_code() == 5, "return value"); co->reset(); sym_reach("end");
}
ENTRY(c06_start) { init(2 + TIER, 0); calls[0] = calls[1] = 3; sym_threads(2, body, 8 + 2 * TIER, 3, 0); fin_(2, 6); }
ENTRY(c06_three) { init((int)sym_pick(2, "yields"), 0); for (int t = 0; t < 3; t++) calls[t] = 1; sym_threads(3, body, 5 + 2 * TIER, 2, 0); fin_(3, 3); }
ENTRY(c06_throw) { init((int)sym_pick(2, "yields"), 1); calls[0] = 2; calls[1] = 1; sym_threads(2, body, 8 + 4 * TIER, 3, 0); fin_(2, 3); }
static Co::ptr_type outer[2]; static int innerRuns, outRc[2];
static int helper(void*) { innerRuns++; sym_assert(this_coroutine::get_coroutine() == co->get(), "current"); this_coroutine::yield(); innerRuns++; return 5; }
static int outerBody(void* p) { unsigned t = (unsigned)(uintptr_t)p; outRc[t] = (*co)->start(); sym_assert(this_coroutine::get_coroutine() == outer[t].get(), "control comes back to the coroutine that resumed"); return (int)t; }
static void bodyN(unsigned t) { sym_assert(outer[t]->start((void*)(uintptr_t)t) == 0 && outer[t]->is_finished() && outer[t]->get_ret_code() == (int)t, "the outer coroutine runs"); sym_assert(this_coroutine::get_coroutine() == nullptr, "no current coroutine outside of one"); }
ENTRY(c06_nested) { init(0, 0); innerRuns = 0; { allocator::stack_allocator_malloc al; *co = Co::create(helper, al, STK); outer[0] = Co::create(outerBody, al, STK); outer[1] = Co::create(outerBody, al, STK); } sym_threads(2, bodyN, 8 + 4 * TIER, 2, 0); int o = (outRc[0] == 0) + (outRc[1] == 0); sym_assert(o >= 1 && innerRuns == o, "every successful start ran the helper"); for (int t = 0; t < 2; t++) sym_assert(outRc[t] == 0 || outRc[t] == COPP_EC_IS_RUNNING, "the loser gets an error"); if (o == 1) { (*co)->start(); } sym_assert((*co)->is_finished() && innerRuns == 2, "ended"); outer[0].reset(); outer[1].reset(); co->reset(); sym_reach("end"); }
