/*SPEC
{"libs": ["copp"],
 "entries": {
  "k01_int": {"reach": ["end", "finished"], "what": "chains of callables returning int: waits before, between and after awaiting, every order of completing the waits"},
  "k01_big": {"reach": ["end", "finished"], "what": "the same with a counted class value"},
  "k01_void": {"reach": ["end", "finished"], "what": "the same without a value"},
  "k01_handle": {"reach": ["end", "assigned", "selfmove", "awaitmoved"], "what": "handles of callables moved, assigned, swapped, awaited after moving and destroyed in every order"}},
 "bounds": "chains of 3 callables, up to 2 (thorough: 3) waits each, all orders of completing them (histories of 6, thorough 8, operations); values 10 bits wide; 3 handles, histories of 4 (thorough: 5) operations", "assumptions": []}
SPEC*/
#include "call.inc"
ENTRY(k01_int) { Chain<int>::run(false, 3, TIER ? 8 : 6); }
ENTRY(k01_big) { Chain<Big>::run(false, 3, TIER ? 8 : 6); }
ENTRY(k01_void) { Chain<void>::run(false, 3, TIER ? 8 : 6); }

static int h_live, h_made; struct HG { HG() { h_live++; h_made++; } ~HG() { h_live--; } };
static gen* h_gate[8]; static bool h_done[8];
static callable_future<int> hbody(int i) { HG g; int r = co_await *h_gate[i]; h_done[i] = true; co_return r; }
static int h_got; static callable_future<void> hawait(callable_future<int>* c) { h_got = co_await *c; }
ENTRY(k01_handle) {
  uint64_t live0 = sym_live(); h_live = h_made = 0; typedef callable_future<int> call; int nid = 0; call* h[3]; int id[3]; bool ended[8];
  for (int i = 0; i < 8; i++) { h_gate[i] = nullptr; h_done[i] = ended[i] = false; }
  auto mk = [&]() { h_gate[nid] = new gen{[](gen::context_pointer_type) {}}; return hbody(nid); };
  for (int i = 0; i < 3; i++) { h[i] = nullptr; id[i] = -1; }
  for (int k = 0; k < (TIER ? 5 : 4); k++) {
    unsigned a = sym_pick(3, "slot");
    switch (sym_pick(5, "op")) {
      case 0: if (h[a]) { sym_assume(false); return; } h[a] = new call(mk()); id[a] = nid++; break;
      case 1: { unsigned b = sym_pick(3, "from"); if (!h[a] || !h[b]) { sym_assume(false); return; } *h[a] = std::move(*h[b]); if (a != b) { if (id[a] >= 0) { ended[id[a]] = true; sym_reach("assigned"); } id[a] = id[b]; id[b] = -1; } else sym_reach("selfmove"); break; }
      case 2: { unsigned b = sym_pick(3, "from"); if (h[a] || !h[b]) { sym_assume(false); return; } h[a] = new call(std::move(*h[b])); id[a] = id[b]; id[b] = -1; break; }
      case 3: if (!h[a]) { sym_assume(false); return; } if (id[a] >= 0) ended[id[a]] = true; { call* o = h[a]; h[a] = nullptr; delete o; } id[a] = -1; break;
      case 4: if (!h[a] || id[a] < 0 || ended[id[a]]) { sym_assume(false); return; } { int v = (int)sym_bits(10, "v"); auto t = hawait(h[a]); sym_assert(!t.is_ready(), "not before the callee ended"); ended[id[a]] = true; h_gate[id[a]]->get_context()->set_value(v); sym_assert(t.is_ready() & (h_got == v) & h[a]->is_ready(), "awaiting through a moved handle gives the value"); sym_reach("awaitmoved"); } break;
    }
    int live = 0; for (int i = 0; i < nid; i++) { live += !ended[i]; sym_assert(h_done[i] == ended[i], "a callable ends exactly when its value came or its last handle is gone"); }
    sym_assert(h_live == live, "a running callable keeps its frame");
  }
  for (int i = 0; i < 3; i++) if (h[i]) delete h[i];
  for (int i = 0; i < 8; i++) if (h_gate[i]) delete h_gate[i];
  sym_assert((h_live == 0) & (sym_live() == live0), "every frame is destroyed"); sym_reach("end");
}
