/*SPEC
{"libs": [],
 "entries": {
  "p01_small": {"reach": ["end"], "what": "future/poller of a small trivial value (stored in place): every history over 3 pollers"},
  "p01_heap": {"reach": ["end"], "what": "future/poller of a non-trivial value (unique_ptr storage), instance counting"},
  "p01_shared": {"reach": ["end"], "what": "poller with shared_ptr storage, instance counting"},
  "p01_void": {"reach": ["end"], "what": "future<void>"},
  "p01_compact": {"reach": ["end"], "what": "compact storage (in place and shared): construct, clone, move, swap, destroy"}},
 "bounds": "3 pollers, histories of 3 (thorough: 4) operations, all values symbolic; compact storage: 3 slots, histories of 3 (thorough: 4)",
 "assumptions": []}
SPEC*/
#include <memory>
#include <utility>
#include <new>
#include "sym.h"
#include <libcopp/future/future.h>
#include <libcopp/future/poller.h>
#include <libcopp/future/storage.h>
using namespace copp::future;
#define skip() do { sym_assume(false); return; } while (0)
struct Small { uint32_t a; uint64_t b; };
static int g_live_, g_made, g_double;
struct Big { uint64_t v; uint64_t magic; Big(uint64_t x) : v(x), magic(0x600d) { g_live_++; g_made++; } Big(const Big& o) : v(o.v), magic(0x600d) { g_live_++; g_made++; } Big(Big&& o) : v(o.v), magic(0x600d) { o.v = ~0ull; g_live_++; g_made++; }
  ~Big() { if (magic != 0x600d) g_double++; magic = 0; g_live_--; } };
struct DerivedBig : Big { DerivedBig(uint64_t x) : Big(x) {} };
template <class T> struct Mk; 
template <> struct Mk<Small> { static Small val() { Small s; s.a = (uint32_t)sym_bits(32, "a"); s.b = sym_bits(64, "b"); return s; } static bool eq(const Small& x, const Small& y) { return x.a == y.a && x.b == y.b; } };
template <> struct Mk<Big> { static Big val() { return Big(sym_bits(64, "v")); } static bool eq(const Big& x, const Big& y) { return x.v == y.v; } };
template <class T, class PTR> static void hist(bool counted) {
  g_live_ = g_made = g_double = 0; uint64_t live0 = sym_live();
  typedef poller<T, PTR> PL; typedef copp::future::future<T, PTR> F;
  {
    F f[3]; bool rdy[3] = {}; struct V { alignas(T) unsigned char m[sizeof(T)]; } want[3]; auto W = [&](int i) -> T& { return *reinterpret_cast<T*>(want[i].m); };
    auto agree = [&]() { int n = 0; for (int i = 0; i < 3; i++) { n += rdy[i]; sym_assert(f[i].is_ready() == rdy[i] && f[i].is_pending() == !rdy[i], "readiness agrees with history"); const F& c = f[i];
        sym_assert((f[i].data() != nullptr) == rdy[i] && (c.data() != nullptr) == rdy[i], "data exists exactly when ready"); if (rdy[i]) { sym_assert(Mk<T>::eq(*f[i].data(), W(i)), "the last stored value is there"); for (int j = 0; j < i; j++) if (rdy[j]) sym_assert(f[j].data() != f[i].data(), "two futures share one value"); } }
      if (counted) { sym_assert(g_live_ == n, "each stored value exists exactly once"); sym_assert(!g_double, "value destroyed twice"); } };
    auto setw = [&](int i, const T& v) { memcpy(want[i].m, &v, sizeof(T)); rdy[i] = true; };
    agree();
    for (int s = 0; s < 3 + TIER; s++) {
      unsigned op = sym_pick(9, "op"); if (op == 8) break; unsigned x = sym_pick(3, "x");
      if (s == 0 && (x || op == 4)) skip(); // first operation: by symmetry on slot 0
      switch (op) {
        case 0: { T v = Mk<T>::val(); f[x].reset_data(v); setw(x, v); break; }
        case 1: { auto u = copp::future::make_unique<T>(Mk<T>::val()); T v(*u); f[x].reset_data(std::move(u)); setw(x, v); break; }
        case 2: { T v = Mk<T>::val(); PL p(v); sym_assert(p.is_ready() && Mk<T>::eq(*p.data(), v), "value constructor"); PL q(std::move(p)); sym_assert(!p.is_ready() && q.is_ready() && Mk<T>::eq(*q.data(), v), "move construction transfers"); f[x].poll_data() = std::move(q); sym_assert(!q.is_ready(), "moved-from is pending"); setw(x, v); break; }
        case 3: f[x].reset_data(); rdy[x] = false; break;
        case 4: { unsigned y = sym_pick(3, "y"); if (y == x) skip(); f[x].poll_data() = std::move(f[y].poll_data()); rdy[x] = rdy[y]; if (rdy[y]) memcpy(want[x].m, want[y].m, sizeof(T)); rdy[y] = false; break; }
        case 5: { unsigned y = sym_pick(3, "y"); if (y < x) skip(); f[x].poll_data().swap(f[y].poll_data()); std::swap(rdy[x], rdy[y]); std::swap(want[x], want[y]); break; }
        case 6: { PL e; sym_assert(!e.is_ready() && e.is_pending(), "a fresh poller is pending"); f[x].poll_data() = std::move(e); rdy[x] = false; break; }
        case 7: { unsigned y = (x + 1) % 3; swap(f[x].poll_data(), f[y].poll_data()); std::swap(rdy[x], rdy[y]); std::swap(want[x], want[y]); if (f[x].raw_ptr()) sym_assert(f[x].raw_ptr().get() == f[x].data(), "raw pointer is the data"); break; }
      }
      agree();
    }
  }
  sym_assert(g_live_ == 0 && !g_double && sym_live() == live0, "every stored value destroyed exactly once"); sym_reach("end");
}
ENTRY(p01_small) { hist<Small, typename poll_storage_ptr_selector<Small>::type>(false); }
ENTRY(p01_heap) { hist<Big, typename poll_storage_ptr_selector<Big>::type>(true); }
ENTRY(p01_shared) { hist<Big, std::shared_ptr<Big>>(true); }
ENTRY(p01_void) {
  typedef copp::future::future<void> F; F f[2]; bool r[2] = {};
  for (int s = 0; s < 4 + TIER; s++) { unsigned op = sym_pick(5, "op"), x = sym_pick(2, "x"); bool b;
    switch (op) { case 0: b = sym_bool("set"); f[x].reset_data(b); r[x] = b; break; case 1: f[x].reset_data(); r[x] = false; break; case 2: f[x].poll_data() = std::move(f[1 - x].poll_data()); r[x] = r[1 - x]; r[1 - x] = false; break; case 3: f[x].poll_data().swap(f[1 - x].poll_data()); std::swap(r[0], r[1]); break;
      case 4: { poller<void> p(true); poller<void> q(std::move(p)); sym_assert(q.is_ready() && !p.is_ready(), "move"); f[x].poll_data() = std::move(q); r[x] = true; break; } }
    for (int i = 0; i < 2; i++) sym_assert(f[i].is_ready() == r[i] && f[i].is_pending() == !r[i] && (f[i].data() != nullptr) == r[i], "readiness agrees with history"); }
  sym_reach("end");
}
template <class T> static void compact(bool counted) {
  g_live_ = g_made = g_double = 0; uint64_t live0 = sym_live(); typedef typename default_compact_storage<T>::type S; typedef typename S::storage_type ST;
  { ST st[3]; int val[3] = {-1, -1, -1}; int ref[8] = {}; struct V { alignas(T) unsigned char m[sizeof(T)]; } vals[8]; int nv = 0; for (auto& s : st) S::construct_default_storage(s);
    auto agree = [&]() { for (int i = 0; i < 3; i++) { if (S::is_shared_storage()) sym_assert((S::unwrap(st[i]) != nullptr) == (val[i] >= 0), "presence"); if (val[i] >= 0) sym_assert(Mk<T>::eq(*S::unwrap(st[i]), *reinterpret_cast<T*>(vals[val[i]].m)), "stored value"); }
      if (counted) { int n = 0; for (int v = 0; v < nv; v++) { bool u = false; for (int i = 0; i < 3; i++) u |= val[i] == v; n += u; } sym_assert(g_live_ == n && !g_double, "a value lives exactly as long as a slot refers to it"); } };
    for (int s = 0; s < 3 + TIER; s++) { unsigned op = sym_pick(6, "op"); if (op == 5) break; unsigned x = sym_pick(3, "x"), y = 0; if (op >= 1 && op <= 3) { y = sym_pick(3, "y"); if (x == y) skip(); }
      switch (op) {
        case 0: { T v = Mk<T>::val(); S::construct_storage(st[x], v); memcpy(vals[nv].m, &v, sizeof(T)); val[x] = nv++; break; }
        case 1: S::clone_storage(st[x], st[y]); val[x] = val[y]; break;
        case 2: S::move_storage(st[x], std::move(st[y])); val[x] = val[y]; val[y] = -1; break;
        case 3: S::swap(st[x], st[y]); std::swap(val[x], val[y]); break;
        case 4: S::destroy_storage(st[x]); val[x] = -1; break; }
      agree(); }
    for (auto& s : st) S::destroy_storage(s); }
  sym_assert(g_live_ == 0 && sym_live() == live0, "no value leaks"); }
ENTRY(p01_compact) { if (sym_bool("shared")) compact<Big>(true); else compact<Small>(false); sym_reach("end"); }
