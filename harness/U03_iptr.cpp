/*SPEC
{"libs": [],
 "entries": {
  "u03_hist": {"reach": ["end"], "what": "every history of constructions, copies, moves (same and derived type), assignments, resets, swaps, detaches and self-assignments over 3 pointers and 2 objects", "time": 200},
  "u03_unique": {"reach": ["end"], "what": "taking objects over from unique_ptr, with all earlier contents of the pointer"},
  "u03_self": {"reach": ["end"], "what": "self-assignment, self-swap, self-reset and pointer cycles through a member"}},
 "bounds": "3 pointer slots, 2 objects, histories of 2 (thorough: 3) operations after each of 4 initial assignments of slots",
 "assumptions": []}
SPEC*/
#include "sym.h"
#include <memory>
#include <utility>
#include <ostream>
#include <libcopp/utils/intrusive_ptr.h>
#include <libcopp/utils/atomic_int_type.h>
using namespace copp::util;
static int dead[2], born[2];
struct Base { int id; int payload; explicit Base(int i) : id(i), payload(77) { born[i]++; LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_INIT(); } virtual ~Base() { dead[id]++; } LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_DECL(Base) intrusive_ptr<Base> next; };
LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DECL(Base)
inline LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DEFI(Base)
struct Derived : Base { explicit Derived(int i) : Base(i) {} ~Derived() { payload = 0; } };
typedef intrusive_ptr<Base> P; typedef intrusive_ptr<Derived> PD;
ENTRY(u03_hist) {
  uint64_t live0 = sym_live(); dead[0] = dead[1] = born[0] = born[1] = 0;
  Base* obj[2] = {new Base(0), new Derived(1)}; int held[3] = {-1, -1, -1}, raw[2] = {0, 0};
  {
    P p[3];
    auto refs = [&](int o) { int n = raw[o]; for (int i = 0; i < 3; i++) n += held[i] == o; return n; };
    auto agree = [&]() { for (int i = 0; i < 3; i++) { sym_assert(p[i].get() == (held[i] < 0 ? nullptr : obj[held[i]]), "a pointer refers to the expected object"); sym_assert((bool)p[i] == (held[i] >= 0) && !p[i] == (held[i] < 0), "emptiness"); }
      for (int o = 0; o < 2; o++) { int n = refs(o); sym_assert(dead[o] == (n == 0 ? 1 : 0), n ? "object destroyed while referenced" : "unreferenced object destroyed exactly once"); if (n) { sym_assert((int)obj[o]->use_count() == n, "use_count equals the number of references"); sym_assert(obj[o]->payload == 77, "object intact"); } } };
    unsigned init = sym_pick(4, "init"); p[0] = P(obj[0]); held[0] = 0; p[1].reset(obj[1]); held[1] = 1; if (init & 1) { p[2] = p[1]; held[2] = 1; } if (init & 2) { P t(p[0]); p[1] = t; held[1] = 0; } agree();
    for (int s = 0; s < 2 + TIER; s++) {
      unsigned op = sym_pick(13, "op"); if (op == 12) break; unsigned x = sym_pick(3, "x"), y = 0; if (op < 4 || op == 5) y = sym_pick(3, "y");
      switch (op) {
        case 0: p[x] = p[y]; held[x] = held[y]; break;
        case 1: p[x] = std::move(p[y]); { int h = held[y]; held[y] = -1; held[x] = h; } if (x == y) { held[x] = p[x] ? (p[x].get() == obj[0] ? 0 : 1) : -1; } break;
        case 2: p[x].swap(p[y]); std::swap(held[x], held[y]); break;
        case 3: { P c(p[y]); P d(std::move(c)); sym_assert(!c, "moved-from pointer is empty"); swap(d, p[x]); held[x] = held[y]; break; }
        case 4: p[x].reset(); held[x] = -1; break;
        case 5: p[x].reset(p[y].get()); held[x] = held[y]; break;
        case 6: { int h = held[x]; Base* r = p[x].detach(); sym_assert(r == (h < 0 ? nullptr : obj[h]), "detach returns the pointer"); held[x] = -1; if (h >= 0) { raw[h]++; agree(); intrusive_ptr_release(r); raw[h]--; } break; }
        case 7: { int h = held[x]; Base* r = p[x].detach(); held[x] = -1; p[x].reset(r, false); held[x] = h; break; }
        case 8: { int h = held[x]; if (h == 1) { PD d = dynamic_pointer_cast<Derived>(p[x]); sym_assert(d.get() == obj[1], "cast"); p[x] = d; PD e(std::move(d)); p[x] = std::move(e); sym_assert(!d, "moved"); P q(std::move(d)); } else if (h == 0) { PD d = dynamic_pointer_cast<Derived>(p[x]); sym_assert(!d, "failed cast is empty"); } break; }
        case 9: { if (held[x] == 1) { PD d = static_pointer_cast<Derived>(p[x]); P q(d); P r(std::move(d)); sym_assert(q == r && !d && q.get() == obj[1], "converting copy and move"); p[x] = r; } break; }
        case 10: { P q(p[x].get(), true); sym_assert(q == p[x], "equal"); sym_assert((q == nullptr) == (held[x] < 0), "compare to null"); break; }
        case 11: { std::unique_ptr<Base> u; p[x] = std::move(u); held[x] = -1; break; }
      }
      agree();
    }
  }
  sym_assert(dead[0] == 1 && dead[1] == 1 && sym_live() == live0, "every object destroyed exactly once at the end"); sym_reach("end");
}
ENTRY(u03_self) {
  dead[0] = dead[1] = born[0] = born[1] = 0; uint64_t live0 = sym_live();
  { P a(new Base(0)); P& r = a; unsigned k = sym_pick(4, "k");
    if (k == 0) a = r; else if (k == 1) a = std::move(r); else if (k == 2) a.swap(r); else a.reset(r.get());
    sym_assert(dead[0] == (a ? 0 : 1), "self operation neither destroys a referenced object nor leaks"); 
    if (k != 1) sym_assert(a && a->use_count() == 1, "self operation keeps the reference"); }
  sym_assert(dead[0] == 1, "destroyed once");
  { P a(new Base(0)); a->next = P(new Base(1)); dead[0] = dead[1] = 0; a = a->next; sym_assert(dead[0] == 1 && dead[1] == 0 && a->id == 1 && a->use_count() == 1, "assignment from a member of the old object"); }
  sym_assert(dead[1] == 1 && sym_live() == live0, "all destroyed once"); sym_reach("end");
}

ENTRY(u03_unique) {
  dead[0] = dead[1] = born[0] = born[1] = 0; uint64_t live0 = sym_live(); bool had = sym_bool("had"), has = sym_bool("has"), twice = sym_bool("twice");
  { P a, b; if (had) a = P(new Base(0)); if (sym_bool("shared")) b = a;
    { std::unique_ptr<Derived> u; if (has) u.reset(new Derived(1)); a = std::move(u); sym_assert(!u, "the unique pointer gives up its object"); if (twice) { std::unique_ptr<Base> v(std::move(u)); P c; c = std::move(v); sym_assert(!c, "nothing left to take"); } }
    sym_assert(!!a == has && dead[1] == 0, "the object taken over stays alive"); if (has) sym_assert(a->use_count() == 1 && a->payload == 77, "one reference"); sym_assert(dead[0] == (had && !b ? 1 : 0), "the old object is released"); }
  sym_assert(dead[0] == (int)had && dead[1] == (int)has && sym_live() == live0, "all destroyed once"); sym_reach("end");
}
