/*SPEC
{"libs": [],
 "entries": {
  "p02_trivial": {"reach": ["end"], "what": "result of two trivial types of different sizes: create, copy, move, swap, self-assign"},
  "p02_heap": {"reach": ["end"], "what": "result with two non-trivial sides (shared storage), instance counting"},
  "p02_mixed": {"reach": ["end"], "what": "result with a trivial success and a non-trivial error side"},
  "p02_make": {"reach": ["end"], "what": "make_success/make_error instances of all variants, also as the value of a future"}},
 "bounds": "3 results, histories of 3 (thorough: 4) operations, all values symbolic",
 "assumptions": ["a result of two trivial types is used only after it was created through create_/make_ functions (its default construction is indeterminate by design)"]}
SPEC*/
#include <memory>
#include <utility>
#include <new>
#include "sym.h"
#include <libcopp/future/future.h>
using namespace copp::future;
#define skip() do { sym_assume(false); return; } while (0)
static int g_live_, g_double;
struct Wide { uint64_t a, b; };
template <int K> struct Cnt { uint64_t v; uint64_t magic; Cnt(uint64_t x) : v(x), magic(0x600d + K) { g_live_++; } Cnt(const Cnt& o) : v(o.v), magic(0x600d + K) { g_live_++; } ~Cnt() { if (magic != 0x600d + K) g_double++; magic = 0; g_live_--; } };
struct Ver { int side = -1; uint64_t v = 0, w = 0; };
template <class T> struct X;
template <> struct X<uint32_t> { static uint32_t mk(Ver& e) { uint32_t x = (uint32_t)sym_bits(32, "u32"); e.v = x; return x; } static bool ok(const uint32_t& t, const Ver& e) { return t == (uint32_t)e.v; } };
template <> struct X<Wide> { static Wide mk(Ver& e) { Wide x{sym_bits(64, "w1"), sym_bits(64, "w2")}; e.v = x.a; e.w = x.b; return x; } static bool ok(const Wide& t, const Ver& e) { return t.a == e.v && t.b == e.w; } };
template <int K> struct X<Cnt<K>> { static Cnt<K> mk(Ver& e) { e.v = sym_bits(64, "c"); return Cnt<K>(e.v); } static bool ok(const Cnt<K>& t, const Ver& e) { return t.v == e.v && t.magic == 0x600d + K; } };
template <class OK, class ER> static void chk(result_type<OK, ER>& r, const Ver& e, bool none) {
  const result_type<OK, ER>& c = r; sym_assert(r.is_success() == (e.side == 0) && r.is_error() == (e.side == 1), "side agrees with history");
  sym_assert((r.get_success() != nullptr) == (e.side == 0) && (c.get_success() != nullptr) == (e.side == 0) && (r.get_error() != nullptr) == (e.side == 1) && (c.get_error() != nullptr) == (e.side == 1), "only the current side is readable");
  if (e.side == 0) sym_assert(X<OK>::ok(*r.get_success(), e) && c.get_success() == r.get_success(), "success value kept"); if (e.side == 1) sym_assert(X<ER>::ok(*r.get_error(), e), "error value kept"); (void)none; }
template <class OK, class ER> static result_type<OK, ER> mk(Ver& e) { e = Ver(); if (sym_bool("side")) { ER x = X<ER>::mk(e); e.side = 1; return result_type<OK, ER>::create_error(x); } OK x = X<OK>::mk(e); e.side = 0; return result_type<OK, ER>::create_success(x); }
template <class OK, class ER, bool trivial> static void hist(int nobj) {
  g_live_ = g_double = 0; uint64_t live0 = sym_live(); typedef result_type<OK, ER> R;
  { Ver e[3]; R r[3] = {mk<OK, ER>(e[0]), mk<OK, ER>(e[1]), mk<OK, ER>(e[2])};
    auto agree = [&]() { int n = 0; for (int i = 0; i < 3; i++) { chk(r[i], e[i], !trivial); n += (e[i].side == 0 && (nobj & 1)) || (e[i].side == 1 && (nobj & 2)); } if (nobj) sym_assert(g_live_ == n && !g_double, "every stored value exists exactly once"); };
    agree();
    for (int s = 0; s < 2 + TIER; s++) { unsigned op = sym_pick(7, "op"); if (op == 6) break; unsigned x = s ? sym_pick(3, "x") : 0, y = 0; if (op < 3 || op == 5) { y = s ? sym_pick(3, "y") : sym_pick(2, "y"); }
      switch (op) {
        case 0: if (x == y) { R& q = r[x]; r[x] = std::move(q); if (!trivial && 0) e[x].side = -1; } else { r[x] = std::move(r[y]); e[x] = e[y]; if (!trivial) e[y] = Ver(); } break;
        case 1: { std::swap(r[x], r[y]); std::swap(e[x], e[y]); break; }
        case 2: { R t(std::move(r[y])); Ver te = e[y]; if (!trivial) { e[y] = Ver(); chk(r[y], e[y], true); } chk(t, te, !trivial); r[x] = std::move(t); e[x] = te; break; }
        case 5: swap(r[x], r[y]); std::swap(e[x], e[y]); break; // the library's own swap, found by argument-dependent lookup
        case 3: { Ver n; r[x] = mk<OK, ER>(n); e[x] = n; break; }
        case 4: if constexpr (trivial) { R c(r[x]); chk(c, e[x], false); R& q = r[x]; r[x] = q; r[(x + 1) % 3] = c; e[(x + 1) % 3] = e[x]; } else { R z; Ver ze; chk(z, ze, true); r[x] = std::move(z); e[x] = ze; } break; }
      agree(); } }
  sym_assert(g_live_ == 0 && !g_double && sym_live() == live0, "every value destroyed exactly once"); }
ENTRY(p02_trivial) { if (sym_bool("order")) hist<uint32_t, Wide, true>(0); else hist<Wide, uint32_t, true>(0); sym_reach("end"); }
ENTRY(p02_heap) { hist<Cnt<1>, Cnt<2>, false>(3); sym_reach("end"); }
ENTRY(p02_mixed) { if (sym_bool("order")) hist<uint32_t, Cnt<2>, false>(2); else hist<Cnt<1>, Wide, false>(1); sym_reach("end"); }
template <class OK, class ER> static void mkvar() {
  typedef result_type<OK, ER> R; g_live_ = g_double = 0; uint64_t live0 = sym_live();
  { Ver e; auto st = [&]() { if (sym_bool("side")) { e.side = 1; ER x = X<ER>::mk(e); return R::make_error(x); } e.side = 0; OK x = X<OK>::mk(e); return R::make_success(x); }();
    R* p; if constexpr (std::is_same<decltype(st), R>::value) p = &st; else p = st.get(); sym_assert(p != nullptr, "instance exists"); chk(*p, e, false);
    copp::future::future<R> f; f.reset_data(std::move(st)); sym_assert(f.is_ready() && f.data(), "future of the result is ready"); chk(*f.data(), e, false);
    copp::future::future<R> g; g.poll_data() = std::move(f.poll_data()); sym_assert(!f.is_ready() && g.is_ready(), "moved"); chk(*g.data(), e, false); g.reset_data(); sym_assert(!g.is_ready() && g_live_ == 0, "value destroyed by reset"); }
  sym_assert(g_live_ == 0 && !g_double && sym_live() == live0, "every value destroyed exactly once"); }
ENTRY(p02_make) { switch (sym_pick(4, "variant")) { case 0: mkvar<uint32_t, Wide>(); break; case 1: mkvar<Cnt<1>, Cnt<2>>(); break; case 2: mkvar<uint32_t, Cnt<2>>(); break; case 3: mkvar<Cnt<1>, uint32_t>(); break; } sym_reach("end"); }
