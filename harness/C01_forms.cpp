/*SPEC
{"libs": ["copp"],
 "entries": {
  "c01_forms": {"reach": ["end", "yielded", "dropped", "refused set"], "what": "every way to give a coroutine its function, set_runner at every state"},
  "c01_empty": {"reach": ["end", "set later", "never"], "what": "every way to create a coroutine without a function, with the function set later"}},
 "bounds": "c01_forms, c01_empty: 8 ways to create; every 64-bit argument and 32-bit result; one suspension"}
SPEC*/
#include "sym.h"
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/stack/stack_allocator.h>
using namespace copp;
#ifdef LSYM
static const size_t STK = 8192;
#else
static const size_t STK = 256 * 1024;
#endif
static int g_out, g_live, g_bad;
struct Reg {
  void allocate(stack_context& c, size_t s) LIBCOPP_MACRO_NOEXCEPT { c.sp = (char*)malloc(s) + s; c.size = s; g_out++; }
  void deallocate(stack_context& c) LIBCOPP_MACRO_NOEXCEPT { free((char*)c.sp - c.size); g_out--; }
};
typedef coroutine_context_container<Reg> Co;
static int g_runs, g_ret, g_other; static void *g_in, *g_self, *g_got, *g_co; static bool g_yield;
static int common(void* p, void* self) { g_runs++; g_in = p; g_self = self; g_co = this_coroutine::get_coroutine(); if (g_yield) this_coroutine::yield(&g_got); return g_ret; }
struct Fn { int operator()(void* p) { return common(p, this); } };
struct Cap { int m; Cap() : m(77) { g_live++; } Cap(const Cap& o) : m(77) { if (o.m != 77) g_bad++; g_live++; } Cap(Cap&& o) : m(77) { if (o.m != 77) g_bad++; g_live++; } ~Cap() { if (m != 77) g_bad++; m = 0; g_live--; } int operator()(void* p) { if (m != 77) g_bad++; return common(p, nullptr); } };
static int fp(void* p) { return common(p, nullptr); }
static int other(void*) { g_other++; return 0; }
static Fn g_fn[2];
struct Raw { char* mem; coroutine_context* c; };
static const size_t OBJ = (sizeof(coroutine_context) + 63) & ~(size_t)63;
static coroutine_context* raw(Raw& r, bool null, bool fun) {
  r.mem = (char*)malloc(STK); stack_context s; s.sp = r.mem + STK; s.size = STK; r.c = new (r.mem + STK - OBJ) coroutine_context();
  int e = fun ? coroutine_context::create(r.c, null ? coroutine_context::callback_type() : coroutine_context::callback_type(Cap()), s, OBJ, 0) : coroutine_context::create(r.c, null ? (Fn*)nullptr : &g_fn[1], s, OBJ, 0);
  sym_assert(e == 0, "a possible creation succeeds"); return r.c; }
static Co::ptr_type make(unsigned k, bool null) {
  Reg al;
  switch (k) {
    case 0: return Co::create(null ? Co::callback_type() : Co::callback_type(Cap()), al, STK);
    case 1: return Co::create(null ? Co::callback_type() : Co::callback_type(Cap()), STK);
    case 2: return Co::create(null ? (Fn*)nullptr : &g_fn[1], al, STK);
    case 3: return Co::create(null ? (Fn*)nullptr : &g_fn[1], STK);
    case 4: return Co::create(null ? (int (*)(void*))nullptr : &fp, al, STK);
    default: return Co::create(null ? (int (*)(void*))nullptr : &fp, STK);
  }
}
static void refuse(coroutine_context* c) { int o = g_other, r = g_runs; sym_assert(c->set_runner(&other) < 0, "a function is replaced"); sym_assert(c->set_runner(coroutine_context::callback_type()) < 0, "a function is removed"); sym_assert(g_other == o && g_runs == r, "a refused set_runner runs something"); sym_reach("refused set"); }
static void drive(coroutine_context* c, unsigned k, bool set) {
  bool obj = !set && (k == 2 || k == 3 || k == 7); int e; void *a = (void*)(uintptr_t)sym_bits(64, "arg"), *b = (void*)(uintptr_t)sym_bits(64, "arg2");
  sym_assert(g_runs == 0, "the function runs before start"); sym_assert(!c->is_finished(), "finished before start"); refuse(c);
  e = c->start(a); sym_assert(e == 0, "a ready coroutine starts"); sym_assert(g_runs == 1, "the function runs once"); sym_assert(g_in == a, "the start value is passed"); sym_assert(g_co == c, "the function runs inside its coroutine"); sym_assert(g_self == (obj ? (void*)&g_fn[1] : nullptr), "the given object is called, not a copy");
  refuse(c);
  if (g_yield) { sym_reach("yielded"); sym_assert(!c->is_finished(), "a suspended coroutine is not finished"); if (sym_pick(2, "drop")) { sym_reach("dropped"); return; } e = c->resume(b); sym_assert(e == 0 && g_got == b, "resume passes its value"); refuse(c); }
  sym_assert(c->is_finished() && c->get_ret_code() == g_ret, "the result is the return code"); sym_assert(c->start(a) < 0 && g_runs == 1, "it runs again"); sym_assert(g_other == 0, "the refused function ran");
}
static void init() { g_out = g_live = g_bad = g_runs = g_other = 0; g_in = g_self = g_got = g_co = nullptr; g_ret = (int)sym_bits(32, "ret"); g_yield = sym_pick(2, "yield"); }
ENTRY(c01_forms) {
  init(); unsigned k = (unsigned)sym_pick(8, "form"); uint64_t live0 = sym_live();
  if (k < 6) { Co::ptr_type p = make(k, false); sym_assert(!!p, "created"); drive(p.get(), k, false); }
  else { Raw r; raw(r, false, k == 6); drive(r.c, k, false); r.c->~coroutine_context(); free(r.mem); }
  sym_assert(g_out == 0 && g_bad == 0 && sym_live() == live0, "stack or function is leaked or destroyed twice"); if (!g_yield) sym_assert(g_live == 0, "function copies are leaked"); sym_reach("end");
}
static void later(coroutine_context* c, unsigned k) {
  sym_assert(c->start(&g_in) < 0 && c->resume(&g_in) < 0, "a coroutine without a function starts"); sym_assert(c->set_runner(coroutine_context::callback_type()) < 0, "an empty function is accepted"); sym_assert(c->start() < 0 && !c->is_finished(), "a coroutine without a function starts");
  if (sym_pick(2, "never")) { sym_reach("never"); return; }
  sym_assert(c->set_runner(Cap()) == 0, "the first function is accepted"); sym_reach("set later"); drive(c, k, true);
}
ENTRY(c01_empty) {
  init(); unsigned k = (unsigned)sym_pick(8, "form"); uint64_t live0 = sym_live();
  if (k < 6) { Co::ptr_type p = make(k, true); sym_assert(!!p, "created"); later(p.get(), k); }
  else { Raw r; raw(r, true, k == 6); later(r.c, k); r.c->~coroutine_context(); free(r.mem); }
  sym_assert(g_out == 0 && g_bad == 0 && g_live == 0 && sym_live() == live0, "stack or function is leaked or destroyed twice"); sym_reach("end");
}
