/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t07_small": {"reach": ["ok", "refused", "freed"], "jobs": 4, "what": "task creation for every stack and private-data size with a 17-byte action and an allocator that returns exactly, more or less than asked for, or fails"},
  "t07_large": {"reach": ["ok", "refused", "freed"], "jobs": 4, "what": "the same with a 200-byte action"},
  "t07_aligned": {"reach": ["ok", "refused", "freed"], "jobs": 4, "what": "the same with an action that asks for 64-byte alignment"},
  "t07_run": {"reach": ["end"], "what": "private data, action and captured data keep their contents over a run that yields"}},
 "bounds": "both sizes: every 64-bit value; block returned by the allocator: any size up to 2^28 that is a multiple of 16; action objects of 17, 200 and 64-byte aligned 128 bytes; t07_run: private sizes 0..16 (thorough: 0..64)",
 "assumptions": ["the allocator returns one block with a 16-byte aligned top (S01)"]}
SPEC*/
#include <memory>
#include <functional>
#include <list>
#include "sym.h"
#include <libcopp/stack/stack_allocator.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcotask/task.h>
using namespace copp;
using namespace cotask;
typedef unsigned __int128 big;
static size_t g_size; static int g_mode, g_out; static char* g_base;
struct Reg {
  void allocate(stack_context& c, size_t s) LIBCOPP_MACRO_NOEXCEPT { if (g_mode == 0 || s > (1ull << 28)) { c.sp = nullptr; return; }
    size_t z = g_mode != 2 ? s : (size_t)sym_range(1, 1ull << 24, "blocksize") * 16; z = (z + 15) & ~(size_t)15; if (g_mode == 1) { size_t y = (size_t)sym_range(0, 1ull << 28, "size"); sym_assume(y == z); z = y; } g_base = (char*)malloc(z); g_size = z; c.sp = g_base + z; c.size = z; g_out++; }
  void deallocate(stack_context& c) LIBCOPP_MACRO_NOEXCEPT { sym_assert(g_out == 1 && (char*)c.sp == g_base + g_size && c.size == g_size, "exactly the allocated stack is released"); g_out--; free(g_base); }
};
struct macro_t { typedef Reg stack_allocator_type; typedef coroutine_context_container<Reg> coroutine_type; typedef int value_type; using stack_allocator_t = Reg; using coroutine_t = coroutine_type; };
typedef task<macro_t> T;
static int g_live, g_copies, g_runs; static const void* g_act;
template <int N> struct Fn { alignas(N == 128 ? 64 : 1) char d[N]; explicit Fn(char c) { memset(d, c, N); g_live++; } Fn(const Fn& o) { memcpy(d, o.d, N); g_live++; } Fn(Fn&& o) { memcpy(d, o.d, N); g_live++; } ~Fn() { g_live--; }
  int operator()(void* p) { g_runs++; g_act = this; if (p) this_task_run(); return d[0]; } void this_task_run() { char* b = (char*)T::this_task()->get_private_buffer(); b[0]++; for (int i = 0; i < N; i++) sym_assert(d[i] == d[0], "the action's data is intact"); T::this_task()->yield(nullptr); for (int i = 0; i < N; i++) sym_assert(d[i] == d[0], "the action's data is intact after a suspension"); b[0]++; } };
static bool inside(const void* pp, size_t n) { const char* p = (const char*)pp; return (p >= g_base) & (n <= g_size) & ((size_t)(p - g_base) <= g_size - n); }
static bool apart(const void* a, size_t n, const void* b, size_t k) { return ((const char*)a + n <= (const char*)b) | ((const char*)b + k <= (const char*)a); }
template <int N> static void sizes() {
  g_out = g_live = g_runs = 0; size_t stk = (size_t)sym_bits(64, "stack"), priv = (size_t)sym_bits(64, "private"); Reg al; vx_ctx_top = nullptr; vx_stack_rlimit = 8 << 20;
  { g_mode = 3; T::create(+[](void*) { return 0; }, al, (size_t)65536, (size_t)0); } uint64_t live0 = sym_live();
  g_mode = (int)sym_pick(3, "allocator");
  { Fn<N> f('x'); T::ptr_type t = T::create(f, al, stk, priv);
    if (!t) { sym_reach("refused"); sym_assert(g_out == 0 && sym_live() == live0 && g_live == 1, "a refused creation leaks nothing"); if (g_mode == 1 && stk && stk <= (1ull << 28)) sym_assert((big)priv + N + sizeof(T) + 4096 > stk, "a possible creation is refused"); return; }
    sym_reach("ok"); sym_assert(g_live == 2 & g_out == 1, "one action is made");
    auto* co = t->get_coroutine_context().get(); typedef std::remove_pointer_t<decltype(co)> Co; impl::task_action_impl* a = t->get_raw_action(); char* pr = (char*)t->get_private_buffer(); size_t ps = t->get_private_buffer_size(); const size_t asz = sizeof(task_action_functor<Fn<N>>);
    sym_assert(ps >= priv & ps < (1ull << 40), "private data area is at least as large as requested"); sym_assert(inside(pr, ps) & inside(t.get(), sizeof(T)) & inside(a, asz) & inside(co, sizeof(Co)), "everything lies inside the stack");
    char *top = (char*)vx_ctx_top, *bot = top - vx_ctx_size; sym_assert(inside(bot, vx_ctx_size), "run stack lies inside the stack");
    sym_assert(apart(pr, ps, t.get(), sizeof(T)) & apart(pr, ps, a, asz) & apart(pr, ps, co, sizeof(Co)) & apart(pr, ps, bot, vx_ctx_size), "private data overlaps nothing");
    sym_assert(apart(t.get(), sizeof(T), a, asz) & apart(t.get(), sizeof(T), co, sizeof(Co)) & apart(a, asz, co, sizeof(Co)), "task, action and coroutine objects are disjoint");
    sym_assert(apart(t.get(), sizeof(T), bot, vx_ctx_size) & apart(a, asz, bot, vx_ctx_size) & apart(co, sizeof(Co), bot, vx_ctx_size), "the run stack overlaps no object");
    sym_assert((((uintptr_t)t.get() | (uintptr_t)a | (uintptr_t)co) & 15) == 0 & ((uintptr_t)a & (alignof(task_action_functor<Fn<N>>) - 1)) == 0 & ((uintptr_t)pr & 7) == 0, "alignment"); }
  sym_assert(g_out == 0 & sym_live() == live0 & g_live == 0 & g_runs == 0, "everything is released with the task"); sym_reach("freed");
}
ENTRY(t07_small) { sizes<17>(); }
ENTRY(t07_large) { sizes<200>(); }
ENTRY(t07_aligned) { sizes<128>(); }
template <int N> static void runs() {
  g_out = g_live = g_runs = 0; g_mode = 3; size_t np = sym_pick(17 + 48 * TIER, "private"); Reg al; char v = (char)sym_bits(7, "v"), c = (char)sym_bits(7, "c"); bool kill = sym_bool("kill");
#ifdef LSYM
  size_t stk = 4096;
#else
  size_t stk = 65536;
#endif
  { T::ptr_type t; { Fn<N> f(c); t = T::create(f, al, stk, np); } sym_assert((bool)t && t->get_private_buffer_size() >= np, "created"); char* b = (char*)t->get_private_buffer(); for (size_t i = 0; i < np; i++) b[i] = (char)(v + i);
    sym_assert(t->start(np ? (void*)b : nullptr) == 0, "started"); sym_assert(g_act != nullptr && inside(g_act, N), "the action runs where it was made"); uint64_t id = t->get_id(); if (np) { sym_assert(!t->is_completed() && b[0] == (char)(v + 1), "suspended"); if (kill) t->kill(); else sym_assert(t->resume(nullptr) == 0, "resumed"); }
    sym_assert(t->is_completed() && t->get_ret_code() == c && g_runs == 1 && t->get_id() == id, "ended"); for (size_t i = 0; i < np; i++) sym_assert(b[i] == (char)(v + i + (i ? 0 : 2)), "private data intact"); sym_assert(g_live == 1, "the action lives as long as the task"); }
  sym_assert(g_out == 0 && g_live == 0, "released"); sym_reach("end");
}
ENTRY(t07_run) { if (sym_bool("large")) runs<200>(); else runs<17>(); }
