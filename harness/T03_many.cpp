/*SPEC
{"libs": ["copp", "cotask"],
 "entries": {
  "t03_many": {"reach": ["end", "started", "resumed", "skipped", "twice", "late", "dropped", "killed"], "what": "one task with up to four (thorough: five) followers, each new, suspended, ended or listed twice, attached before, during or after the task's run; the task returns, is killed, or is dropped"}},
 "bounds": "t03_many: 4 (thorough: 5) followers with a yield each, 3 points of attaching"}
SPEC*/
#include "task.inc"
enum { NF = 4 + TIER };
static T::ptr_type A, F[NF]; static int steps[NF], order_[4 * NF], no, exp_[4 * NF], ne, ay, adone; static void* got[NF][2]; static int tok[NF][3];
struct FA : public impl::task_action_impl { int operator()(void*) override { for (int i = 0; i < ay; i++) T::this_task()->yield(nullptr); adone++; return 0; } };
struct FB : public impl::task_action_impl { int k; explicit FB(int i) : k(i) {} FB(const FB& o) : k(o.k) {} FB(FB&& o) : k(o.k) {} int operator()(void* p) override {
  sym_assert(steps[k] == 0, "a follower starts once"); steps[k] = 1; got[k][0] = p; order_[no++] = k; void* q = nullptr; T::this_task()->yield(&q); sym_assert(steps[k] == 1, "a follower is resumed once"); steps[k] = 2; got[k][1] = q; order_[no++] = k + 100; return 0; } };
// what a follower that is reached (at the end of A, or at once) does
static int fst[NF]; static void* want[NF][2];
static void reach_(int k, void* d) { if (fst[k] == 0) { fst[k] = 1; want[k][0] = d; exp_[ne++] = k; sym_reach("started"); } else if (fst[k] == 1) { fst[k] = 2; want[k][1] = d; exp_[ne++] = k + 100; sym_reach("resumed"); } else sym_reach("skipped"); }
struct Ent { int k; void* d; };
ENTRY(t03_many) {
  uint64_id_warm(); uint64_t live0 = sym_live(); no = ne = adone = 0; ay = (int)sym_pick(2, "yield"); A = T::create(FA(), STK, 0);
  int n = 2 + (int)sym_pick(NF - 1, "n"); Ent list[2 * NF]; int nl = 0; bool over = false;
  for (int k = 0; k < n; k++) { steps[k] = fst[k] = 0; got[k][0] = got[k][1] = want[k][0] = want[k][1] = nullptr; F[k] = T::create(FB(k), STK, 0); }
  // up to two followers are in another state already
  int o = (int)sym_pick(n + 1, "other"); if (o < n) { int how = (int)sym_pick(3, "state"); if (how == 0) { F[o]->start(&tok[o][2]); want[o][0] = &tok[o][2]; fst[o] = 1; exp_[ne++] = o; } else if (how == 1) { F[o]->start(&tok[o][2]); F[o]->resume(&tok[o][2]); want[o][0] = want[o][1] = &tok[o][2]; fst[o] = 2; exp_[ne++] = o; exp_[ne++] = o + 100; } else { F[o]->kill(); fst[o] = 2; exp_[ne++] = o; exp_[ne++] = o + 100; } }
  int twice = (int)sym_pick(n + 1, "twice"), split = (int)sym_pick(n + 1, "split");
  auto attach = [&](int k, void* d) { T::ptr_type r = A->next(F[k], d); sym_assert(r == F[k], "attached"); if (over) { sym_reach("late"); reach_(k, d); } else { list[nl].k = k; list[nl].d = d; nl++; } };
  auto agree = [&]() { sym_assert(no == ne, "every follower is reached exactly as often as it was attached"); for (int i = 0; i < no; i++) sym_assert(order_[i] == exp_[i], "followers go in the order they were attached"); for (int k = 0; k < n; k++) sym_assert((steps[k] == fst[k]) & (got[k][0] == want[k][0]) & (got[k][1] == want[k][1]), "a follower gets the data it was attached with"); };
  auto finish = [&]() { over = true; for (int i = 0; i < nl; i++) reach_(list[i].k, list[i].d); nl = 0; };
  for (int k = 0; k < split; k++) attach(k, &tok[k][0]); agree();
  int end = (int)sym_pick(3, "end");  // 0 returns, 1 killed, 2 dropped
  if (end != 2 || sym_pick(2, "started")) { if (!ay) finish(); A->start(nullptr); agree(); }
  if (ay || !over) { for (int k = split; k < n; k++) attach(k, &tok[k][0]); if (twice < n) { sym_reach("twice"); attach(twice, &tok[twice][1]); } agree();
    if (!over) { finish(); if (end == 2) { sym_reach("dropped"); A.reset(); } else if (end == 1) { sym_reach("killed"); A->kill(); } else if (A->get_status() == EN_TS_CREATED) A->start(nullptr); else A->resume(nullptr); agree(); } }
  else { for (int k = split; k < n; k++) attach(k, &tok[k][0]); if (twice < n) { sym_reach("twice"); attach(twice, &tok[twice][1]); } agree(); }
  A.reset(); for (int k = 0; k < n; k++) { sym_assert(F[k]->use_count() == 1, "no reference is left"); F[k].reset(); sym_assert(!(fst[k] == 1 && steps[k] != 2), "a dropped follower is brought to its end"); } sym_assert(sym_live() == live0, "nothing leaks"); sym_reach("end");
}
