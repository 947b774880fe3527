// Clocks and access records shared by the symbolic engine and the native replay of schedules.
#pragma once
#include <stdint.h>
#include <string.h>
enum { CC_MAX = 4, CC_MAIN = 4, CC_N = 5 };
struct CCVC { uint32_t c[CC_N]; CCVC() { memset(c, 0, sizeof c); } void join(const CCVC& o) { for (int i = 0; i < CC_N; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum { CC_W, CC_R, CC_AW, CC_AR };
struct CCSh {  // last access of each kind by each thread to each byte of one 8-byte word
  uint16_t k[4][CC_MAX][8]; CCSh() { memset(k, 0, sizeof k); }
  // -> kind*8+thread+1 of an access this one races with, or 0; records the access
  int access(int t, const CCVC& vc, int lo, int hi, int kind) {
    int bad = 0;
    for (int q = 0; q < 4; q++) {
      bool conflict = kind == CC_W ? true : kind == CC_R ? (q == CC_W || q == CC_AW) : kind == CC_AW ? (q == CC_W || q == CC_R) : q == CC_W;
      if (!conflict) continue;
      for (int u = 0; u < CC_MAX; u++) if (u != t) for (int b = lo; b < hi; b++) if (k[q][u][b] > vc.c[u]) bad = q * 8 + u + 1;
    }
    for (int b = lo; b < hi; b++) k[kind][t][b] = (uint16_t)vc.c[t];
    return bad;
  }
};
static inline bool ccAcq(int ord) { return ord >= 4 && ord != 5; }  // llvm::AtomicOrdering: 2 relaxed, 4 acquire, 5 release, 6 acq_rel, 7 seq_cst
static inline bool ccRel(int ord) { return ord >= 5; }
