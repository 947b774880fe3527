// Harness interface.  In the symbolic run these are interpreted by engine/lsym; in a native replay by rt/replay.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
uint64_t sym_bits(unsigned width, const char* name);                       // arbitrary width-bit value
uint64_t sym_range(uint64_t lo, uint64_t hi, const char* name);            // arbitrary value in [lo, hi]
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_reach(const char* tag);                                           // vacuity witness
void sym_note(const char* name, uint64_t v);
uint64_t sym_live(void);                                                   // number of live heap/mmap objects
uint32_t sym_isvalid(const void* p, uint64_t n);                           // [p,p+n) lies in one live, accessible object
uint64_t sym_concrete(uint64_t v);                                         // split on the value
uint64_t* sym_find(uint64_t v);                                             // the only writable global word that holds v now, or null
void sym_opt(uint32_t key, uint64_t v);                                    // 1: allocations may fail
// n <= 4 threads run body(0) .. body(n-1) until all have returned: at most `preemptions` switches away from a thread that could go on, `stale` atomic
// loads of older values and `spurious` failures of weak compare-exchanges per run
void sym_threads(unsigned n, void (*body)(unsigned), unsigned preemptions, unsigned stale, unsigned spurious);
unsigned sym_tid(void);
// environment overrides
extern long vx_page_size;
extern long vx_minsigstksz;                                               // sysconf(_SC_MINSIGSTKSZ)
extern void* vx_ctx_top; extern size_t vx_ctx_size;                          // arguments of the last context creation: it runs in [top-size, top)
extern long (*vx_time_fn)(void);                                             // if set, called for every reading of the clock
extern long vx_time;                                                       // what time() reads
extern long vx_stack_rlimit;                                               // -1: unlimited
}
static inline bool sym_bool(const char* n) { return sym_bits(1, n) != 0; }
static inline unsigned sym_pick(unsigned n, const char* name) { return (unsigned)sym_concrete(sym_range(0, n - 1, name)); }
#define ENTRY(x) extern "C" void x()
