// Interface between a property harness and (a) the symbolic engine, (b) the native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi); // fresh input in [lo,hi]
int64_t  sym_i64(const char* name, int64_t lo, int64_t hi);
void     sym_assume(int c);
void     sym_assert(int c, const char* label);
uint64_t sym_pick(uint64_t v); // fork over all feasible values; returns a concrete one
void     sym_observe(const char* name, uint64_t v); // compared between engine and native run
void     sym_cover(const char* label);
int64_t  sym_live();   // live heap objects allocated by the program since the start
int      sym_engine(); // 1 in the engine, 0 natively
void     sym_trace(const char* name, uint64_t v); // debugging aid
void     harness_main();
}
// a symbolic input that is immediately enumerated (structure of the case)
static inline uint64_t pick_u(const char* n, uint64_t lo, uint64_t hi) { return sym_pick(sym_u64(n, lo, hi)); }
static inline int64_t  pick_i(const char* n, int64_t lo, int64_t hi) { return (int64_t)sym_pick((uint64_t)sym_i64(n, lo, hi)); }
#define CHECK(c, label) sym_assert((c) ? 1 : 0, label)
