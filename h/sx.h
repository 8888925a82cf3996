// Harness interface. In the symbolic build these are interpreted by symx; in the native build (SX_NATIVE) they read a
// replay file and check concretely.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
#include <string>
extern "C" {
int64_t sx_int(const char* name, int64_t lo, int64_t hi);     // symbolic integer in [lo,hi]
int64_t sx_choose(const char* name, int64_t lo, int64_t hi);  // symbolic integer, case-split by the solver into each feasible value
double sx_double(const char* name, double lo, double hi);     // symbolic IEEE double in [lo,hi]
void sx_assume(int c);
void sx_assert(int c, const char* msg);
void sx_fail(const char* msg);
void sx_out(const char* name, int64_t v);                     // observable value, cross-checked between symbolic and native runs
void sx_reach(const char* label);                             // reachability witness
int64_t sx_concretize(int64_t v);
int64_t sx_ite(int c, int64_t a, int64_t b);                  // branch-free selection
int sx_symbolic_run();
uint64_t sx_live_allocs();
uint64_t sx_live_bytes();                                     // heap bytes in use
}
#define HARNESS(name) extern "C" void name()
#ifdef SX_NOASSERT
#define sx_assert(c, msg) ((void)(c))
#endif
