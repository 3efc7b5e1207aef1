// Harness interface.  Compiled to LLVM IR these functions are interpreted by the symbolic executor;
// compiled natively with -DSYM_REPLAY they read a counterexample's values, in order, from a file.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_u64(const char* name, unsigned bits); // fresh symbolic value of `bits` bits
void     sym_assume(bool c);
void     sym_assert(bool c, const char* msg);
uint64_t sym_choice(unsigned n, const char* name); // fresh symbolic value in [0,n), split eagerly
uint64_t sym_concretize(uint64_t v);               // split on every feasible value
int64_t  sym_param(unsigned i);                    // bound parameter from the command line
void     sym_cover(const char* name);              // vacuity witness
uint64_t sym_live(void);                           // live heap blocks
void     sym_thread(void (*fn)(void*), void* arg);
void     sym_join(void);
void     sym_yield(void);
uint64_t sym_held(void);                           // locks held by this thread
void     sym_print(const char* name, uint64_t v);
void     sym_main(void);
}
