// Harness API of the symbolic executor.  Symbolic build: interpreted by sx.  Native build: sx/rt/native.cpp replays recorded inputs.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sx_sym(unsigned width, const char* name);                 // fresh unconstrained value of 1..64 bits
int64_t sx_range(const char* name, int64_t lo, int64_t hi);         // fresh value in [lo, hi]
void sx_assume_(int c);
void sx_assert_(int c, const char* msg);
void sx_reach(const char* tag);                                     // reachability witness (must be reached on some path)
void sx_known(const char* id);                                      // a known finding was hit
void sx_observe(const char* tag, uint64_t v);                       // value compared between engine and native replay
uint64_t sx_concretize(uint64_t v);                                 // split into one path per feasible value
int64_t sx_param(const char* name, int64_t dflt);                   // bound given by the check's tier
int sx_is_symbolic();
uint64_t sx_heap_live();                                            // live heap blocks
void sx_kill();                                                     // end the path (outside the stated bounds)
void sx_debug(const char* tag, uint64_t v);
int sx_spawn(void (*fn)(void*), void* arg);                         // coroutines
int sx_resume(int id);                                              // run until it suspends (0) or ends (1)
void sx_suspend();
int sx_self();
int sx_file_write(const char* path, const char* data, unsigned long n);
double sx_strtod(const char* p, char** end);
float sx_strtof(const char* p, char** end);
void sx_main();
void sx_on_exit(int code);
}
#define sx_assume(c) sx_assume_((c) ? 1 : 0)
#define sx_assert(c, m) sx_assert_((c) ? 1 : 0, m)
static inline void sx_fail(const char* m) { sx_assert_(0, m); }
static inline bool sx_bool(const char* n) { return sx_range(n, 0, 1) != 0; }
static inline double sx_double(const char* n) { uint64_t b = sx_sym(64, n); double d; __builtin_memcpy(&d, &b, 8); return d; }
