// Native side of the harness API: replays the values found by the solver against a plain build of the real code.
// Input file: one "name width value" per line, consumed in creation order.  Exit status 0: ran to the end, 1: an assertion failed.
#include "../models/sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <new>
#include <ucontext.h>
#include <unistd.h>
#include <malloc.h>
#include <exception>
struct In { std::string n; unsigned w; uint64_t v; };
static std::vector<In>* g_in; static size_t g_pos; static bool g_trace; static bool g_exiting;
static uint64_t take(const char* name, unsigned w) {
  if (g_pos >= g_in->size()) { if (g_trace) printf("@DIVERGE %s (inputs exhausted)\n", name); return 0; }
  In& i = (*g_in)[g_pos++];
  if (i.n != name || i.w != w) { printf("@DIVERGE wanted %s/%u have %s/%u\n", name, w, i.n.c_str(), i.w); fflush(stdout); _exit(7); }
  return i.v;
}
static long g_live; static bool g_count = true;
struct Co { ucontext_t c, back; char* st; bool done; void (*f)(void*); void* a; };
static std::vector<Co*> g_co; static int g_cur = 0; static std::vector<int> g_res;
static void tramp() { Co* c = g_co[g_cur]; c->f(c->a); c->done = true; swapcontext(&c->c, &c->back); }
extern "C" {
uint64_t sx_sym(unsigned w, const char* n) { return take(n, w); }
int64_t sx_range(const char* n, int64_t lo, int64_t hi) { if (hi < lo) { printf("@ASSUME\n"); fflush(stdout); _exit(0); } uint64_t span = (uint64_t)hi - (uint64_t)lo; if (!span) return lo; unsigned w = 64 - __builtin_clzll(span); return lo + (int64_t)take(n, w); }
void sx_assume_(int c) { if (!c) { printf("@ASSUME\n"); fflush(stdout); _exit(0); } }
void sx_assert_(int c, const char* m) { if (!c) { printf("@FAIL %s\n", m); fflush(stdout); _exit(1); } }
void sx_reach(const char*) {} void sx_known(const char*) {}
void sx_observe(const char* t, uint64_t v) { if (g_trace) printf("@OBS %s %llu\n", t, (unsigned long long)v); }
uint64_t sx_concretize(uint64_t v) { return v; }
int64_t sx_param(const char* n, int64_t d) { std::string k = std::string("SXP_") + n; const char* e = getenv(k.c_str()); return e ? atoll(e) : d; }
int sx_is_symbolic() { return 0; } uint64_t sx_heap_live() { return (uint64_t)g_live; } void sx_kill() { printf("@ASSUME\n"); fflush(stdout); _exit(0); }
void sx_debug(const char* t, uint64_t v) { fprintf(stderr, "[sx] %s = %llu\n", t, (unsigned long long)v); }
int sx_spawn(void (*f)(void*), void* a) { bool k = g_count; g_count = false; Co* c = (Co*)malloc(sizeof(Co)); memset((void*)c, 0, sizeof *c); c->st = (char*)malloc(1 << 20); c->f = f; c->a = a; getcontext(&c->c); c->c.uc_stack.ss_sp = c->st; c->c.uc_stack.ss_size = 1 << 20; makecontext(&c->c, tramp, 0); if (g_co.empty()) g_co.push_back(nullptr); g_co.push_back(c); g_count = k; return (int)g_co.size() - 1; }
int sx_resume(int id) { Co* c = g_co[id]; if (c->done) return 1; g_res.push_back(g_cur); g_cur = id; swapcontext(&c->back, &c->c); g_cur = g_res.back(); g_res.pop_back(); return c->done; }
void sx_suspend() { Co* c = g_co[g_cur]; swapcontext(&c->c, &c->back); }
int sx_self() { return g_cur; }
int sx_file_write(const char* p, const char* d, unsigned long n) { FILE* f = fopen(p, "wb"); if (!f) return 0; fwrite(d, 1, n, f); fclose(f); return 1; }
void sx_on_exit(int) __attribute__((weak));
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); g_live++; return p; } void* operator new[](size_t n) { void* p = malloc(n ? n : 1); g_live++; return p; }
void operator delete(void* p) noexcept { if (p) g_live--; free(p); } void operator delete(void* p, size_t) noexcept { if (p) g_live--; free(p); } void operator delete[](void* p) noexcept { if (p) g_live--; free(p); } void operator delete[](void* p, size_t) noexcept { if (p) g_live--; free(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void* operator new(size_t n, std::align_val_t a) { void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) & ~((size_t)a - 1)); g_live++; return p; } void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); } void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
static void onexit(int code, void*) {
  if (g_exiting) return; g_exiting = true;
  if (g_trace) printf("@OBS #exit %u\n", (unsigned)code);
  if (sx_on_exit) sx_on_exit(code); else { printf("@FAIL process exit with status %d\n", code); fflush(stdout); _exit(1); }
  printf("@END\n"); fflush(stdout); _exit(0);
}
int main(int argc, char** argv) {
  g_in = new std::vector<In>(); g_trace = getenv("SX_TRACE") != nullptr;
  if (argc > 1) { FILE* f = fopen(argv[1], "r"); if (!f) return 9; char n[512]; unsigned w; unsigned long long v; while (fscanf(f, "%500s %u %llu", n, &w, &v) == 3) g_in->push_back({n, w, v}); fclose(f); }
  on_exit(onexit, nullptr); setvbuf(stdout, nullptr, _IOLBF, 0);
  std::set_terminate([] { printf("@FAIL std::terminate (uncaught exception)\n"); fflush(stdout); _exit(1); });
  alarm(getenv("SX_ALARM") ? atoi(getenv("SX_ALARM")) : 20);
  g_live = 0; sx_main(); g_exiting = true;
  if (g_trace) printf("@OBS #exit %llu\n", (unsigned long long)-1ull);
  printf("@END\n"); fflush(stdout); _exit(0);
}
