#include <functional>
// sx: runtime functions the executor interprets itself (allocation, exceptions, harness intrinsics, libm on constants).
#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
#include <cmath>
#include <cstdio>
using namespace llvm;
#define BI(name) static void name(Exec& X, State& S, DI& d)
static bool arg(Exec& X, State& S, DI& d, int i, u64& o) { return X.conc(S, d.ops[i], 0, d.opw[i], o); }

static void doMalloc(Exec& X, State& S, DI& d, u64 n, ObjKind k) {
  if (n > X.maxAlloc) { X.fail(S, "memory", "allocation of more than 64 MiB requested"); return; }
  X.ret(S, d, VC(X.newObj(S, n, k, true)));
}
BI(b_malloc) { u64 n; if (arg(X, S, d, 0, n)) doMalloc(X, S, d, n, K_MALLOC); }
BI(b_new) { u64 n; if (arg(X, S, d, 0, n)) doMalloc(X, S, d, n, K_NEW); }
BI(b_newa) { u64 n; if (arg(X, S, d, 0, n)) doMalloc(X, S, d, n, K_NEWA); }
BI(b_calloc) { u64 a, b; if (!arg(X, S, d, 0, a) || !arg(X, S, d, 1, b)) return; if (a * b > X.maxAlloc) { X.fail(S, "memory", "huge calloc"); return; } X.ret(S, d, VC(X.newObj(S, a * b, K_MALLOC, false))); }
static bool doFree(Exec& X, State& S, u64 p, ObjKind k) {
  if (!p) return true; u32 id = p >> 32; ObjEnt* e = S.mem.get(id);
  if (!e || (e->kind != K_MALLOC && e->kind != K_NEW && e->kind != K_NEWA)) { X.fail(S, "memory", "free of a pointer that is not from the heap"); return false; }
  if (!e->alive) { X.fail(S, "memory", "double free"); return false; }
  if ((u32)p) { X.fail(S, "memory", "free of an interior pointer"); return false; }
  if (e->kind != k) { X.fail(S, "memory", "allocation / deallocation mismatch"); return false; }
  S.mem.kill(id); S.mem.heapLive--; return true;
}
BI(b_free) { u64 p; if (arg(X, S, d, 0, p) && doFree(X, S, p, K_MALLOC)) X.ret(S, d, VC(0)); }
BI(b_del) { u64 p; if (arg(X, S, d, 0, p) && doFree(X, S, p, K_NEW)) X.ret(S, d, VC(0)); }
BI(b_dela) { u64 p; if (arg(X, S, d, 0, p) && doFree(X, S, p, K_NEWA)) X.ret(S, d, VC(0)); }
BI(b_realloc) { u64 p, n; if (!arg(X, S, d, 0, p) || !arg(X, S, d, 1, n)) return; u64 q = X.newObj(S, n, K_MALLOC, true);
  if (p) { ObjEnt* e = S.mem.get(p >> 32); if (!e || !e->alive) { X.fail(S, "memory", "realloc of dead pointer"); return; } u64 m = std::min<u64>(n, e->p->size); if (!X.copyMem(S, q, p, m)) return; if (!doFree(X, S, p, K_MALLOC)) return; }
  X.ret(S, d, VC(q)); }
BI(b_memcpy) { u64 a, b, n; if (!arg(X, S, d, 2, n) || !arg(X, S, d, 0, a) || !arg(X, S, d, 1, b)) return; if (X.copyMem(S, a, b, n)) X.ret(S, d, VC(a)); }
BI(b_memset) { u64 a, n; if (!arg(X, S, d, 2, n) || !arg(X, S, d, 0, a)) return; Val v = X.rd(S, d.ops[1]); if (v.e) { Expr* e = v.e; if (e->w > 8) e = eExtract(e, 0, 8); v = VE(e); } else v.c &= 255; if (X.setMem(S, a, v, n)) X.ret(S, d, VC(a)); }
BI(b_nop) { X.ret(S, d, VC(0)); }
BI(b_one) { X.ret(S, d, VC(1)); }
BI(b_retarg) { X.ret(S, d, X.rd(S, d.ops[0])); }
BI(b_abort) { X.fail(S, "abort", "abort() called"); }
BI(b_terminate) { X.fail(S, "abort", "std::terminate() called"); }
BI(b_assertfail) { std::string m; u64 p; if (!arg(X, S, d, 0, p)) return; if (X.cstr(S, p, m)) X.fail(S, "abort", "assertion failed: " + m); }
BI(b_exit) {
  u64 c; if (!arg(X, S, d, 0, c)) return;
  if (S.exiting) { S.exitCode = (int)c; X.finish(S); return; }
  Function* h = X.M->getFunction("sx_on_exit");
  if (!h || h->isDeclaration()) { X.fail(S, "exit", "process exit with status " + std::to_string((int)c)); return; }
  for (auto& t : S.th) { t.st.clear(); t.done = true; }
  S.cur = 0; S.th[0].done = false; S.exiting = true; S.exitCode = (int)c; S.pending.clear();
  X.pushCall(S, X.func(h), {VC(c & 0xffffffff)});
}
// ---- exceptions
BI(b_exalloc) { u64 n; if (!arg(X, S, d, 0, n)) return; u64 a = X.newObj(S, n, K_EXC, true); S.exc[a >> 32] = ExcInfo(); X.ret(S, d, VC(a)); }
BI(b_exfree) { u64 a; if (!arg(X, S, d, 0, a)) return; S.mem.kill(a >> 32); X.ret(S, d, VC(0)); }
BI(b_throw) { u64 e, t, dt; if (!arg(X, S, d, 0, e) || !arg(X, S, d, 1, t) || !arg(X, S, d, 2, dt)) return; ExcInfo& x = S.exc[e >> 32]; x.ti = t; x.dtor = dt; x.adj = e; x.handlers = 0; X.unwind(S, e); }
BI(b_begincatch) { u64 e; if (!arg(X, S, d, 0, e)) return; ExcInfo& x = S.exc[e >> 32]; x.handlers = (x.handlers < 0 ? -x.handlers : x.handlers) + 1; auto& c = S.th[S.cur].caught; if (c.empty() || c.back() != e) c.push_back(e); X.ret(S, d, VC(x.adj ? x.adj : e)); }
BI(b_endcatch) {
  auto& c = S.th[S.cur].caught; if (c.empty()) { X.unsup(S, "end_catch without a caught exception"); return; }
  u64 e = c.back(); ExcInfo& x = S.exc[e >> 32];
  if (x.handlers < 0) { if (++x.handlers == 0) c.pop_back(); X.ret(S, d, VC(0)); return; }
  if (--x.handlers > 0) { X.ret(S, d, VC(0)); return; }
  c.pop_back(); X.ret(S, d, VC(0));
  if (x.dtor) { auto it = X.funcByObj.find(x.dtor >> 32); if (it != X.funcByObj.end() && !it->second->F->isDeclaration()) { X.pushCall(S, it->second, {VC(e)}); S.fr().ignoreRet = true; S.fr().freeObj = e >> 32; return; } }
  S.mem.kill(e >> 32);
}
BI(b_rethrow) { auto& c = S.th[S.cur].caught; if (c.empty()) { X.fail(S, "abort", "rethrow without an active exception"); return; } u64 e = c.back(); S.exc[e >> 32].handlers = -S.exc[e >> 32].handlers; X.unwind(S, e); }
BI(b_guardacq) { u64 a; if (!arg(X, S, d, 0, a)) return; Val v; if (!X.loadV(S, a, 8, v)) return; X.ret(S, d, VC(v.c == 0)); }
BI(b_guardrel) { u64 a; if (!arg(X, S, d, 0, a)) return; if (!X.storeV(S, a, 8, VC(1))) return; X.ret(S, d, VC(0)); }
BI(b_purevirt) { X.fail(S, "abort", "pure virtual function called"); }
// ---- harness intrinsics
BI(x_sym) { u64 w, p; if (!arg(X, S, d, 0, w) || !arg(X, S, d, 1, p)) return; std::string n; if (!X.cstr(S, p, n)) return; Expr* v = X.fresh(S, (unsigned)w, n, true); X.ret(S, d, VE(w < 64 ? eZext(v, 64) : v)); }
BI(x_range) {
  u64 lo, hi, p; if (!arg(X, S, d, 0, p) || !arg(X, S, d, 1, lo) || !arg(X, S, d, 2, hi)) return; std::string n; if (!X.cstr(S, p, n)) return;
  if ((i64)hi < (i64)lo) { X.assumeKilled++; S.dead = true; return; }
  u64 span = hi - lo; if (span == 0) { X.ret(S, d, VC(lo)); return; }
  unsigned w = 64 - __builtin_clzll(span); Expr* v = X.fresh(S, w, n, true, span);
  if (span != maskw(w)) X.addC(S, EP.mk(E_ULE, 1, 0, v, eConst(span, w))); // built raw: the range itself would fold the bound away
  // model default 0 satisfies this
  X.ret(S, d, VE(eBin(E_ADD, w < 64 ? eZext(v, 64) : v, eConst(lo, 64))));
}
BI(x_assume) {
  Val v = X.rd(S, d.ops[0]); if (!v.e) { if (!(v.c & 1) && !v.c) { X.assumeKilled++; S.dead = true; return; } X.ret(S, d, VC(0)); return; }
  Expr* c = eNot(eCmp(E_EQ, v.e, eConst(0, v.e->w))); Evaluator E(*S.model);
  if (!E.ev(c)) { Model m; if (X.query(S, c, m) != SAT) { X.assumeKilled++; S.dead = true; return; } S.model = m; }
  X.addC(S, c); X.ret(S, d, VC(0));
}
BI(x_assert) {
  u64 p; if (!arg(X, S, d, 1, p)) return; Val v = X.rd(S, d.ops[0]); X.asserts++;
  if (!v.e) { if (v.c) { X.ret(S, d, VC(0)); return; } std::string m; if (X.cstr(S, p, m)) X.fail(S, "assert", m); return; }
  Expr* c = eNot(eCmp(E_EQ, v.e, eConst(0, v.e->w))); X.assertsSolver++;
  State* o; bool ok = X.branch(S, c, o);
  std::string m; if (!X.cstr(S, p, m)) return;
  if (ok) { if (o) { X.fail(*o, "assert", m); delete o; } X.ret(S, d, VC(0)); }
  else { if (o) { DI& dd = d; X.ret(*o, dd, VC(0)); X.work.push_back(o); } X.fail(S, "assert", m); }
}
BI(x_reach) { u64 p; if (!arg(X, S, d, 0, p)) return; std::string m; if (!X.cstr(S, p, m)) return; X.reached.insert(m); X.ret(S, d, VC(0)); }
BI(x_known) { u64 p; if (!arg(X, S, d, 0, p)) return; std::string m; if (!X.cstr(S, p, m)) return; X.knownHits.insert(m); X.ret(S, d, VC(0)); }
BI(x_observe) { u64 p; if (!arg(X, S, d, 0, p)) return; std::string m; if (!X.cstr(S, p, m)) return; S.obs.push_back({m, toE(X.rd(S, d.ops[1]), 64)}); X.ret(S, d, VC(0)); }
BI(x_conc) { u64 v; if (!arg(X, S, d, 0, v)) return; X.ret(S, d, VC(v)); }
BI(x_param) { u64 p; if (!arg(X, S, d, 0, p)) return; std::string m; if (!X.cstr(S, p, m)) return; auto it = X.params.find(m); X.ret(S, d, it == X.params.end() ? X.rd(S, d.ops[1]) : VC((u64)it->second)); }
BI(x_issym) { X.ret(S, d, VC(1)); }
BI(x_heap) { X.ret(S, d, VC(S.mem.heapLive)); }
BI(x_kill) { X.assumeKilled++; S.dead = true; }
BI(x_debug) { u64 p; if (!arg(X, S, d, 0, p)) return; std::string m; if (!X.cstr(S, p, m)) return; Val v = X.rd(S, d.ops[1]); fprintf(stderr, "[sx] %s = %s\n", m.c_str(), v.e ? eStr(v.e, 8).c_str() : std::to_string((long long)v.c).c_str()); X.ret(S, d, VC(0)); }
BI(x_spawn) { u64 f, a; if (!arg(X, S, d, 0, f) || !arg(X, S, d, 1, a)) return; auto it = X.funcByObj.find(f >> 32); if (it == X.funcByObj.end()) { X.unsup(S, "spawn of a wild pointer"); return; }
  int me = S.cur; S.th.emplace_back(); int t = S.th.size() - 1; S.cur = t; X.pushCall(S, it->second, {VC(a)}); S.cur = me; X.ret(S, d, VC((u64)t)); }
BI(x_resume) { u64 t; if (!arg(X, S, d, 0, t)) return; t &= 0xffffffff; if (t >= S.th.size()) { X.unsup(S, "resume of unknown coroutine"); return; } if (S.th[t].done) { X.ret(S, d, VC(1)); return; } S.th[t].resumer = S.cur; S.cur = (int)t; }
BI(x_suspend) { if (S.cur == 0) { X.unsup(S, "suspend outside a coroutine"); return; } X.ret(S, d, VC(0)); S.cur = S.th[S.cur].resumer; Frame& f = S.fr(); DI& r = f.f->bl[f.blk].is[f.pc]; X.ret(S, r, VC(0)); }
BI(x_self) { X.ret(S, d, VC((u64)S.cur)); }
BI(x_fmtdouble) { // int sx_fmt_double(char* buf, unsigned cap, double v, const char* fmt)
  u64 b, cap, v, fp; if (!arg(X, S, d, 0, b) || !arg(X, S, d, 1, cap) || !arg(X, S, d, 3, fp)) return; std::string fm; if (!X.cstr(S, fp, fm)) return;
  Val dv = X.rd(S, d.ops[2]); char t[512]; if (dv.e) snprintf(t, 512, "<sym>"); else { v = dv.c; snprintf(t, 512, fm.c_str(), bits2d(v)); }
  size_t n = strlen(t); for (size_t i = 0; i <= n && i < cap; i++) if (!X.storeV(S, b + i, 8, VC((uint8_t)t[i]))) return; X.ret(S, d, VC(n)); }
BI(x_strtod) { u64 p, e; if (!arg(X, S, d, 0, p) || !arg(X, S, d, 1, e)) return; std::string s; if (!X.cstr(S, p, s)) return; char* end; double v = strtod(s.c_str(), &end); if (e && !X.storeV(S, e, 64, VC(p + (end - s.c_str())))) return; X.ret(S, d, VC(d2bits(v))); }
BI(x_strtof) { u64 p, e; if (!arg(X, S, d, 0, p) || !arg(X, S, d, 1, e)) return; std::string s; if (!X.cstr(S, p, s)) return; char* end; float v = strtof(s.c_str(), &end); if (e && !X.storeV(S, e, 64, VC(p + (end - s.c_str())))) return; X.ret(S, d, VC(f2bits(v))); }
static bool fmtv(Exec& X, State& S, u64 fp, const std::function<bool(unsigned&, u64&)>& next, std::string& out) {
  std::string fm; if (!X.cstr(S, fp, fm)) return false;
  for (size_t i = 0; i < fm.size();) {
    if (fm[i] != '%') { out += fm[i++]; continue; }
    if (i + 1 < fm.size() && fm[i + 1] == '%') { out += '%'; i += 2; continue; }
    size_t j = i + 1; std::string spec = "%"; bool lng = false, half = false; unsigned w; u64 v;
    while (j < fm.size() && !strchr("diuxXocsfFgeGEpaA", fm[j])) { if (fm[j] == '*') { if (!next(w, v)) return false; spec += std::to_string((int)v); } else if (strchr("lzjtL", fm[j])) lng = true; else if (fm[j] == 'h') half = true; else spec += fm[j]; j++; }
    char cv = j < fm.size() ? fm[j] : 'd'; char t[1024]; if (!next(w, v)) return false; (void)half; if (strchr("diuxXo", cv) && !lng) v = sext64(v & 0xffffffff, 32);
    if (cv == 's') { std::string s; if (!X.cstr(S, v, s)) return false; snprintf(t, 1024, (spec + "s").c_str(), s.c_str()); }
    else if (strchr("fFgeGEaA", cv)) snprintf(t, 1024, (spec + cv).c_str(), bits2d(v));
    else if (cv == 'c') snprintf(t, 1024, (spec + "c").c_str(), (int)v);
    else if (cv == 'd' || cv == 'i') snprintf(t, 1024, (spec + "lld").c_str(), (long long)v);
    else if (cv == 'p') snprintf(t, 1024, "0x%llx", (unsigned long long)v);
    else { if (!lng) v &= 0xffffffff; snprintf(t, 1024, (spec + "ll" + cv).c_str(), (unsigned long long)v); }
    out += t; i = j + 1;
  }
  return true;
}
static bool putOut(Exec& X, State& S, u64 b, u64 cap, const std::string& out) { for (size_t i = 0; i < cap; i++) { bool last = i + 1 == cap || i == out.size(); if (!X.storeV(S, b + i, 8, VC(last ? 0 : (uint8_t)out[i]))) return false; if (last) break; } return true; }
BI(b_snprintf) {
  u64 b, cap, fp; if (!arg(X, S, d, 0, b) || !arg(X, S, d, 1, cap) || !arg(X, S, d, 2, fp)) return; size_t ai = 3; std::string out;
  auto next = [&](unsigned& w, u64& v) { if (ai >= d.ops.size() || d.ops[ai].slot < -1) { X.unsup(S, "snprintf arguments"); return false; } w = d.opw[ai]; return arg(X, S, d, ai++, v); };
  if (fmtv(X, S, fp, next, out) && putOut(X, S, b, cap, out)) X.ret(S, d, VC(out.size() & 0xffffffff));
}
BI(b_vsnprintf) { // the va_list of rd() below: gp and fp areas are exhausted, so every argument is in the overflow area
  u64 b, cap, fp, ap; if (!arg(X, S, d, 0, b) || !arg(X, S, d, 1, cap) || !arg(X, S, d, 2, fp) || !arg(X, S, d, 3, ap)) return; Val p; if (!X.loadV(S, ap + 8, 64, p) || p.e) { X.unsup(S, "symbolic va_list"); return; } u64 q = p.c; std::string out;
  auto next = [&](unsigned& w, u64& v) { Val x; if (!X.loadV(S, q, 64, x)) return false; if (x.e) { X.unsup(S, "symbolic variable argument"); return false; } q += 8; w = 64; v = x.c; return true; };
  if (fmtv(X, S, fp, next, out) && putOut(X, S, b, cap, out)) X.ret(S, d, VC(out.size() & 0xffffffff));
}
BI(b_dyncast) { // __dynamic_cast(object, static type, target type, hint)
  u64 o, t; if (!arg(X, S, d, 0, o) || !arg(X, S, d, 2, t)) return; Val vp, top, ti; if (!X.loadV(S, o, 64, vp)) return; if (vp.e) { X.unsup(S, "symbolic vtable pointer"); return; }
  if (!X.loadV(S, vp.c - 16, 64, top) || !X.loadV(S, vp.c - 8, 64, ti)) return; u64 off = 0; X.ret(S, d, VC(X.catches(t, ti.c, off) ? o + top.c + off : 0));
}
typedef double (*D1)(double); typedef double (*D2)(double, double);
template <D1 F> static void m1(Exec& X, State& S, DI& d) { u64 v; if (!arg(X, S, d, 0, v)) return; X.ret(S, d, VC(d2bits(F(bits2d(v))))); }
template <D2 F> static void m2(Exec& X, State& S, DI& d) { u64 v, w; if (!arg(X, S, d, 0, v) || !arg(X, S, d, 1, w)) return; X.ret(S, d, VC(d2bits(F(bits2d(v), bits2d(w))))); }
BI(b_sqrt) { X.ret(S, d, VE(eF(E_FSQRT, d.opw[0], toE(X.rd(S, d.ops[0]), d.opw[0])))); }
BI(b_fabs) { unsigned w = d.opw[0]; X.ret(S, d, VE(eBin(E_AND, toE(X.rd(S, d.ops[0]), w), eConst(maskw(w) >> 1, w)))); }

Builtin findBuiltin(const std::string& n) {
  static const std::unordered_map<std::string, Builtin> T = {
    {"malloc", b_malloc}, {"_Znwm", b_new}, {"_Znam", b_newa}, {"_ZnwmSt11align_val_t", b_new}, {"_ZnamSt11align_val_t", b_newa}, {"_ZnwmRKSt9nothrow_t", b_new}, {"_ZnamRKSt9nothrow_t", b_newa}, {"aligned_alloc", nullptr},
    {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free}, {"_ZdlPv", b_del}, {"_ZdlPvm", b_del}, {"_ZdlPvRKSt9nothrow_t", b_del}, {"_ZdaPv", b_dela}, {"_ZdaPvm", b_dela}, {"_ZdaPvRKSt9nothrow_t", b_dela}, {"_ZdlPvSt11align_val_t", b_del}, {"_ZdlPvmSt11align_val_t", b_del}, {"_ZdaPvmSt11align_val_t", b_dela}, {"_ZdaPvSt11align_val_t", b_dela},
    {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset},
    {"abort", b_abort}, {"_ZSt9terminatev", b_terminate}, {"__assert_fail", b_assertfail}, {"exit", b_exit}, {"_exit", b_exit}, {"_Exit", b_exit}, {"quick_exit", b_exit},
    {"__cxa_allocate_exception", b_exalloc}, {"__cxa_free_exception", b_exfree}, {"__cxa_throw", b_throw}, {"__cxa_begin_catch", b_begincatch}, {"__cxa_end_catch", b_endcatch}, {"__cxa_rethrow", b_rethrow}, {"__cxa_get_exception_ptr", b_retarg},
    {"__cxa_guard_acquire", b_guardacq}, {"__cxa_guard_release", b_guardrel}, {"__cxa_guard_abort", b_nop}, {"__cxa_atexit", b_nop}, {"atexit", b_nop}, {"__cxa_pure_virtual", b_purevirt}, {"__cxa_deleted_virtual", b_purevirt}, {"_ZSt19uncaught_exceptionsv", b_nop}, {"_ZSt18uncaught_exceptionv", b_nop}, {"__cxa_thread_atexit", b_nop},
    {"sx_sym", x_sym}, {"sx_range", x_range}, {"sx_assume_", x_assume}, {"sx_assert_", x_assert}, {"sx_reach", x_reach}, {"sx_known", x_known}, {"sx_observe", x_observe}, {"sx_concretize", x_conc}, {"sx_param", x_param}, {"sx_is_symbolic", x_issym}, {"sx_heap_live", x_heap}, {"sx_kill", x_kill}, {"sx_debug", x_debug},
    {"sx_spawn", x_spawn}, {"sx_resume", x_resume}, {"sx_suspend", x_suspend}, {"sx_self", x_self}, {"sx_fmt_double", x_fmtdouble}, {"sx_strtod", x_strtod}, {"sx_strtof", x_strtof},
    {"snprintf", b_snprintf}, {"vsnprintf", b_vsnprintf}, {"__dynamic_cast", b_dyncast}, {"printf", b_nop}, {"puts", b_nop}, {"putchar", b_nop}, {"fprintf", b_nop}, {"fputs", b_nop}, {"fputc", b_nop}, {"putc", b_nop}, {"fflush", b_nop}, {"fwrite", b_nop}, {"perror", b_nop}, {"vprintf", b_nop}, {"setvbuf", b_nop},
    {"sqrt", b_sqrt}, {"fabs", b_fabs}, {"sqrtf", b_sqrt}, {"fabsf", b_fabs},
    {"pow", m2<std::pow>}, {"exp", m1<std::exp>}, {"log", m1<std::log>}, {"log2", m1<std::log2>}, {"log10", m1<std::log10>}, {"sin", m1<std::sin>}, {"cos", m1<std::cos>}, {"tan", m1<std::tan>}, {"floor", m1<std::floor>}, {"ceil", m1<std::ceil>}, {"round", m1<std::round>}, {"trunc", m1<std::trunc>}, {"atan2", m2<std::atan2>}, {"hypot", m2<std::hypot>}, {"fmod", m2<std::fmod>}, {"exp2", m1<std::exp2>},
    {"sched_yield", b_nop}, {"usleep", b_nop}, {"sleep", b_nop}, {"srand", b_nop}, {"__sx_true", b_one}, {"fsync", b_nop},
  };
  auto it = T.find(n); return it == T.end() ? nullptr : it->second;
}

void runIntrinsic(Exec& X, State& S, DI& d) {
  auto A = [&](int i, u32 k = 0) { return X.rd(S, d.ops[i], k); };
  unsigned w = d.w2;
  auto R1 = [&](auto fn) { for (u32 i = 0; i < d.nd; i++) X.wr(S, d.dst + i, fn(i)); X.advance(S, d); };
  switch (d.iid) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 a, b, n; if (!arg(X, S, d, 2, n) || !arg(X, S, d, 0, a) || !arg(X, S, d, 1, b)) return; if (X.copyMem(S, a, b, n)) X.advance(S, d); return; }
    case Intrinsic::memset: { u64 a, n; if (!arg(X, S, d, 2, n) || !arg(X, S, d, 0, a)) return; if (X.setMem(S, a, A(1), n)) X.advance(S, d); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation: X.advance(S, d); return;
    case Intrinsic::vastart: { u64 a; if (!arg(X, S, d, 0, a)) return; if (X.storeV(S, a, 32, VC(48)) && X.storeV(S, a + 4, 32, VC(176)) && X.storeV(S, a + 8, 64, VC(S.fr().va)) && X.storeV(S, a + 16, 64, VC(0))) X.advance(S, d); return; }
    case Intrinsic::vaend: X.advance(S, d); return;
    case Intrinsic::vacopy: { u64 a, b; if (!arg(X, S, d, 0, a) || !arg(X, S, d, 1, b)) return; if (X.copyMem(S, a, b, 24)) X.advance(S, d); return; }
    case Intrinsic::stacksave: X.ret(S, d, VC(0)); return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: R1([&](u32 i) { return A(0, i); }); return;
    case Intrinsic::is_constant: X.ret(S, d, VC(0)); return;
    case Intrinsic::objectsize: X.ret(S, d, VC(maskw(d.w))); return;
    case Intrinsic::eh_typeid_for: { Val v = A(0); X.ret(S, d, VC(v.c ? (v.c >> 32) & 0xffffffff : 0x7fffffff)); return; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: X.fail(S, "abort", "trap"); return;
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      if (w > 64) { X.unsup(S, "wide overflow intrinsic"); return; }
      bool sg = d.iid == Intrinsic::sadd_with_overflow || d.iid == Intrinsic::ssub_with_overflow || d.iid == Intrinsic::smul_with_overflow;
      EOp o = (d.iid == Intrinsic::uadd_with_overflow || d.iid == Intrinsic::sadd_with_overflow) ? E_ADD : (d.iid == Intrinsic::usub_with_overflow || d.iid == Intrinsic::ssub_with_overflow) ? E_SUB : E_MUL;
      Expr *x = toE(A(0), w), *y = toE(A(1), w); Expr* r = eBin(o, x, y); unsigned ww = o == E_MUL ? 2 * w : w + 1;
      Expr* W = sg ? eBin(o, eSext(x, ww), eSext(y, ww)) : eBin(o, eZext(x, ww), eZext(y, ww)); Expr* back = sg ? eSext(r, ww) : eZext(r, ww);
      X.wr(S, d.dst, VE(r)); X.wr(S, d.dst + 1, VE(eNot(eCmp(E_EQ, W, back)))); X.advance(S, d); return; }
    case Intrinsic::usub_sat: R1([&](u32 i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); return VE(eIte(eCmp(E_ULT, x, y), eConst(0, w), eBin(E_SUB, x, y))); }); return;
    case Intrinsic::uadd_sat: R1([&](u32 i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); Expr* r = eBin(E_ADD, x, y); return VE(eIte(eCmp(E_ULT, r, x), eConst(maskw(w), w), r)); }); return;
    case Intrinsic::umax: R1([&](u32 i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); return VE(eIte(eCmp(E_ULT, x, y), y, x)); }); return;
    case Intrinsic::umin: R1([&](u32 i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); return VE(eIte(eCmp(E_ULT, x, y), x, y)); }); return;
    case Intrinsic::smax: R1([&](u32 i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); return VE(eIte(eCmp(E_SLT, x, y), y, x)); }); return;
    case Intrinsic::smin: R1([&](u32 i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); return VE(eIte(eCmp(E_SLT, x, y), x, y)); }); return;
    case Intrinsic::abs: R1([&](u32 i) { Expr* x = toE(A(0, i), w); return VE(eIte(eCmp(E_SLT, x, eConst(0, w)), eBin(E_SUB, eConst(0, w), x), x)); }); return;
    case Intrinsic::ctpop: R1([&](u32 i) { Expr* x = toE(A(0, i), w); Expr* s = eConst(0, w); for (unsigned b = 0; b < w; b++) { Expr* t = eExtract(x, b, 1); s = eBin(E_ADD, s, w > 1 ? eZext(t, w) : t); } return VE(s); }); return;
    case Intrinsic::ctlz: R1([&](u32 i) { Expr* x = toE(A(0, i), w); Expr* s = eConst(w, w); for (unsigned b = 0; b < w; b++) s = eIte(eExtract(x, b, 1), eConst(w - 1 - b, w), s); return VE(s); }); return;
    case Intrinsic::cttz: R1([&](u32 i) { Expr* x = toE(A(0, i), w); Expr* s = eConst(w, w); for (int b = w - 1; b >= 0; b--) s = eIte(eExtract(x, b, 1), eConst(b, w), s); return VE(s); }); return;
    case Intrinsic::bswap: R1([&](u32 i) { Expr* x = toE(A(0, i), w); Expr* r = eExtract(x, 0, 8); for (unsigned b = 8; b < w; b += 8) r = eConcat(r, eExtract(x, b, 8)); return VE(r); }); return;
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 s; if (!arg(X, S, d, 2, s)) return; s %= w; R1([&](u32 i) { Expr* c = eConcat(toE(A(0, i), w), toE(A(1, i), w)); unsigned lo = d.iid == Intrinsic::fshl ? (s ? w - s : 0) : s; if (d.iid == Intrinsic::fshl && s == 0) return A(0, i); return VE(eExtract(c, lo, w)); }); return; }
    case Intrinsic::fabs: R1([&](u32 i) { return VE(eBin(E_AND, toE(A(0, i), w), eConst(maskw(w) >> 1, w))); }); return;
    case Intrinsic::sqrt: R1([&](u32 i) { return VE(eF(E_FSQRT, w, toE(A(0, i), w))); }); return;
    case Intrinsic::fmuladd: R1([&](u32 i) { return VE(eF(E_FADD, w, eF(E_FMUL, w, toE(A(0, i), w), toE(A(1, i), w)), toE(A(2, i), w))); }); return;
    case Intrinsic::fma: R1([&](u32 i) { return VE(eF(E_FMA, w, toE(A(0, i), w), toE(A(1, i), w), toE(A(2, i), w))); }); return;
    case Intrinsic::copysign: R1([&](u32 i) { return VE(eConcat(eExtract(toE(A(1, i), w), w - 1, 1), eExtract(toE(A(0, i), w), 0, w - 1))); }); return;
    case Intrinsic::maxnum: R1([&](u32 i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); return VE(eIte(eF(E_FUNO, 1, x, x), y, eIte(eF(E_FOLT, 1, x, y), y, x))); }); return;
    case Intrinsic::minnum: R1([&](u32 i) { Expr *x = toE(A(0, i), w), *y = toE(A(1, i), w); return VE(eIte(eF(E_FUNO, 1, x, x), y, eIte(eF(E_FOLT, 1, y, x), y, x))); }); return;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::powi: case Intrinsic::exp2: case Intrinsic::log2: case Intrinsic::log10: {
      if (w != 64) { X.unsup(S, std::string("intrinsic ") + d.bname); return; }
      u64 a, b = 0; if (!arg(X, S, d, 0, a)) return; if (d.ops.size() > 1 && !arg(X, S, d, 1, b)) return; double x = bits2d(a), r = 0;
      switch (d.iid) { case Intrinsic::floor: r = std::floor(x); break; case Intrinsic::ceil: r = std::ceil(x); break; case Intrinsic::trunc: r = std::trunc(x); break; case Intrinsic::rint: case Intrinsic::nearbyint: r = std::nearbyint(x); break; case Intrinsic::round: r = std::round(x); break; case Intrinsic::pow: r = std::pow(x, bits2d(b)); break; case Intrinsic::exp: r = std::exp(x); break; case Intrinsic::log: r = std::log(x); break; case Intrinsic::sin: r = std::sin(x); break; case Intrinsic::cos: r = std::cos(x); break; case Intrinsic::powi: r = std::pow(x, (double)(int)b); break; case Intrinsic::exp2: r = std::exp2(x); break; case Intrinsic::log2: r = std::log2(x); break; case Intrinsic::log10: r = std::log10(x); break; }
      X.ret(S, d, VC(d2bits(r))); return; }
    case Intrinsic::is_fpclass: { u64 mk; if (!arg(X, S, d, 1, mk)) return; Expr* x = toE(A(0), w); unsigned eb = w == 64 ? 11 : 8, mb = w - 1 - eb; Expr* ex = eExtract(x, mb, eb); Expr* ma = eExtract(x, 0, mb); Expr* sg = eExtract(x, w - 1, 1);
      Expr* e1 = eCmp(E_EQ, ex, eConst(maskw(eb), eb)); Expr* e0 = eCmp(E_EQ, ex, eConst(0, eb)); Expr* m0 = eCmp(E_EQ, ma, eConst(0, mb)); Expr* q = eExtract(ma, mb - 1, 1); Expr* r = eConst(0, 1);
      Expr* cls[10] = {eBin(E_AND, e1, eBin(E_AND, eNot(m0), eNot(q))), eBin(E_AND, e1, eBin(E_AND, eNot(m0), q)), eBin(E_AND, e1, eBin(E_AND, m0, sg)), eBin(E_AND, sg, eBin(E_AND, eNot(e1), eNot(e0))), eBin(E_AND, sg, eBin(E_AND, e0, eNot(m0))), eBin(E_AND, sg, eBin(E_AND, e0, m0)), eBin(E_AND, eNot(sg), eBin(E_AND, e0, m0)), eBin(E_AND, eNot(sg), eBin(E_AND, e0, eNot(m0))), eBin(E_AND, eNot(sg), eBin(E_AND, eNot(e1), eNot(e0))), eBin(E_AND, e1, eBin(E_AND, m0, eNot(sg)))};
      for (int i = 0; i < 10; i++) if ((mk >> i) & 1) r = eBin(E_OR, r, cls[i]); X.ret(S, d, VE(r)); return; }
    case Intrinsic::ptrmask: R1([&](u32 i) { return VE(eBin(E_AND, toE(A(0, i), 64), toE(A(1, i), 64))); }); return;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_xor: {
      EOp o = d.iid == Intrinsic::vector_reduce_add ? E_ADD : d.iid == Intrinsic::vector_reduce_or ? E_OR : d.iid == Intrinsic::vector_reduce_and ? E_AND : d.iid == Intrinsic::vector_reduce_mul ? E_MUL : E_XOR;
      Expr* r = toE(A(0, 0), w); for (u32 i = 1; i < d.ops[0].n; i++) r = eBin(o, r, toE(A(0, i), w)); X.ret(S, d, VE(r)); return; }
    default: X.unsup(S, std::string("intrinsic ") + (d.bname ? d.bname : "?")); return;
  }
}
