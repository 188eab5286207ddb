// C19: DMRG with the matrix representation of the operator: every local problem is that of the present state, nothing is lost, early termination keeps the state
#define USE_MKL
#include "diag/mpslib.h"
#include "qlmps/algorithm/lanczos_params.h"
#include "qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h"
#include "diag/sweeplib.h"
#include <csignal>
#ifdef __clang__
// deliver signals by hand; the native build uses the real ones
static void (*HANDLER[65])(int); extern "C" int sigaction(int s, const struct sigaction* a, struct sigaction*) { HANDLER[s] = a->sa_handler; return 0; }
extern "C" int sigemptyset(sigset_t*) { return 0; } extern "C" ssize_t write(int, const void*, size_t n) { return n; } static void deliver(int s) { if (!HANDLER[s]) sx_fail("a signal would kill the process"); HANDLER[s](s); }
#else
static void deliver(int s) { raise(s); }
#endif
// chosen over the library's template
namespace qlmps { typedef std::vector<std::array<T*, 2>> Terms; typedef std::vector<std::pair<Terms, Terms>> Super; LanczosRes<T> LanczosSolver(Super&, T*, const LanczosParams&); }
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
#include "qlmps/algorithm/vmps/vmps_init.h"

#include "qlmps/algorithm/dmrg/dmrg.h"
#ifdef WITH_MPI
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#endif

typedef MatReprMPO<T> RepT; static RepT* RP; static LanczosParams LP(0.25, 7); static int SIG; static size_t SIGAT;
static const T& w(size_t i, size_t r, size_t c) { return static_cast<const SparMat<T>&>((*RP)[i])(r, c); }
static bool nul(size_t i, size_t r, size_t c) { return (*RP)[i].IsNull(r, c); }
typedef std::vector<T> Ts;
// legs {ket, bra}
static T one2(const I& k) { T t({InverseIndex(k), k}); t({0, 0}) = E(1); return t; }
static void add(T& a, const T& b) { if (a.IsDefault()) a = b; else a += b; }
static Ts left(const Ts& a, size_t n) { Ts l = {one2(a[0].GetIndex(0))}; for (size_t i = 0; i < n; ++i) { Ts q((*RP)[i].cols); for (size_t c = 0; c < q.size(); ++c) for (size_t r = 0; r < l.size(); ++r) if (!nul(i, r, c)) { T x = ct(ct(l[r], {0}, a[i], {0}), {1}, w(i, r, c), {0}); add(q[c], ct(x, {0, 2}, Dag(a[i]), {0, 1})); } l = q; } return l; }
static Ts right(const Ts& a, size_t n) { Ts l = {one2(a[N - 1].GetIndex(2))}; for (size_t i = N; i-- > n;) { Ts q((*RP)[i].rows); for (size_t r = 0; r < q.size(); ++r) for (size_t c = 0; c < l.size(); ++c) if (!nul(i, r, c)) { T x = ct(ct(l[c], {0}, a[i], {2}), {2}, w(i, r, c), {0}); add(q[r], ct(x, {0, 2}, Dag(a[i]), {2, 1})); } l = q; } return l; }
// the present state: the latest optimised one after its decomposition
static bool LAST; static size_t AT; static Ts OUTER; static size_t COUNT;
static T toE(const TD& t) { return t; }
static T now() { if (!LAST) return WANT; auto& d = diag::last<E, Q>(); T m = ct(ct(d.first, {2}, toE(diag::lastS<Q>()), {0}), {2}, d.second, {0}); return whole(OUTER, AT, AT + 2, m); }
static void hit() { if (SIG && CALLS.size() == SIGAT) deliver(SIG); }
static size_t L0; static Ts LE, RE;
static T action(const T& st) { T want; size_t l = L0; for (size_t x = 0; x < LE.size(); ++x) for (size_t y = 0; y < (*RP)[l].cols; ++y) if (!nul(l, x, y)) for (size_t z = 0; z < RE.size(); ++z) if (!nul(l + 1, y, z)) {
  T r = ct(ct(ct(ct(LE[x], {0}, st, {0}), {1}, w(l, x, y), {0}), {1}, w(l + 1, y, z), {0}), {1}, RE[z], {0}); add(want, r); } return want; }
// which local problem is to be solved
static void problem(T* st, const LanczosParams& p) {
  sx_assert(p.error == LP.error && p.max_iterations == LP.max_iterations, "the solver gets other parameters than requested"); sx_assert(st->Rank() == 4, "wrong number of sites is optimised"); auto a = tensors(); size_t l = N; T cur = now();
  for (size_t i = 0; i + 2 <= N && l == N; ++i) if (i == 0 || a[i - 1].GetIndex(2) == InverseIndex(st->GetIndex(0))) if (i + 2 == N || a[i + 2].GetIndex(0) == InverseIndex(st->GetIndex(3))) { T f = whole(a, i, i + 2, *st); if (f.GetIndexes() == cur.GetIndexes() && f.same(cur)) l = i; }
  if (l == N) sx_fail("the state to be optimised is not the present state at any pair of sites"); canonical(a, l, 2); OUTER = a; L0 = l; LE = left(a, l); RE = right(a, l + 2);
}
static LanczosRes<T> solved(T* st) {
  T gs = T::atom(st->GetIndexes(), nameOf("GS", COUNT), st->Div()); ++COUNT; LAST = true; AT = L0; WANT = whole(OUTER, L0, L0 + 2, gs); double e = -1.0 - double(CALLS.size()); CALLS.push_back({L0, 2, e}); delete st; sx_reach("optimised"); hit();
  LanczosRes<T> q; q.iters = 3; q.gs_eng = e; q.gs_vec = new T(gs); return q;
}
static const char* const OTHERH = "the effective Hamiltonian is not that of the present state";
namespace qlmps {
LanczosRes<T> LanczosSolver(Super& h, T* st, const LanczosParams& p) {
  problem(st, p); T* r = super_block_hamiltonian_mul_two_site_state(h, static_cast<const T*>(st)); sx_assert(eq(*r, action(*st)), OTHERH); delete r; return solved(st);
}
#ifdef WITH_MPI
// a solver that asks the workers for the action on the state and then on others
template <> LanczosRes<T> DMRGMPIMasterExecutor<E, Q>::LanczosSolver_(T* st) {
  problem(st, sweep_params.lancz_params); MasterBroadcastOrder(lanczos_mat_vec_dynamic, rank_, comm_); T* r = DynamicHamiltonianMultiplyState_(*st); sx_assert(eq(*r, action(*st)), OTHERH); delete r;
  for (size_t k = 0; k < 1 + (CALLS.size() & 1); ++k) { T x = T::atom(st->GetIndexes(), nameOf("X", 2 * CALLS.size() + k), st->Div()); double ov = 0; MasterBroadcastOrder(lanczos_mat_vec_static, rank_, comm_); r = StaticHamiltonianMultiplyState_(x, ov); T want = action(x); sx_assert(eq(*r, want), "a later action of the effective Hamiltonian is another one"); sx_assert(close(ov, Real(ct(want, {0, 1, 2, 3}, Dag(x), {0, 1, 2, 3})())), "the expectation value gathered with it is another one"); delete r; sx_reach("later action"); }
  MasterBroadcastOrder(lanczos_finish, rank_, comm_); return solved(st);
}
#endif
}
static size_t DMAX; static size_t pickDim(size_t, size_t hi, double t) { if (!EXACT) sx_assert(hi <= DMAX && t == 0.125, "a decomposition does not use the requested truncation"); return hi; }
// sparse matrices of operators; (0, 0) and others may be missing
static void setRep(RepT& m, int pattern) {
  for (size_t i = 0; i < N; ++i) { size_t r = i ? 2 : 1, c = i + 1 < N ? 2 : 1; m.push_back(SparMat<T>(r, c)); for (size_t x = 0; x < r; ++x) for (size_t y = 0; y < c; ++y) {
    bool there = pattern == 0 || r == 1 || c == 1 || x <= y || (pattern == 2 && i % 2); if (there) m[i].SetElem(x, y, T::atom({InverseIndex(phys()), phys()}, nameOf("op", 16 * i + 2 * x + y))); } }
}
static void finish(double e, size_t sweeps, bool all) {
  sx_assert(!CALLS.empty(), "nothing is optimised"); sx_assert(e == CALLS.back().e, "the energy is not the last one"); size_t lo = N, hi = 0; std::vector<size_t> cnt(N, 0); for (auto& c : CALLS) { lo = std::min(lo, c.l); hi = std::max(hi, c.l + 1); ++cnt[c.l]; }
  auto a = tensors(); if (all) { canonical(a, 0, 1); for (size_t i = lo; i < hi; ++i) sx_assert(cnt[i] >= sweeps, "a bond is not optimised in every sweep"); }
  for (size_t i = 0; i + 1 < N; ++i) sx_assert(a[i].GetIndex(2) == InverseIndex(a[i + 1].GetIndex(0)), "neighbouring tensors on disk do not fit together"); T f = whole(a, 0, 1, a[0]); sx_assert(f.GetIndexes() == now().GetIndexes() && f.same(now()), "the state on disk is not the last optimised one"); sx_reach("state kept");
}
extern "C" void sx_main() {
  N = sx_param("N", 5); if (sx_param("NSYM", 0)) N = pickN("sites", 4, N); Sites sv(N, phys()); EXACT = !sx_param("TRUNC", 0); DMAX = EXACT ? 64 : pickN("Dmax", 1, 2); diag::pick() = pickDim;
  bool stop = sx_param("STOP", 0); bool other = !stop && sx_bool("paths"); std::string tmp = other ? "tmp2" : kRuntimeTempPath; DIR = other ? "mps2" : kMpsPath; size_t sweeps = pickN("sweeps", 1, sx_param("SWEEPS", 2)); RepT rep; RP = &rep; setRep(rep, stop ? 2 : (int)pickN("pattern", 0, 2));
  Mps dummy(sv); MP = &dummy; { Mps a(sv); setMps(a, "A", EXACT ? full : two); a.Centralize(stop ? 0 : pickN("centre", 0, 1)); WANT = state(a); a.Dump(DIR, true); }
  FiniteVMPSSweepParams p(sweeps, 1, DMAX, EXACT ? 0 : 0.125, LP, DIR, tmp); static const int sig[] = {0, SIGUSR1, SIGUSR2, SIGINT, SIGTERM};
  if (sx_param("STOP", 0)) {
    SIG = sig[pickN("signal", 1, 4)]; bool hard = SIG == SIGINT || SIG == SIGTERM; SIGAT = pickN("when", 0, 2 * N); { DMRGExecutor<E, Q> x(rep, p); hit(); x.Execute(); sx_assume(CALLS.size() >= SIGAT); sx_assert(x.GetStatus() == ExecutorStatus::FINISH, "the executor does not report that it finished"); if (hard) sx_assert(CALLS.size() == std::max<size_t>(SIGAT, 1), "an emergency exit does not happen right after the update"); finish(x.GetEnergy(), 1, !hard); sx_reach(hard ? "emergency exit" : "graceful exit"); if (hard) return; }
    SIG = 0; CALLS.clear(); LAST = false; { Mps m(sv); double e = FiniteDMRG(m, rep, p); finish(e, 1, true); sx_reach("resumed"); } return;
  }
#ifdef WITH_MPI
  parallelSetup(); if (sx_param("ONE", 1) && sx_bool("alone")) PROCS = 1;
  if (PROCS == 1 || sx_bool("function")) for (int run = 0; run < 2; ++run) {
    CALLS.clear(); double e = 0; parallel([&] { Mps m(sv); e = FiniteDMRG(m, rep, p, MPI_COMM_WORLD); }, [&] { Mps m(sv); sx_assert(FiniteDMRG(m, rep, p, MPI_COMM_WORLD) == 0, "a worker returns an energy"); }); finish(e, sweeps, true); if (!sx_bool("again")) break; sx_reach("restarted"); }
  else { int runs = 1 + sx_bool("again"); MPI_Comm world = MPI_COMM_WORLD;
    parallel([&] { DMRGMPIMasterExecutor<E, Q> x(rep, p, world); for (int run = 0; run < runs; ++run) { CALLS.clear(); x.Execute(); finish(x.GetEnergy(), sweeps, true); if (run) sx_reach("restarted"); } }, [&] { DMRGMPISlaveExecutor<E, Q> x(rep, world); for (int run = 0; run < runs; ++run) x.Execute(); }); }
  sx_reach("finished"); return;
#endif
  if (sx_bool("function")) { for (int run = 0; run < 2; ++run) { CALLS.clear(); Mps m(sv); double e = FiniteDMRG(m, rep, p); finish(e, sweeps, true); if (!sx_bool("again")) break; if (!EXACT) p.Dmax = DMAX = pickN("DmaxNow", 1, 2); sx_reach("restarted"); } }
  else { DMRGExecutor<E, Q> x(rep, p); for (int run = 0; run < 2; ++run) { CALLS.clear(); x.Execute(); finish(x.GetEnergy(), sweeps, true); if (!sx_bool("again")) break; if (!EXACT) x.sweep_params.Dmax = DMAX = pickN("DmaxNow", 1, 2); sx_reach("restarted"); } }
}
