// C18: real time evolution.  Operator applied to the initial state; every local problem that of the present state; second-order composition of the step; correlations of the present state
// MODE: 0 evolution and correlations, 1 action of an operator
#define USE_MKL
#define CPLX
#include "diag/mpslib.h"
#include "qlmps/algorithm/lanczos_params.h"
#define LanczosExpmvSolver LanczosExpmvSolver_real
#include "qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h"
#undef LanczosExpmvSolver
#include "diag/sweeplib.h"
static LanczosParams LP(0.25, 7); static double TAU; static size_t DONE; static std::vector<std::vector<T>> STATES;
// the state without the factor that normalised it, and what that factor was
static T unscaled(const T& t, double& f) { double c; std::vector<diag::Atom> sc; T r = t.stripped(c, sc); f = 1; for (auto& a : sc) { sx_assert(diag::norms().count(a.nm), "internal: norm"); f *= diag::norms()[a.nm]; } r *= E(c); return r; }
namespace qlmps {
template <class TT> ExpmvRes<TT> LanczosExpmvSolver(const std::vector<TT*>& h, TT* st, TT* (*mul)(const std::vector<TT*>&, TT*), const double dt, const LanczosParams& p) {
  sx_assert(p.error == LP.error && p.max_iterations == LP.max_iterations, "the solver gets other parameters than requested"); size_t n = st->Rank() - 2, per = 4 * N - 9 + 2, k = DONE % per;
  // the exponentials of one step, in order: bonds 0 .. N-3 and back over site i+1 by half steps, the last bond by a full step, and the mirror image
#ifdef WITH_MPI
  if (DONE == 0) { auto a = tensors(); T s = whole(a, 0, 1, a[0]); double f; if (EXACT) sx_assert(unscaled(s, f).same(WANT), "the initial state is not the operator applied to the stored one"); WANT = s; }
#endif
  if (k == 0) STATES.push_back(tensors()); size_t j = k < 2 * (N - 2) ? k : k == 2 * (N - 2) ? k : 4 * (N - 2) - k; double want; size_t at, sites;
  if (k == 2 * (N - 2)) { want = TAU; at = N - 2; sites = 2; } else { sites = j % 2 ? 1 : 2; at = j % 2 ? j / 2 + 1 : j / 2; want = sites == 2 ? TAU / 2 : -TAU / 2; }
  sx_assert(n == sites, "two-site and single-site evolutions do not alternate"); sx_assert(dt == want, "a local evolution has the wrong time step");
  size_t l = checkLocal(h, *st, mul, n); sx_assert(l == at, "a local evolution is at the wrong place of the step"); auto a = tensors(); T gs = T::atom(st->GetIndexes(), nameOf("GS", DONE), st->Div()); WANT = whole(a, l, l + n, gs); ++DONE; delete st; sx_reach(n == 2 ? "forward" : "backward");
  ExpmvRes<TT> r; r.iters = 3; r.expmv = new TT(gs); return r;
}
#ifdef WITH_MPI
template <class TT> ExpmvRes<TT> MasterLanczosExpmvSolver(const std::vector<TT*>& h, TT* st, const double dt, const LanczosParams& p, const MPI_Comm& comm) { serve(h, *st, comm); return LanczosExpmvSolver(h, st, &eff_ham_mul_two_site_state, dt, p); }
#endif
}
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
#include "qlmps/algorithm/vmps/vmps_init.h"
#define FiniteMPS TrackedMPS
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#ifdef WITH_MPI
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi_impl_master.h"
#define MasterLanczosExpmvSolver MasterLanczosExpmvSolver_real
#include "qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h"
#undef MasterLanczosExpmvSolver
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
typedef MPITDVPSweepParams<Q> Params;
#else
typedef TDVPEvolveParams<Q> Params;
#endif
#undef FiniteMPS
static size_t DMAX; static size_t pickDim(size_t, size_t hi, double t) { if (!EXACT) sx_assert(hi <= DMAX && t == 0.125, "a decomposition does not use the requested truncation"); return hi; }
static T on(const T& a, size_t site, const T& o) { size_t l = site + 1, n = a.Rank(); T r = ct(a, {l}, o, {0}); std::vector<size_t> x; for (size_t k = 0; k < n; ++k) x.push_back(k < l ? k : k == l ? n - 1 : k - 1); r.Transpose(x); return r; }
static E in(const T& bra, const T& ket) { T d = Dag(bra); std::vector<size_t> x; for (size_t i = 0; i < ket.Rank(); ++i) x.push_back(i); return ct(ket, x, d, x)(); }
static T op(const char* s) { I o = phys(); return T::atom({InverseIndex(o), o}, nameOf(s, 0)); }
static bool nearly(E a, E b) { double x = a.real() - b.real(), y = a.imag() - b.imag(), m = 1e-9 * (1 + std::abs(b)); return x <= m && -x <= m && y <= m && -y <= m; }
static void file(const DynamicMeasuRes<E>& r) {
  std::ifstream f("corr.json"); sx_assert(f.good(), "no results file"); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); size_t p = 0; lit(s, p, "[");
  for (size_t k = 0; k < r.size(); ++k) {
    if (k) lit(s, p, ","); lit(s, p, "["); lit(s, p, "["); sx_assert(numAt(s, p) == double(r[k].sites[0]), "the results file has a wrong site"); lit(s, p, ","); sx_assert(numAt(s, p) == double(r[k].sites[1]), "the results file has a wrong site"); lit(s, p, "]"); lit(s, p, ",");
    lit(s, p, "["); sx_assert(numAt(s, p) == 0, "the results file has a wrong time"); lit(s, p, ","); double t = numAt(s, p); sx_assert(t == r[k].times[1], "the results file has a wrong time"); lit(s, p, "]"); lit(s, p, ",");
    lit(s, p, "["); double re = numAt(s, p), dr = re - r[k].avg.real(), m = 1e-9 * (1 + std::abs(r[k].avg)); lit(s, p, ","); double im = numAt(s, p), di = im - r[k].avg.imag(); sx_assert(dr <= m && -dr <= m && di <= m && -di <= m, "the results file has a wrong value"); lit(s, p, "]"); lit(s, p, "]");
  }
  lit(s, p, "]"); sx_assert(p == s.size(), "the results file is not the documented list"); sx_reach("file");
}
extern "C" void sx_main() {
#ifdef WITH_MPI
  parallelSetup();
#endif
  N = sx_param("N", 4); if (sx_param("NSYM", 0)) N = pickN("sites", 3, N); Sites sv(N, phys()); EXACT = !sx_param("TRUNC", 0); DMAX = EXACT ? 64 : pickN("Dmax", 1, 2); diag::pick() = pickDim;
#ifdef WITH_MPI
  const bool few = true;   // the measurements and paths are shared with the serial version
#else
  const bool few = false;
#endif
  bool other = few ? false : sx_bool("paths"); std::string tmp = other ? "tmp2" : kRuntimeTempPath, ini = other ? "ini2" : "initial_" + kMpsPath, mtmp = other ? "mtmp2" : ".measure_temp"; DIR = other ? "mps2" : kMpsPath;
  size_t steps = pickN("steps", 0, sx_param("STEPS", 2)), site0 = pickN("site0", 0, N - 1); TAU = 0.25; double e0 = 0.5; bool i0 = sx_bool("string0"), i1 = few ? i0 : sx_bool("string1"); T o0 = op("O0"), f0 = i0 ? op("F0") : T(), o1 = op("O1"), f1 = i1 ? op("F1") : T();
  MpoT mpo(N); setMpo(mpo); MO = &mpo; TrackedMPS<E, Q> m(sv); T first; { Mps a(sv); setMps(a, "A", EXACT ? full : two); a.Centralize(pickN("centre", 0, site0)); first = state(a); a.Dump(DIR, true); }
  bool copied = sx_bool("earlier"); if (copied) { Mps b(sv); setMps(b, "B", EXACT ? full : two); first = first * E(1); T keep = state(b); b.Dump(ini, true); WANT = first; first = keep; } else WANT = first;
  WANT = on(WANT, site0, o0); if (i0) for (size_t i = 0; i < site0; ++i) WANT = on(WANT, i, f0);
  T start = WANT; Params p(TAU, steps, site0, o0, f0, o1, f1, e0, 1, DMAX, EXACT ? 0 : 0.125, LP, DIR, ini, tmp, mtmp);
  double norm = 1;
#ifdef WITH_MPI
  DynamicMeasuRes<E> res; parallel([&] { res = TwoSiteFiniteTDVP(m, mpo, p, std::string("corr"), MPI_COMM_WORLD); }, [&] { TrackedMPS<E, Q> e(sv); TwoSiteFiniteTDVP(e, mpo, p, std::string("corr"), MPI_COMM_WORLD); });
#else
  auto res = TwoSiteFiniteTDVP(m, mpo, p, std::string("corr"));
#endif
  sx_assert(DONE == steps * (4 * N - 7), "wrong number of local evolutions"); STATES.push_back(tensors());
  sx_assert(STATES.size() == steps + 1 && res.size() == N * (steps + 1), "wrong number of results"); for (size_t i = 0; i < N; ++i) sx_assert(LIVE.size() == 1 && static_cast<const Mps&>(m)(i) == nullptr, "tensors are left in memory after the evolution");
  for (size_t s = 0; s <= steps; ++s) {
    T ket = whole(STATES[s], 0, 1, STATES[s][0]); if (s == 0) { T u = unscaled(ket, norm); sx_assert(u.same(start), "the initial operator is applied wrongly"); } if (s && s == steps && EXACT) sx_assert(ket.same(WANT), "the state on disk is not the evolved one");
    for (size_t i = 0; i < N; ++i) {
      auto& r = res[s * N + i]; sx_assert(r.sites == VS({site0, i}), "a correlation carries the wrong sites"); sx_assert(r.times.size() == 2 && r.times[0] == 0 && r.times[1] == double(s) * TAU, "a correlation carries the wrong time");
      T k = on(ket, i, o1); if (i1) for (size_t x = 0; x < i; ++x) k = on(k, x, f1); E ph = std::complex<double>(std::cos(e0 * double(s) * TAU), std::sin(e0 * double(s) * TAU)); sx_assert(nearly(r.avg, norm * in(first, k) * ph), "a correlation has the wrong value"); sx_reach("correlation");
    }
  }
  file(res); { Mps b(sv); for (size_t i = 0; i < N; ++i) b.LoadTen(i, GenMPSTenName(ini, i)); sx_assert(state(b).same(first), "the stored initial state is not the initial state"); }
  sx_reach(copied ? "reused initial" : "copied initial"); if (steps) { auto a = tensors(); canonical(a, 1, 1); for (auto& t : a) if (!EXACT) sx_assert(t.GetIndex(0).dim() <= std::max<size_t>(DMAX, 2), "a bond exceeds the requested dimension"); sx_reach("evolved"); }
}
