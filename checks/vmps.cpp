// C17: variational sweeps.  Every local problem is that of the present state; the state is carried on exactly; files and memory are kept in order.
// MODE: 0 two-site, 1 two-site with noise, 2 single-site, 3 IsQNCovered
#define USE_MKL
#include "diag/mpslib.h"
#include "qlmps/algorithm/lanczos_params.h"
#define LanczosSolver LanczosSolver_real
#include "qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h"
#undef LanczosSolver
#include "diag/sweeplib.h"
static LanczosParams LP(0.25, 7); static size_t SITES = 2;
// the amplitude of the noise: listed for the first sweeps; serial: between two updates it shrinks if decomposing cost at least alpha of what optimising gained, grows (up to the maximum) if it cost less, stays if it cost nothing
static const double NMAX = 0.3, UP = 1.75, DOWN = 0.75, ALPHA = 1.2; static std::vector<double> NOISE; static double ACT, EOLD; static size_t FIRST, SWEEP;
static void schedule(const T& st, size_t l) {
  T s, d = Dag(st); std::vector<size_t> all; for (size_t i = 0; i < st.Rank(); ++i) all.push_back(i); Contract(&HST, all, &d, all, &s); double act = Real(s());
  if (CALLS.empty()) { FIRST = l; SWEEP = 0; } bool fresh = l == FIRST; if (fresh) { if (SWEEP < NOISE.size()) ALLOWED = {NOISE[SWEEP]}; ++SWEEP; }
#ifndef WITH_MPI
  double cost = act - EOLD, gain = ALPHA * std::fabs(ACT - EOLD); bool near = std::fabs(cost - gain) < 1e-6 || std::fabs(cost) < 1e-6; std::vector<double> to; for (double a : ALLOWED) { if (fresh || near || cost <= 0) to.push_back(a); if (fresh || near || (cost > 0 && cost >= gain)) to.push_back(a * DOWN); if (fresh || near || (cost > 0 && cost < gain)) to.push_back(std::min(a * UP, NMAX)); }
  if (!fresh && !near) sx_reach(cost <= 0 ? "kept" : cost < gain ? "grows" : "shrinks"); std::sort(to.begin(), to.end()); ALLOWED.clear(); for (double a : to) if (ALLOWED.empty() || a > ALLOWED.back() + 1e-12) ALLOWED.push_back(a);
#endif
  ACT = act;
}
namespace qlmps {
template <class TT> LanczosRes<TT> LanczosSolver(const std::vector<TT*>& h, TT* st, TT* (*mul)(const std::vector<TT*>&, TT*), const LanczosParams& p) {
  sx_assert(p.error == LP.error && p.max_iterations == LP.max_iterations, "the solver gets other parameters than requested"); size_t n = st->Rank() - 2; sx_assert(n == SITES, "wrong number of sites is optimised");
  size_t l = checkLocal(h, *st, mul, n); auto a = tensors(); T gs = T::atom(st->GetIndexes(), nameOf("GS", CALLS.size()), st->Div()); WANT = whole(a, l, l + n, gs); GS = gs; LENV = *h[0]; RENV = *h[n + 1]; GSL = l; GSN = n; double k = double(CALLS.size()), e = -1.0 - k; if (AMPS) { schedule(*st, l); e = CALLS.size() % 3 == 0 ? e : CALLS.size() % 3 == 1 ? 3.0 + k : 1.25 + k / 1024; EOLD = e; } CALLS.push_back({l, n, e}); delete st; sx_reach("optimised");
  LanczosRes<TT> r; r.iters = 3; r.gs_eng = e; r.gs_vec = new TT(gs); return r;
}
}
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
#include "qlmps/algorithm/vmps/vmps_init.h"
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
#include "qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h"
#ifdef WITH_MPI
#define MasterLanczosSolver MasterLanczosSolver_real
#include "qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h"
#undef MasterLanczosSolver
namespace qlmps { template <class TT> LanczosRes<TT> MasterLanczosSolver(const std::vector<TT*>& h, TT* st, const LanczosParams& p, const MPI_Comm& comm) { serve(h, *st, comm); return LanczosSolver(h, st, &eff_ham_mul_two_site_state, p); } }
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
static double sweepCall(Mps& m, const MpoT& mpo, const FiniteVMPSSweepParams& p) { double r = 0; auto run = [&](Mps& x) { return sx_param("DIRECT", 0) ? TwoSiteFiniteVMPSWithNoise_(x, mpo, p, MPI_COMM_WORLD) : TwoSiteFiniteVMPS(x, mpo, p, MPI_COMM_WORLD); }; parallel([&] { r = run(m); }, [&] { Mps e(m.GetSitesInfo()); sx_assert(run(e) == 0, "a worker returns an energy"); }); return r; }
static const size_t CENTRE1 = 0; static const bool FEW = true;
#else
static double sweepCall(Mps& m, const MpoT& mpo, const FiniteVMPSSweepParams& p) { return sx_param("DIRECT", 0) ? TwoSiteFiniteVMPSWithNoise(m, mpo, p) : TwoSiteFiniteVMPS(m, mpo, p); }
static const size_t CENTRE1 = 1; static const bool FEW = false;
#endif
static size_t DMAX, DMIN; static double TERR; static int SPLITS;
static size_t pickDim(size_t lo, size_t hi, double t) { ++SPLITS; if (!EXACT) sx_assert(hi <= DMAX && lo <= DMIN && t == TERR, "a decomposition does not use the requested truncation"); return hi; }
static void finish(double e, size_t sweeps, size_t lo, size_t hi, size_t centre) {
  const Mps& m = *MP; for (size_t i = 0; i < N; ++i) sx_assert(m(i) == nullptr, "tensors are left in memory after the sweeps");
  sx_assert(!CALLS.empty() && e == CALLS.back().e, "the returned energy is not the last one"); std::vector<size_t> cnt(N, 0); for (auto& c : CALLS) ++cnt[c.l]; for (size_t i = lo; i + SITES <= hi + 1; ++i) { sx_assert(cnt[i] >= sweeps, "a bond is not optimised in every sweep"); sx_assert(cnt[i] <= 2 * sweeps, "more sweeps are made than requested"); }
  auto a = tensors(); canonical(a, centre, 1); for (size_t i = 0; i + 1 < N; ++i) sx_assert(a[i].GetIndex(2) == InverseIndex(a[i + 1].GetIndex(0)), "neighbouring tensors on disk do not fit together"); if (EXACT) sx_assert(whole(a, 0, 1, a[0]).same(WANT), "the state on disk is not the optimised one");
  for (size_t i = 0; i < N; ++i) if (!EXACT && !(sx_param("MODE", 0) == 1 && i == lo + 1)) sx_assert(a[i].GetIndex(0).dim() <= std::max<size_t>(DMAX, 2), "a bond exceeds the requested dimension"); sx_reach("swept");
}
// the sites outside the swept region must be complete (nothing to optimise there), at the end every bond inside is visited
static void region(double e, size_t sweeps) {
  sx_assert(!CALLS.empty(), "nothing is optimised"); size_t lo = N, hi = 0; for (auto& c : CALLS) { lo = std::min(lo, c.l); hi = std::max(hi, c.l + c.n - 1); } auto a = tensors();
  for (size_t i = 0; i < lo; ++i) { sx_assert(a[i].GetIndex(2).dim() == a[i].GetIndex(0).dim() * a[i].GetIndex(1).dim(), "a site left of the swept region is not complete"); sx_reach("boundary"); } for (size_t i = hi + 1; i < N; ++i) sx_assert(a[i].GetIndex(0).dim() == a[i].GetIndex(2).dim() * a[i].GetIndex(1).dim(), "a site right of the swept region is not complete");
  finish(e, sweeps, lo, hi, (lo + 1) * CENTRE1);
}
static void covered() {
  int k = sx_param("K", 3); size_t n1 = pickN("n1", 1, k), n2 = pickN("n2", 1, k); QNSectorVec<Q> a, b; std::vector<int> x, y;
  for (size_t i = 0; i < n1; ++i) { int v = (int)pickN("a", 0, k); for (int o : x) sx_assume(o != v); x.push_back(v); a.push_back(QNSector<Q>(qn(v), 1)); }
  for (size_t i = 0; i < n2; ++i) { int v = (int)pickN("b", 0, k); for (int o : y) sx_assume(o != v); y.push_back(v); b.push_back(QNSector<Q>(qn(v), 1)); }
  bool want = true; for (int v : y) { bool f = false; for (int o : x) f = f || o == v; want = want && f; } sx_assert(IsQNCovered(a, b) == want, "the comparison of charges is wrong"); sx_reach(want ? "covered" : "not covered");
}
extern "C" void sx_main() {
  int mode = sx_param("MODE", 0); if (mode == 3) { covered(); return; } if (mode == 2) SITES = 1;
#ifdef WITH_MPI
  parallelSetup();
#endif
  diag::onSvd<E, Q>() = checkEnlarged; N = sx_param("N", 4); if (sx_param("NSYM", 0)) N = pickN("sites", mode == 0 ? 3 : mode == 2 ? 2 : 4, N); Sites sv(N, phys());
  if (mode == 1) diag::charges() = pickN("charges", 0, 2);
  EXACT = !sx_param("TRUNC", 0); DMAX = EXACT ? 64 : pickN("Dmax", 1, 2); DMIN = 1; TERR = EXACT ? 0 : 0.125; diag::pick() = pickDim; bool other = FEW && mode == 1 ? false : sx_bool("paths"); std::string tmp = other ? "tmp2" : kRuntimeTempPath; DIR = other ? "mps2" : kMpsPath; size_t sweeps = pickN("sweeps", 1, sx_param("SWEEPS", 2));
  bool plain = false; MpoT mpo(N); setMpo(mpo); MO = &mpo; Mps m(sv); MP = &m; { Mps a(sv); setMps(a, "A", EXACT ? full : two); if (mode == 2) plain = sx_bool("plain"); if (plain) { a.Centralize(N - 1); for (size_t i = N - 1; i > 0; --i) a.RightCanonicalizeTen(i, true); } else a.Centralize(mode == 0 ? pickN("centre", 0, 1) : 0); WANT = state(a); a.Dump(DIR, true); }
  for (int run = 0; run < 2; ++run) {
    size_t left = N; for (auto& c : CALLS) left = std::min(left, c.l); CALLS.clear(); if (run && !EXACT && mode == 1) { size_t d = pickN("DmaxNow", 1, 2); if (d < DMAX) { Mps b(sv); b.LoadTen(DIR, left + 1); for (size_t i = left + 1; i > 0; --i) { b.LoadTen(DIR, i - 1); b.RightCanonicalizeTen(i); } for (size_t i = 0; i <= left + 1; ++i) b.DumpTen(i, GenMPSTenName(DIR, i), true); } DMAX = d; }   // another bond dimension moves the boundaries, the centre must not lie to the right of them
    if (mode == 0) { FiniteVMPSSweepParams p(sweeps, DMIN, DMAX, TERR, LP, DIR, tmp); double e = sweepCall(m, mpo, p); finish(e, sweeps, 0, N - 1, 1); }
    else {
      std::vector<double> noise; size_t nn = pickN("noises", mode == 2 ? 0 : 1, 2); for (size_t i = 0; i < nn; ++i) noise.push_back(pickN("noise", 0, 1) ? 0.25 : 0.0); bool any = false; for (double d : noise) any = any || d != 0; if (mode == 1) sx_assume(any);
      FiniteVMPSSweepParams p(sweeps, DMIN, DMAX, TERR, LP, noise, NMAX, UP, DOWN, ALPHA, DIR, tmp); NOISE = noise; if (noise.empty()) NOISE.push_back(0); AMPS = true; if (mode == 1) { double e = sweepCall(m, mpo, p); region(e, sweeps); } else { double e = SingleSiteFiniteVMPS(m, mpo, p); finish(e, sweeps, 0, N - 1, 0); }
    }
    if (!sx_bool("again")) break; sx_reach("restarted");
  }
}
