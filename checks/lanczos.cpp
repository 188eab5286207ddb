// C20: the Krylov solvers.  The vectors are formal combinations of symbols, so what is built from what is compared exactly; the small eigenproblem answers anything.
// MODE: 0 solver of the variational sweeps, 1 of DMRG, 2 exponential; 3, 4, 5: the distributed versions of 0, 2 and 1 (seen from the master)
#define USE_MKL
#define WITH_MPI
#include "mkl.h"
#include "diag/mpslib.h"
#include "qlmps/algorithm/lanczos_params.h"
#define QLMPS_MEMORY_MONITOR_H    // only prints
#include <string>
namespace qlmps { struct MemoryMonitor { explicit MemoryMonitor(int = 0) {} void GetMemoryInfo(double&, double&, double&) {} void Checkpoint(const std::string&) {} static void ListAvailableDevices() {} int GetDeviceId() const { return 0; } }; }
namespace form {
typedef std::complex<double> C;
enum { INIT = 1000, HB = 100 };                       // symbols: INIT, HB+k = H times basis k, k = basis k
static int LIVES, BASES, MULS, DIM, ENDAT; static double NORM0 = 1.5; static size_t MODE_;
inline double aOf(int k) { return 0.5 - 0.75 * k; } inline double bOf(int k) { return 0.25 + 0.5 * k; }   // diagonal, norm of the k-th remainder
struct V {
  std::vector<std::pair<int, C>> t; bool dag = false; double num = 0; bool scalar = false;
  V() { ++LIVES; } explicit V(const std::vector<int>&) { ++LIVES; } V(const V& o) : t(o.t), dag(o.dag), num(o.num), scalar(o.scalar) { ++LIVES; } ~V() { --LIVES; } V& operator=(const V&) = default;
  size_t size() const { return DIM; } size_t Rank() const { return 4; } std::vector<int> GetIndexes() const { return {}; } static constexpr bool IsFermionic() { return false; } void ActFermionPOps() {}
  void add(int s, C c) { for (auto& x : t) if (x.first == s) { x.second += c; return; } t.push_back({s, c}); }
  C at(int s) const { C r = 0; for (auto& x : t) if (x.first == s) r += x.second; return r; }
  bool is(int s) const { for (auto& x : t) if (x.first != s && x.second != C(0)) return false; return at(s) == C(1); }
  double Normalize() {
    if (BASES == 0) { sx_assert(is(INIT), "the iteration does not start from the given state"); BASES = 1; t = {{0, 1}}; return NORM0; }
    int k = BASES - 1; V w; w.add(HB + k, 1); w.add(k, -aOf(k)); if (k) w.add(k - 1, -bOf(k - 1)); bool ok = true; for (auto& x : t) ok = ok && w.at(x.first) == at(x.first); for (auto& x : w.t) ok = ok && w.at(x.first) == at(x.first);
    sx_assert(ok, "the new vector is not orthogonalised against the two previous ones"); if (k == ENDAT) return 0; ++BASES; t = {{k + 1, 1}}; return bOf(k);
  }
  double QuasiNormalize() { return Normalize(); }
  double operator()() const { sx_assert(scalar, "not a number"); return num; }
  V& operator+=(const V& o) { for (auto x : o.t) add(x.first, x.second); return *this; }
  size_t GetRawDataMemUsage() const { return 0; }
};
inline V operator*(C c, const V& v) { V r(v); for (auto& x : r.t) x.second *= c; return r; }
inline V Dag(const V& v) { V r(v); r.dag = !r.dag; return r; }
inline void Contract(const V* x, const V* y, const std::vector<std::vector<size_t>>& ax, V* r) { int k = BASES - 1; const V *h = x, *d = y; if (x->dag) std::swap(h, d); sx_assert(ax.size() == 2 && ax[0].size() == 4 && ax[0] == ax[1] && d->dag && !h->dag && d->is(k) && h->is(HB + k), "the diagonal element is not the expectation value of the latest vector"); V q; q.scalar = true; q.num = aOf(k); *r = q; }
template <class S> void comb(size_t n, const S* c, V* const* v, C beta, V* r) { V q; for (auto& x : r->t) if (beta != C(0)) q.add(x.first, beta * x.second); for (size_t i = 0; i < n; ++i) for (auto& x : v[i]->t) q.add(x.first, C(c[i]) * x.second); *r = q; }
inline void LinearCombine(const std::vector<double>& c, const std::vector<V*>& v, double beta, V* r) { comb(c.size(), c.data(), v.data(), beta, r); }
inline void LinearCombine(size_t n, const double* c, const std::vector<V*>& v, double beta, V* r) { comb(n, c, v.data(), beta, r); }
inline void LinearCombine(size_t n, const C* c, const std::vector<V*>& v, C beta, V* r) { comb(n, c, v.data(), beta, r); }
inline V* mul(const std::vector<V*>& h, V* x) { sx_assert(h.size() == 1 && x->is(MULS) && MULS == BASES - 1, "the operator is applied to another vector than the latest"); V* r = new V; r->add(HB + MULS++, 1); return r; }
inline V* super_block_hamiltonian_mul_two_site_state(const std::vector<std::pair<std::vector<std::array<V*, 2>>, std::vector<std::array<V*, 2>>>>& h, const V* x) { V y(*x); std::vector<V*> g(1); return mul(g, &y); }
static bool SENT[2]; static const V* ENV[4];
inline void MPI_Bcast(V& v, int root, const MPI_Comm&) { sx_assert(root == 0, "a broadcast from another process than the master"); for (int k = 0; k < 2; ++k) if (&v == ENV[3 * k]) { SENT[k] = true; return; } sx_fail("something else than the environments is sent to the workers"); }
static int ORDERS() { auto& w = mpi::W(); return (int)w.colls.size(); }
inline double master_two_site_eff_ham_mul_state(const std::vector<V*>& h, V* x, V& r, const MPI_Comm&) { sx_assert(SENT[0] && SENT[1] && h[0] == ENV[0] && h[3] == ENV[3], "the workers do not have the environments yet"); sx_assert(ORDERS() == MULS, "the workers do not expect a product now"); std::vector<V*> one(1); V* p = mul(one, x); sx_assert(r.t.empty(), "the result is not empty"); r = *p; delete p; return aOf(MULS - 1); }
static std::vector<double> EV; static std::vector<int> SAME;      // lowest eigenvalue by size; whether the exponential of that size equals the previous one
inline double zOf(size_t n, size_t i, size_t j) { if (SAME[n]) return i + 1 < n && j + 1 < n ? zOf(n - 1, i, j) : 0; return 0.125 * double(1 + (7 * n + 3 * i + 5 * j + i * j) % 11); }
inline double dOf(size_t n, size_t j) { if (SAME[n]) return j + 1 < n ? dOf(n - 1, j) : 9; return j ? 2.0 + double(j) + 0.25 * double(n) : EV[n]; }
}
extern "C" int LAPACKE_dstev(int layout, char job, int n, double* d, double* e, double* z, int ldz) {
  using namespace form; sx_assert(layout == LAPACK_ROW_MAJOR && n >= 1 && n <= BASES && (job == 'N' || ldz == n), "the eigenvalue solver is called wrongly"); for (int i = 0; i < n; ++i) sx_assert(d[i] == aOf(i), "the diagonal of the projected operator is wrong"); for (int i = 0; i + 1 < n; ++i) sx_assert(e[i] == bOf(i), "the off-diagonal of the projected operator is wrong");
  for (int i = 0; i < n; ++i) d[i] = dOf(n, i); for (int i = 0; i + 1 < n; ++i) e[i] = 77; if (job == 'V') for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) z[i * n + j] = zOf(n, i, j); return 0;
}
#include "qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h"
#include "qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#include "qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h"
#include "qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h"
// the master's class around the distributed solver of DMRG
#define QLMPS_ALGO_MPI_DMRG_DMRG_MPI_IMPL_MASTER_H
#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"
namespace qlmps {
template <class E, class Q> struct VOf { typedef form::V type; }; template <class E, class Q> using QLTensor = typename VOf<E, Q>::type;
template <typename TenElemT, typename QNT> struct DMRGMPIMasterExecutor {
  using Tensor = QLTensor<TenElemT, QNT>; FiniteVMPSSweepParams sweep_params; SuperBlockHamiltonianTerms<form::V> hamiltonian_terms_; const MPI_Comm &comm_; int rank_ = 0, mpi_size_ = 3; size_t worker_num_ = 2;
  DMRGMPIMasterExecutor(const FiniteVMPSSweepParams& p, const MPI_Comm& c) : sweep_params(p), comm_(c) {}
  LanczosRes<Tensor> LanczosSolver_(Tensor *pinit_state); Tensor *DynamicHamiltonianMultiplyState_(Tensor &state); Tensor *StaticHamiltonianMultiplyState_(Tensor &state, QLTEN_Double &overlap);
  void SendBlockSiteHamiltonianTermGroup_(const BlockSiteHamiltonianTermGroup<form::V> &, size_t); void SendSiteBlockHamiltonianTermGroup_(const SiteBlockHamiltonianTermGroup<form::V> &, size_t);
};
typedef DMRGMPIMasterExecutor<double, int> FX;
template <> form::V* FX::DynamicHamiltonianMultiplyState_(form::V& x) { using namespace form; sx_assert(MULS == 0, "the workers prepare their parts again"); sx_assert(ORDERS() == 1, "the workers do not expect a product now"); std::vector<V*> one(1); return mul(one, &x); }
template <> form::V* FX::StaticHamiltonianMultiplyState_(form::V& x, double& ov) { using namespace form; sx_assert(MULS > 0, "the workers have not prepared their parts yet"); sx_assert(ORDERS() == MULS + 1, "the workers do not expect a product now"); std::vector<V*> one(1); V* r = mul(one, &x); ov += aOf(MULS - 1); return r; }
}
#include "qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h"
using namespace form;
static bool near(C a, C b) { double x = a.real() - b.real(), y = a.imag() - b.imag(); return x < 1e-9 && -x < 1e-9 && y < 1e-9 && -y < 1e-9; }
extern "C" void sx_main() {
  int mode = sx_param("MODE", 0); bool expo = mode == 2 || mode == 4; int K = sx_param("K", 5); size_t mx = pickN("iterations", 1, K); DIM = (int)pickN("dimension", 1, K); ENDAT = (int)pickN("exhausted", 0, K) - 1; const double err = 0.0625; double dt = pickN("backward", 0, 1) ? -0.5 : 0.25;
  EV.assign(K + 3, 0); SAME.assign(K + 3, 0); EV[1] = aOf(0); size_t conv = K + 9;   // the first size at which the requested accuracy is reached
  for (int n = 2; n <= K + 1; ++n) { bool c = n <= (int)mx + 1 && pickN("accurate", 0, 1) == 1; if (expo) { SAME[n] = c && n > 2; EV[n] = -1.0 - 0.5 * n; if (c && n == 2) c = false; } else EV[n] = EV[n - 1] - (c ? err / 2 : 2 * err); if (c && conv > (size_t)n) conv = n; }
  V* st = new V; st->add(INIT, 1); LanczosParams p(err, mx); std::vector<V*> h(1); size_t stop = std::min<size_t>(std::min<size_t>(conv, DIM + 1), std::max<size_t>(mx, 2)); bool exhausted = ENDAT >= 0 && (size_t)ENDAT + 1 < stop; size_t want = exhausted ? ENDAT + 1 : stop; V* r; size_t iters;
  V e0, e3; std::vector<V*> four = {&e0, nullptr, nullptr, &e3}; ENV[0] = &e0; ENV[3] = &e3; mpi::W().seq.assign(1, 0); int base = LIVES - 1;
  if (mode == 4) { auto x = MasterLanczosExpmvSolver(four, st, dt, p, MPI_COMM_WORLD); r = x.expmv; iters = x.iters; }
  else if (mode == 5) { MPI_Comm world = MPI_COMM_WORLD; LanczosRes<V> x; { FX f(FiniteVMPSSweepParams(1, 1, 8, 0, p), world); x = f.LanczosSolver_(st); } r = x.gs_vec; iters = x.iters; sx_assert(x.gs_eng == EV[want], "the returned energy is not the lowest eigenvalue of the final projected operator"); }
  else if (mode == 3) { auto x = MasterLanczosSolver(four, st, p, MPI_COMM_WORLD); r = x.gs_vec; iters = x.iters; sx_assert(x.gs_eng == EV[want], "the returned energy is not the lowest eigenvalue of the final projected operator"); }
  else if (expo) { auto x = LanczosExpmvSolver(h, st, &mul, dt, p); r = x.expmv; iters = x.iters; }
  else { LanczosRes<V> x; if (mode == 0) x = LanczosSolver(h, st, &mul, p); else { SuperBlockHamiltonianTerms<V> s; x = LanczosSolver(s, st, p); } r = x.gs_vec; iters = x.iters; sx_assert(x.gs_eng == EV[want], "the returned energy is not the lowest eigenvalue of the final projected operator"); }
  sx_assert(iters == want, "the iteration stops at the wrong point"); sx_assert(LIVES == base + 1, "vectors are leaked");
  if (mode == 5) { auto& c = mpi::W().colls; sx_assert((int)c.size() == MULS + 1, "the workers get another number of orders than products are made"); for (int i = 0; i <= MULS; ++i) sx_assert(*std::static_pointer_cast<MPS_AlGO_ORDER>(c[i].data) == (i == MULS ? lanczos_finish : i ? lanczos_mat_vec_static : lanczos_mat_vec_dynamic), "the workers get a wrong order"); }
  else if (mode > 2) { auto& c = mpi::W().colls; sx_assert((int)c.size() == MULS, "the workers get another number of orders than products are made"); for (int i = 0; i < MULS; ++i) sx_assert(*std::static_pointer_cast<MPS_AlGO_ORDER>(c[i].data) == (i + 1 < MULS ? lanczos_mat_vec_dynamic : lanczos_finish), "the workers get a wrong order"); }
  for (size_t i = 0; i < want; ++i) { C w; if (expo) { w = 0; if (want == 1) w = std::exp(C(0, -dt * aOf(0))); else for (size_t j = 0; j < want; ++j) w += zOf(want, i, j) * std::exp(C(0, -dt * dOf(want, j))) * zOf(want, 0, j); if (mode == 2) w *= NORM0; } else w = want == 1 ? 1 : zOf(want, i, 0); sx_assert(near(r->at((int)i), w), "the result is not the requested combination of the basis"); }
  for (auto& x : r->t) sx_assert(x.first < (int)want || x.second == C(0), "the result contains foreign vectors"); delete r; sx_reach(exhausted ? "exhausted" : want == conv ? "accurate" : want == mx ? "iteration limit" : want == (size_t)DIM + 1 ? "full space" : "limit");
}
