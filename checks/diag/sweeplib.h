// shared by the sweep harnesses: ghost of the whole state, environments recomputed from scratch, the eigensolver replaced by a fresh tensor
#pragma once
#include "diag/mpslib.h"
#include "qlmps/consts.h"
#include "qlmps/one_dim_tn/mpo/mpo.h"
#ifdef WITH_MPI
#include "qlmps/algo_mpi/mps_algo_order.h"
namespace qlmps { using namespace qlten; template <typename E, typename Q> QLTEN_Double master_two_site_eff_ham_mul_state(const std::vector<QLTensor<E, Q>*>&, QLTensor<E, Q>*, QLTensor<E, Q>&, const MPI_Comm&); template <typename E, typename Q> QLTensor<E, Q>* eff_ham_mul_two_site_state(const std::vector<QLTensor<E, Q>*>&, QLTensor<E, Q>*); }
#endif
typedef MPO<T> MpoT;
static Mps* MP; static const MpoT* MO; static std::string DIR; static T WANT; static bool EXACT = true; static T HST;   // the Hamiltonian acting on the last local state handed to a solver
inline size_t wdim(size_t i) { return i == 0 || i == N ? 1 : 3; }
inline T mpoTen(size_t i) { return T::atom({bond("W", i, wdim(i), IN), InverseIndex(phys()), phys(), bond("W", i + 1, wdim(i + 1))}, nameOf("W", i + 1000)); }
inline void setMpo(MpoT& m) { for (size_t i = 0; i < N; ++i) { m.alloc(i); m[i] = mpoTen(i); } }
inline T ct(const T& a, std::vector<size_t> x, const T& b, std::vector<size_t> y) { T r; Contract(&a, x, &b, y, &r); return r; }
// the tensors as they are now: in memory if there, otherwise in their file
static std::vector<const Mps*> LIVE;   // further matrix product states the code under test has created
template <typename Elem, typename QN> struct TrackedMPS : FiniteMPS<Elem, QN> {
  TrackedMPS(const SiteVec<Elem, QN>& s) : FiniteMPS<Elem, QN>(s) { LIVE.push_back(this); }
  TrackedMPS(const TrackedMPS& o) : FiniteMPS<Elem, QN>(o) { LIVE.push_back(this); }
  TrackedMPS& operator=(const TrackedMPS&) = default;
  ~TrackedMPS() { LIVE.erase(std::find(LIVE.begin(), LIVE.end(), (const Mps*)this)); }
};
inline std::vector<T> tensors() { std::vector<T> r; for (size_t i = 0; i < N; ++i) { const T* p = MP ? static_cast<const Mps&>(*MP)(i) : nullptr; for (auto x : LIVE) if ((*x)(i)) p = (*x)(i); if (p) r.push_back(*p); else { const Mps& m = MP ? *MP : *LIVE[0]; Mps f(m.GetSitesInfo()); f.LoadTen(i, GenMPSTenName(DIR, i)); r.push_back(static_cast<const Mps&>(f)[i]); } } return r; }
// legs {bra, operator, ket}
inline T edge(const T& a, const T& w, bool left) { I k = left ? InverseIndex(a.GetIndex(0)) : InverseIndex(a.GetIndex(2)), o = InverseIndex(w.GetIndex(left ? 0 : 3)); T t({InverseIndex(k), o, k}); t({0, 0, 0}) = E(1); return t; }
inline T growL(const T& l, const T& a, const T& w) { T r = ct(ct(ct(l, {2}, a, {0}), {1, 2}, w, {0, 1}), {0, 2}, Dag(a), {0, 1}); r.Transpose({2, 1, 0}); return r; }
inline T growR(const T& l, const T& a, const T& w) { T r = ct(ct(ct(l, {2}, a, {2}), {1, 3}, w, {3, 1}), {0, 3}, Dag(a), {2, 1}); r.Transpose({2, 1, 0}); return r; }
inline T envL(const std::vector<T>& a, size_t n) { T l = edge(a[0], (*MO)[0], true); for (size_t i = 0; i < n; ++i) l = growL(l, a[i], (*MO)[i]); return l; }
inline T envR(const std::vector<T>& a, size_t n) { T l = edge(a[N - 1], (*MO)[N - 1], false); for (size_t i = N; i-- > n;) l = growR(l, a[i], (*MO)[i]); return l; }
inline T whole(const std::vector<T>& a, size_t from, size_t to, const T& mid) { T r = mid; for (size_t i = from; i-- > 0;) { r = ct(a[i], {2}, r, {0}); } for (size_t i = to; i < N; ++i) r = ct(r, {r.Rank() - 1}, a[i], {0}); return r; }
inline bool eq(const T& a, const T& b) { return a.GetIndexes() == b.GetIndexes() && a.same(b); }
struct Call { size_t l, n; double e; };
static std::vector<Call> CALLS;
inline void canonical(const std::vector<T>& a, size_t l, size_t n) { for (size_t i = 0; i < N; ++i) { if (i < l) sx_assert(isometry(a[i], 2), "a tensor left of the updated sites is not left-canonical"); if (i >= l + n) sx_assert(isometry(a[i], 0), "a tensor right of the updated sites is not right-canonical"); } }
// the environments and the local state handed to a solver must be those of the present state
inline size_t checkLocal(const std::vector<T*>& h, const T& st, T* (*mul)(const std::vector<T*>&, T*), size_t n) {
  auto a = tensors(); size_t l = N; for (size_t i = 0; i + n <= N; ++i) { T loc = a[i]; for (size_t k = 1; k < n; ++k) loc = ct(loc, {loc.Rank() - 1}, a[i + k], {0}); if (eq(loc, st)) { l = i; break; } }
  if (l == N) sx_fail("the state to be optimised is not the present state at any pair of sites"); sx_assert(h.size() == n + 2, "wrong number of environments"); canonical(a, l, n);
  sx_assert(eq(*h[0], envL(a, l)), "the left environment is not that of the present state"); sx_assert(eq(*h[n + 1], envR(a, l + n)), "the right environment is not that of the present state");
  for (size_t k = 0; k < n; ++k) sx_assert(eq(*h[1 + k], (*MO)[l + k]), "the effective Hamiltonian has the operator of another site");
  T w = st, *p = mul(h, &w), r = ct(*h[0], {2}, st, {0}); for (size_t k = 0; k < n; ++k) { r = ct(r, {k + 1, k + 2}, (*MO)[l + k], {0, 1}); size_t m = r.Rank(); std::vector<size_t> o; for (size_t x = 0; x <= k; ++x) o.push_back(x); o.push_back(m - 2); o.push_back(m - 1); for (size_t x = k + 1; x + 2 < m; ++x) o.push_back(x); r.Transpose(o); }
  r = ct(r, {n + 1, n + 2}, *h[n + 1], {1, 2}); sx_assert(eq(*p, r), "the effective Hamiltonian is applied wrongly"); delete p; HST = r;
  if (EXACT) sx_assert(whole(a, l, l + n, st).same(WANT), "the state changed between two updates"); return l;
}
// noise: what is decomposed is the optimum, enlarged along one outer leg by a multiple of the Hamiltonian acting on it
static T GS, LENV, RENV; static size_t GSL, GSN = 0; static int ENLARGED;
static std::vector<double> ALLOWED; static bool AMPS = false;   // amplitudes the noise may have now
inline bool mayBe(double sq) { for (double a : ALLOWED) { double d = a * a - sq; if (a > 1e-10 && d < 1e-9 && d > -1e-9) return true; } return false; }
inline void checkEnlarged(const T& t, size_t) {
  if (!GSN) return; size_t n = GSN, r = n + 1, diff = 0, leg = 0; if (t.Rank() != GS.Rank()) return; for (size_t i = 0; i < t.Rank(); ++i) if (t.GetIndex(i) != GS.GetIndex(i)) { ++diff; leg = i; }
  if (diff > 1) return; GSN = 0; if (!diff) { sx_assert(t.same(GS), "what is decomposed is not the optimum"); return; } sx_assert(leg == 0 || leg == r, "the optimum is enlarged along an inner leg"); ++ENLARGED; sx_reach("enlarged"); if (AMPS) { bool any = false; for (double a : ALLOWED) any = any || a > 1e-10; sx_assert(any, "the optimum is enlarged although the noise is zero"); } if (leg && GS.GetIndex(leg).dir != OUT) return;   // there the operator is replaced by a factor of it
  T x = leg ? ct(LENV, {2}, GS, {0}) : ct(RENV, {2}, GS, {r}); // {bra, operator, rest}
  if (leg) for (size_t k = 0; k < n; ++k) { x = ct(x, {1, 2}, (*MO)[GSL + k], {0, 1}); size_t m = x.Rank(); std::vector<size_t> o = {0, m - 1}; for (size_t i = 1; i + 1 < m; ++i) o.push_back(i); x.Transpose(o); }   // {bra, operator, remaining kets, ket bond, done}
  else for (size_t k = n; k-- > 0;) { size_t m = x.Rank(); x = ct(x, {1, 3 + k}, (*MO)[GSL + k], {3, 1}); std::vector<size_t> o = {0, m - 2}; for (size_t i = 1; i + 2 < m; ++i) o.push_back(i); o.push_back(m - 1); x.Transpose(o); }
  // both reduced to the legs {bra, done...} times their adjoint over operator and ket bond
  T d = Dag(x), want = ct(x, {1, 2}, d, {1, 2}), g = GS, gg = ct(g, {leg}, Dag(g), {leg}), tt = ct(t, {leg}, Dag(t), {leg}); T diffT = tt; gg *= E(-1); diffT += gg;
  std::vector<size_t> o; for (size_t half = 0; half < 2; ++half) { size_t b = half * (n + 1); if (leg) { for (size_t i = 0; i <= n; ++i) o.push_back(b + i); } else { for (size_t i = n + 1; i-- > 1;) o.push_back(b + i); o.push_back(b); } } want.Transpose(o);
#ifdef DBGX
  auto sh = [&](const char* w, const T& q) { printf("%s:", w); for (auto& i : q.GetIndexes()) printf(" %d/%llx", (int)i.dir, (unsigned long long)i.id % 4096); printf("\n"); for (auto& z : q.terms()) { printf("   %g open", z.c); for (int o : z.n.open) printf(" %d", o); for (auto& a : z.n.at) { printf(" | %d:%llx%s(", diag::info(a.nm).kind, a.nm % 4096, a.cj ? "*" : ""); for (int o : a.w) printf("%d ", o); printf(")"); } printf("\n"); } };
  sh("diff", diffT); sh("want", want); sh("t", t);
#endif
  sx_assert(diffT.GetIndexes() == want.GetIndexes() && sameDirection(diffT, want), "the optimum is not enlarged by the Hamiltonian acting on it");
  if (AMPS) { double c, d; std::vector<diag::Atom> x1, x2; diffT.stripped(c, x1); want.stripped(d, x2); sx_assert(x1.size() == x2.size() && mayBe(c / d), "the noise does not have the requested amplitude"); sx_reach("amplitude"); }
}
#ifdef WITH_MPI
static size_t PROCS, ARRIVE; static size_t TURN;
inline int arrive(size_t n) { ++TURN; return ARRIVE == 0 ? 0 : ARRIVE == 1 ? (int)n - 1 : int(TURN % n); }
inline bool lateThread() { static size_t k = 0; ++k; return ARRIVE == 1 || (ARRIVE == 2 && k % 2); }
inline void parallelSetup() { PROCS = pickN("processes", 2, sx_param("PROCS", 3)); ARRIVE = pickN("arrival", 0, 2); mpi::W().buffered = sx_bool("buffered"); mpi::choose() = arrive; mpi::late() = lateThread; diag::fine() = true; }
template <class F, class G> void parallel(F master, G slave) { std::vector<std::function<void(int)>> b; b.push_back([&](int) { master(); }); for (size_t i = 1; i < PROCS; ++i) b.push_back([&](int) { slave(); }); mpi::run(b); }
// what the master of a distributed solver must do for the workers: hand out the environments, multiply at least once, and say when it is over
inline void serve(const std::vector<T*>& h, const T& st, const MPI_Comm& comm) {
  MPI_Bcast(*h[0], kMPIMasterRank, comm); MPI_Bcast(*h[3], kMPIMasterRank, comm); size_t n = 1 + TURN % 2;
  for (size_t k = 0; k < n; ++k) { if (k) MasterBroadcastOrder(lanczos_mat_vec_dynamic, kMPIMasterRank, comm); T x = st, r; master_two_site_eff_ham_mul_state(h, &x, r, comm); T* w = eff_ham_mul_two_site_state(h, &x); sx_assert(eq(r, *w), "the distributed product is not the serial one"); delete w; }
  MasterBroadcastOrder(lanczos_finish, kMPIMasterRank, comm);
}
#endif
