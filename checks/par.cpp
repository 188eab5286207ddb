// C22: the distributed algorithms give the serial result with any number of processes, any sectors and in every order of arrival.
// MODE: 0 effective Hamiltonian, 1 left environment, 2 right environment (2nd argument INIT: the environment is sent along), 4 two-site sweeps
#define USE_MKL
#define WITH_MPI
#include "diag/mpslib.h"
#include "qlmps/algorithm/lanczos_params.h"
#define LanczosSolver LanczosSolver_real
#include "qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h"
#undef LanczosSolver
#include "diag/sweeplib.h"
#include "qlmps/algo_mpi/env_ten_update_master.h"
#include "qlmps/algo_mpi/env_ten_update_slave.h"
#include "qlmps/algo_mpi/vmps/lanczos_solver_mpi_slave.h"
#include "qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h"
static size_t P, MODE, INIT, ROUNDS; static std::vector<T*> H; static T ST, A, W, ENV; static const MPI_Comm COMM = MPI_COMM_WORLD;
static int anyOf(size_t n) { return (int)pickN("first", 0, n - 1); }
static I sectors(const char* nm, size_t i, TenIndexDirType d, size_t max, size_t deg) { size_t n = pickN("sectors", 1, max); std::vector<QNSector<Q>> v; for (size_t k = 0; k < n; ++k) v.push_back(QNSector<Q>(qn((int)k), pickN("degeneracy", 1, deg))); return I(v, d, nameOf(nm, i)); }
static void part(const T& t, size_t leg, std::function<void(const T&)> f) { for (size_t k = 0; k < t.GetIndex(leg).GetQNSctNum(); ++k) f(diag::sectorOf(t, leg, k)); }
static void master(int) {
  for (size_t r = 0; r < ROUNDS; ++r) {
    T got, want; if (MODE == 0) {
      double o = 0; T state = ST; o = master_two_site_eff_ham_mul_state(H, &state, got, COMM); T* p = eff_ham_mul_two_site_state(H, &state); want = *p; delete p; T d = Dag(ST); double w = 0; part(want, 0, [&](const T& t) { w += Real(ct(t, {0, 1, 2, 3}, d, {0, 1, 2, 3})()); }); sx_assert(close(o, w), "the expectation value is not that of the product");
    } else { T* p = MODE == 1 ? INIT ? MasterGrowLeftEnvironmentInit(ENV, W, A, COMM) : MasterGrowLeftEnvironment(W, A, COMM) : INIT ? MasterGrowRightEnvironmentInit(ENV, W, A, COMM) : MasterGrowRightEnvironment(W, A, COMM); got = *p; delete p; want = MODE == 1 ? growL(ENV, A, W) : growR(ENV, A, W); }
    sx_assert(got.GetIndexes() == want.GetIndexes(), "the gathered tensor has other indexes than the serial one"); sx_assert(got.same(want), "the gathered tensor is not the serial one"); sx_reach("gathered");
    if (MODE == 0) ST = got;
  }
  MasterBroadcastOrder(program_final, kMPIMasterRank, COMM);
}
static void slave(int) {
  for (size_t r = 0; r < ROUNDS; ++r) { if (MODE == 0) slave_two_site_eff_ham_mul_state(H, COMM); else if (MODE == 1) INIT ? SlaveGrowLeftEnvironmentInit<E, Q>(COMM) : SlaveGrowLeftEnvironment(ENV, W, COMM); else INIT ? SlaveGrowRightEnvironmentInit<E, Q>(COMM) : SlaveGrowRightEnvironment(ENV, W, COMM); }
  sx_assert(SlaveGetBroadcastOrder(kMPIMasterRank, COMM) == program_final, "the processes are out of step"); sx_reach("finished");
}
extern "C" void sx_main() {
  MODE = sx_param("MODE", 0); P = pickN("processes", 2, sx_param("PROCS", 3)); size_t max = sx_param("SECT", 3), deg = sx_param("DEG", 2); ROUNDS = sx_param("ROUNDS", 1); INIT = MODE && sx_bool("init"); mpi::W().buffered = sx_bool("buffered"); mpi::choose() = anyOf;
  I w0 = bond("w", 0, 3, IN), w1 = bond("w", 1, 3), w2 = bond("w", 2, 3); auto op = [&](const char* n, const I& l, const I& r) { return T::atom({l, InverseIndex(phys()), phys(), r}, nameOf(n, 0)); };
  if (MODE == 0) { I l = sectors("l", 0, IN, max, deg), r = bond("r", 0, 2); T lenv = T::atom({l, InverseIndex(w0), InverseIndex(l)}, nameOf("L", 0)), renv = T::atom({r, InverseIndex(w2), InverseIndex(r)}, nameOf("R", 0)); static T a, b, c, d; a = lenv; b = op("W1", w0, w1); c = op("W2", InverseIndex(w1), w2); d = renv; H = {&a, &b, &c, &d}; ST = T::atom({l, phys(), phys(), r}, nameOf("S", 0)); }
  else { I s = sectors("l", 0, MODE == 1 ? OUT : IN, max, deg), o = bond("r", 0, 2, MODE == 1 ? IN : OUT); W = op("W1", w0, w1); if (MODE == 1) { A = T::atom({o, phys(), s}, nameOf("A", 0)); ENV = T::atom({o, InverseIndex(w0), InverseIndex(o)}, nameOf("L", 0)); } else { A = T::atom({s, phys(), o}, nameOf("A", 0)); ENV = T::atom({o, InverseIndex(w1), InverseIndex(o)}, nameOf("R", 0)); } }
  std::vector<std::function<void(int)>> b(P, slave); b[0] = master; mpi::run(b);
}
