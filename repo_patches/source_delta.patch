From b1e9628251ff7c1465bf3535d51387437e91633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 01/17] fix: FSM counts every single-site term

Two identical single-site terms share the ready-final link, whose entry was left
unchanged when it already equalled the term being added, so the second term was
dropped.  Only the ready-ready and final-final identity links are shared.
---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index dec4279..2993c4e 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -275,11 +275,12 @@ inline void FSM::CastFSMPathToMatRepr_(
 
     if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) == kNullOpRepr) {
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, tgt_op);
-    } else if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
+    } else if (tgt_row_fsm_node.fsm_stat_idx != tgt_col_fsm_node.fsm_stat_idx ||
+        fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
       auto new_op = fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) + tgt_op;
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, new_op);
     } else {
-      // Do nothing
+      // The ready-ready (or final-final) identity link is shared by the paths.
     }
   }
 }
-- 
2.43.0


From 1a7b0431d69058600d08f2732b10e035840106e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:32 +0000
Subject: [PATCH 02/17] fix: DuoVector self-assignment keeps the elements

Copy and move assignment released the target's elements before reading the
source, so assigning a vector (and hence an MPS or MPO) to itself lost them.
---
 include/qlmps/one_dim_tn/framework/duovector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index c009fe0..9b4a25c 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -64,6 +64,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(const DuoVector<ElemT> &rhs) {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I'm no sure why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
@@ -98,6 +99,7 @@ public:
   @param rhs A DuoVector instance.
   */
   DuoVector<ElemT> &operator=(DuoVector<ElemT> &&rhs) noexcept {
+    if (this == &rhs) { return *this; }
 //    this->DuoVector::~DuoVector();
 //    I have no idea why above line do not work if used in the derived FiniteMPS class
     for (auto &rpelem : raw_data_) {
-- 
2.43.0


From 4f60958738956cf6f8facf6fc893e47665466401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:39 +0000
Subject: [PATCH 03/17] fix: the params parser rejects numbers that do not fit
 the requested type

---
 include/qlmps/case_params_parser.h | 45 ++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/case_params_parser.h b/include/qlmps/case_params_parser.h
index 0961f6e..395e077 100644
--- a/include/qlmps/case_params_parser.h
+++ b/include/qlmps/case_params_parser.h
@@ -18,6 +18,10 @@
 
 #include <iostream>
 #include <fstream>                                  // ifstream
+#include <cstdint>                                  // int64_t, uint64_t
+#include <limits>                                   // numeric_limits
+#include <stdexcept>                                // invalid_argument
+#include <type_traits>                              // is_integral
 
 #include "qlmps/third_party/nlohmann/json.hpp"     // json
 
@@ -250,13 +254,50 @@ class CaseParamsParserBasic {
     return TryParseStrict<std::vector<double>>(item, out_value);
   }
  private:
+  // A number must fit the requested type: no boolean or floating number for an
+  // integer, no boolean for a floating number, no value out of range.
+  template <typename T>
+  static bool Fits(const json &value, const T *) {
+    if constexpr (std::is_integral<T>::value && !std::is_same<T, bool>::value) {
+      if (value.is_number_unsigned()) {
+        return value.template get<std::uint64_t>() <=
+            static_cast<std::uint64_t>(std::numeric_limits<T>::max());
+      }
+      if (!value.is_number_integer()) return false;
+      const auto v = value.template get<std::int64_t>();
+      return v < 0 ? (std::is_signed<T>::value && v >= static_cast<std::int64_t>(std::numeric_limits<T>::min()))
+                   : static_cast<std::uint64_t>(v) <= static_cast<std::uint64_t>(std::numeric_limits<T>::max());
+    } else if constexpr (std::is_floating_point<T>::value) {
+      return value.is_number();
+    } else {
+      return true;
+    }
+  }
+
+  template <typename T>
+  static bool Fits(const json &value, const std::vector<T> *) {
+    if (!value.is_array()) return false;
+    for (const auto &el : value) {
+      if (!Fits(el, static_cast<const T *>(nullptr))) return false;
+    }
+    return true;
+  }
+
+  template <typename T>
+  static T CheckedGet(const json &value) {
+    if (!Fits(value, static_cast<const T *>(nullptr))) {
+      throw std::invalid_argument("the value does not fit the requested type");
+    }
+    return value.template get<T>();
+  }
+
   template <typename T>
   T StrictParse(const std::string &item, const char *expected_type_name) const {
     if (case_params_.find(item) == case_params_.end()) {
       ReportAndExitMissing(item, expected_type_name);
     }
     try {
-      return case_params_.at(item).get<T>();
+      return CheckedGet<T>(case_params_.at(item));
     } catch (const std::exception &e) {
       const char *actual = case_params_.at(item).type_name();
       ReportAndExitMissingOrInvalid(item, expected_type_name, actual);
@@ -268,7 +309,7 @@ class CaseParamsParserBasic {
   bool TryParseStrict(const std::string &item, T &out_value) const {
     if (case_params_.find(item) == case_params_.end()) return false;
     try {
-      out_value = case_params_.at(item).get<T>();
+      out_value = CheckedGet<T>(case_params_.at(item));
       return true;
     } catch (...) {
       return false;
-- 
2.43.0


From e419596e24d3d4760bc6ede75f94474d3dfe3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:49 +0000
Subject: [PATCH 04/17] fix: a printed coefficient sum names each of its
 coefficients

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index 486a437..e017a1c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -134,7 +134,7 @@ class CoefRepr {
     } else {
       std::string symbol_string = "(";
       for (size_t i = 0; i < coef_label_list_.size(); i++) {
-        const CNumberLabel coef_label = coef_label_list_[1];
+        const CNumberLabel coef_label = coef_label_list_[i];
         if (coef_label == kIdCoefLabel) {
           symbol_string += "1";
         } else {
-- 
2.43.0


From f29d90efa5e921836df4382e44b687ab5aaaee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 05/17] fix: writing the null element clears a sparse matrix
 element

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
index 62f108d..4a4559d 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
@@ -67,8 +67,11 @@ class SparMat {
   }
 
   void SetElem(const size_t x, const size_t y, const ElemType &elem) {
-    if (elem == nullelem) { return; }
     auto offset = CalcOffset(x, y);
+    if (elem == nullelem) {
+      indexes[offset] = -1;
+      return;
+    }
     if (indexes[offset] == -1) {
       data.push_back(elem);
       long idx = data.size() - 1;
-- 
2.43.0


From d7266f26e7664ad7bcafd489e6e03938c3de01d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:25 +0000
Subject: [PATCH 06/17] fix: tJOperators: bdnc_multi_bupa and bupc_multi_bdna
 were exchanged

With Tensor({col, row}) = <row|O|col>, c^dag_down c_up takes |up> to |down>.
---
 include/qlmps/model_relevant/operators/fermion/tJ_operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
index 4d7d693..6b828b3 100644
--- a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
@@ -69,8 +69,8 @@ struct tJOperators {
     ndn({spin_down, spin_down}) = 1;      // ⟨↓| n_↓ |↓⟩ = 1
 
     // Composite operators
-    bdnc_multi_bupa({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↓ c_↑ |↓⟩ = 1
-    bupc_multi_bdna({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↑ c_↓ |↑⟩ = 1
+    bdnc_multi_bupa({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↓ c_↑ |↑⟩ = 1
+    bupc_multi_bdna({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↑ c_↓ |↓⟩ = 1
   }
 
   // Spin operators
-- 
2.43.0


From 1303622cbf79d108bd7d5f595817f2a03ceddc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:00 +0000
Subject: [PATCH 07/17] fix: MeasureFourSiteOpGroup frees the tensors of every
 event

When the last target pair (in order of its first site) did not reach as far
as an earlier one, the tensors loaded for the earlier pair stayed in memory
and the final assert(mps.empty()) failed in debug builds.
---
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
index 78002ab..fee9507 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
@@ -376,7 +376,7 @@ MeasuRes<TenElemT> MeasureFourSiteOpGroup(
                                                 avg);
   }
   //clean the data
-  for (size_t i = target_sites_set.back()[0]; i <= target_sites_set.back()[1]; i++) {
+  for (size_t i = 0; i < mps.size(); i++) {    // An earlier event may reach further than the last one.
     mps.dealloc(i);
   }
   assert(mps.empty());
-- 
2.43.0


From 24e7e583f873d18433b2cdba6c4448f49dac7b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 08/17] fix: DMRGExecutor releases its tensors after moving the
 centre (a second Execute aborted)

---
 include/qlmps/algorithm/dmrg/dmrg_impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algorithm/dmrg/dmrg_impl.h b/include/qlmps/algorithm/dmrg/dmrg_impl.h
index 9e6395c..8b98d8a 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_impl.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_impl.h
@@ -463,9 +463,9 @@ void DMRGExecutor<TenElemT, QNT>::DMRGPostProcess_() {
   for (size_t site = center; site > 0; site--) {
     mps_.LoadTen(sweep_params.mps_path, site - 1);
     mps_.RightCanonicalizeTen(site);
-    mps_.DumpTen(sweep_params.mps_path, site);
+    mps_.DumpTen(site, GenMPSTenName(sweep_params.mps_path, site), true);
   }
-  mps_.DumpTen(sweep_params.mps_path, 0);
+  mps_.DumpTen(0, GenMPSTenName(sweep_params.mps_path, 0), true);
   std::cout << "Moved the center of MPS to 0." << std::endl;
 }
 
-- 
2.43.0


From a28ba0fb3f63b82b5c77f045563a06be026e4591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 09/17] fix: Krylov solvers do not write outside their buffers
 for max_iterations below 2

---
 .../algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h | 12 +++++++-----
 .../qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h | 14 ++++++++------
 .../algo_mpi/vmps/lanczos_solver_mpi_master.h      | 10 ++++++----
 .../algorithm/dmrg/lanczos_dmrg_solver_impl.h      | 12 +++++++-----
 .../algorithm/tdvp/lanczos_expmv_solver_impl.h     | 14 ++++++++------
 .../algorithm/vmps/lanczos_vmps_solver_impl.h      | 12 +++++++-----
 6 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index c4ad67c..8620891 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -15,6 +15,7 @@
 @file lanczos_dmrg_solver_mpi_master.h
 @brief Implementation details for Lanczos solver in DMRG.
 */
+#include <algorithm>                            // max
 #include "qlmps/algorithm/lanczos_params.h"    // LanczosParams
 #include "qlten/qlten.h"
 #include "qlten/utility/timer.h"               // Timer
@@ -56,10 +57,11 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     energy_measu_ctrct_axes = {{0, 1, 2, 3}, {0, 1, 2, 3}};
   }
 
-  std::vector<Tensor *> bases(params.max_iterations, nullptr);
-  std::vector<QLTEN_Double> a(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> b(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> N(params.max_iterations, 0.0);
+  const size_t max_iterations = std::max<size_t>(params.max_iterations, 2);  // a step needs two bases
+  std::vector<Tensor *> bases(max_iterations, nullptr);
+  std::vector<QLTEN_Double> a(max_iterations, 0.0);
+  std::vector<QLTEN_Double> b(max_iterations, 0.0);
+  std::vector<QLTEN_Double> N(max_iterations, 0.0);
 
   // Initialize Lanczos iteration.
   pinit_state->Normalize();
@@ -147,7 +149,7 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
     if (
         ((energy0 - energy0_new) < params.error) ||
             (m == eff_ham_eff_dim) ||
-            (m == params.max_iterations - 1)
+            (m == max_iterations - 1)
         ) {
       TridiagGsSolver(a, b, m + 1, eigval, eigvec, 'V');
       energy0 = energy0_new;
diff --git a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
index 7f2b59d..3b25f11 100644
--- a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
+++ b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
@@ -9,6 +9,7 @@
 
 #ifndef QLMPS_ALGO_MPI_LANCZOS_EXPMV_SOLVER_MPI_H
 #define QLMPS_ALGO_MPI_LANCZOS_EXPMV_SOLVER_MPI_H
+#include <algorithm>                            // max
 
 namespace qlmps {
 using namespace qlten;
@@ -57,9 +58,10 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
     energy_measu_ctrct_axes = {{0, 1, 2, 3}, {0, 1, 2, 3}};
   }
 
-  std::vector<TenT *> bases(params.max_iterations);
-  std::vector<QLTEN_Double> a(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> b(params.max_iterations, 0.0);
+  const size_t max_iterations = std::max<size_t>(params.max_iterations, 2);  // a step needs two bases
+  std::vector<TenT *> bases(max_iterations);
+  std::vector<QLTEN_Double> a(max_iterations, 0.0);
+  std::vector<QLTEN_Double> b(max_iterations, 0.0);
 
 #ifdef QLMPS_TIMING_MODE
   Timer normalize_timer("lancz_normlize");
@@ -83,8 +85,8 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
 #endif
   size_t m = 0;
 
-  QLTEN_Complex *combination_factor = new QLTEN_Complex[params.max_iterations];//combination of bases
-  QLTEN_Complex *last_combination_factor = new QLTEN_Complex[params.max_iterations];
+  QLTEN_Complex *combination_factor = new QLTEN_Complex[max_iterations];//combination of bases
+  QLTEN_Complex *last_combination_factor = new QLTEN_Complex[max_iterations];
 
   while (true) {
     m += 1;
@@ -172,7 +174,7 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
     double distance = Distance(last_combination_factor, combination_factor, m + 1);
     if (distance < params.error ||
         m == eff_ham_eff_dim ||
-        m == params.max_iterations - 1
+        m == max_iterations - 1
         ) {
 #ifdef QLMPS_TIMING_MODE
       trigssolver.PrintElapsed();
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 89c5382..0c6359c 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -19,6 +19,7 @@
 #ifndef QLMPS_ALGO_MPI_LANCZOS_SOLVER_MPI_H
 #define QLMPS_ALGO_MPI_LANCZOS_SOLVER_MPI_H
 
+#include <algorithm>                            // max
 #include <cstdlib>                             // size_t
 #include "qlmps/algorithm/lanczos_params.h"    // Lanczos Params
 #include "qlmps/algo_mpi/mps_algo_order.h"          // order
@@ -69,9 +70,10 @@ LanczosRes<TenT> MasterLanczosSolver(
 
   LanczosRes<TenT> lancz_res;
 
-  std::vector<TenT *> bases(params.max_iterations);
-  std::vector<QLTEN_Double> a(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> b(params.max_iterations, 0.0);
+  const size_t max_iterations = std::max<size_t>(params.max_iterations, 2);  // a step needs two bases
+  std::vector<TenT *> bases(max_iterations);
+  std::vector<QLTEN_Double> a(max_iterations, 0.0);
+  std::vector<QLTEN_Double> b(max_iterations, 0.0);
 
   // Initialize Lanczos iteration.
 #ifdef QLMPS_TIMING_MODE
@@ -200,7 +202,7 @@ LanczosRes<TenT> MasterLanczosSolver(
     if (
         ((energy0 - energy0_new) < params.error) ||
             (m == eff_ham_eff_dim) ||
-            (m == params.max_iterations - 1)
+            (m == max_iterations - 1)
         ) {
 #ifdef QLMPS_TIMING_MODE
       trigssolver.Restart();
diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index e284521..7f44df6 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -14,6 +14,7 @@
 #ifndef QLMPS_ALGORITHM_LANCZOS_DMRG_SOLVER_IMPL_H
 #define QLMPS_ALGORITHM_LANCZOS_DMRG_SOLVER_IMPL_H
 
+#include <algorithm>                            // max
 #include "qlmps/algorithm/lanczos_params.h"    // LanczosParams
 #include "qlten/qlten.h"
 #include "qlten/utility/timer.h"               // Timer
@@ -77,10 +78,11 @@ LanczosRes<TenT> LanczosSolver(
     energy_measu_ctrct_axes = {{0, 1, 2, 3}, {0, 1, 2, 3}};
   }
 
-  std::vector<TenT *> bases(params.max_iterations, nullptr);
-  std::vector<QLTEN_Double> a(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> b(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> N(params.max_iterations, 0.0);
+  const size_t max_iterations = std::max<size_t>(params.max_iterations, 2);  // a step needs two bases
+  std::vector<TenT *> bases(max_iterations, nullptr);
+  std::vector<QLTEN_Double> a(max_iterations, 0.0);
+  std::vector<QLTEN_Double> b(max_iterations, 0.0);
+  std::vector<QLTEN_Double> N(max_iterations, 0.0);
 
   // Initialize Lanczos iteration.
   pinit_state->Normalize();
@@ -177,7 +179,7 @@ LanczosRes<TenT> LanczosSolver(
     if (
         ((energy0 - energy0_new) < params.error) ||
             (m == eff_ham_eff_dim) ||
-            (m == params.max_iterations - 1)
+            (m == max_iterations - 1)
         ) {
       TridiagGsSolver(a, b, m + 1, eigval, eigvec, 'V');
       energy0 = energy0_new;
diff --git a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
index 49a6ad9..7627cd3 100644
--- a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
+++ b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
@@ -14,6 +14,7 @@
 #ifndef QLMPS_ALGORITHM_LANCZOS_SOLVER_EXPMV_IMPL_H
 #define QLMPS_ALGORITHM_LANCZOS_SOLVER_EXPMV_IMPL_H
 
+#include <algorithm>                            // max
 #include "qlten/qlten.h"
 #include "qlten/utility/timer.h"                           // Timer
 #include "qlmps/consts.h"                                  // exp
@@ -86,9 +87,10 @@ ExpmvRes<TenT> LanczosExpmvSolver(
     energy_measu_ctrct_axes = {{0, 1, 2, 3}, {0, 1, 2, 3}};
   }
 
-  std::vector<TenT *> bases(params.max_iterations);
-  std::vector<QLTEN_Double> a(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> b(params.max_iterations, 0.0);
+  const size_t max_iterations = std::max<size_t>(params.max_iterations, 2);  // a step needs two bases
+  std::vector<TenT *> bases(max_iterations);
+  std::vector<QLTEN_Double> a(max_iterations, 0.0);
+  std::vector<QLTEN_Double> b(max_iterations, 0.0);
 
   QLTEN_Double initial_norm = pinit_state->Normalize();
   bases[0] = pinit_state;
@@ -104,8 +106,8 @@ ExpmvRes<TenT> LanczosExpmvSolver(
   a[0] = Real(temp_scalar_ten());
   size_t m = 0; //counting the iteration number
 
-  QLTEN_Complex *combination_factor = new QLTEN_Complex[params.max_iterations];//combination of bases
-  QLTEN_Complex *last_combination_factor = new QLTEN_Complex[params.max_iterations];
+  QLTEN_Complex *combination_factor = new QLTEN_Complex[max_iterations];//combination of bases
+  QLTEN_Complex *last_combination_factor = new QLTEN_Complex[max_iterations];
   while (true) {
     m += 1;
     TenT *gamma = last_mat_mul_vec_res;
@@ -163,7 +165,7 @@ ExpmvRes<TenT> LanczosExpmvSolver(
     double distance = Distance(last_combination_factor, combination_factor, m + 1);
     if (distance < params.error ||
         m == eff_ham_eff_dim ||
-        m == params.max_iterations - 1
+        m == max_iterations - 1
         ) {
       expmv_res.iters = m + 1;
       expmv_res.expmv = new TenT(bases[0]->GetIndexes());
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index a21cf92..4e0289a 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -14,6 +14,7 @@
 #ifndef QLMPS_ALGORITHM_LANCZOS_SOLVER_IMPL_H
 #define QLMPS_ALGORITHM_LANCZOS_SOLVER_IMPL_H
 
+#include <algorithm>                            // max
 #include <cstring>
 
 #include "qlten/qlten.h"
@@ -132,10 +133,11 @@ LanczosRes<TenT> LanczosSolver(
                                {0, 1, 2, 3}};
   }
 
-  std::vector<TenT *> bases(params.max_iterations, nullptr);
-  std::vector<QLTEN_Double> a(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> b(params.max_iterations, 0.0);
-  std::vector<QLTEN_Double> N(params.max_iterations, 0.0);
+  const size_t max_iterations = std::max<size_t>(params.max_iterations, 2);  // a step needs two bases
+  std::vector<TenT *> bases(max_iterations, nullptr);
+  std::vector<QLTEN_Double> a(max_iterations, 0.0);
+  std::vector<QLTEN_Double> b(max_iterations, 0.0);
+  std::vector<QLTEN_Double> N(max_iterations, 0.0);
 
   // Initialize Lanczos iteration.
   pinit_state->QuasiNormalize();
@@ -230,7 +232,7 @@ LanczosRes<TenT> LanczosSolver(
     if (
         ((energy0 - energy0_new) < params.error) ||
             (m == eff_ham_eff_dim) ||
-            (m == params.max_iterations - 1)
+            (m == max_iterations - 1)
         ) {
       TridiagGsSolver(a, b, m + 1, eigval, eigvec, 'V');
       energy0 = energy0_new;
-- 
2.43.0


From 2a00eb152111a697b04effc331321d99498ccfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:48 +0000
Subject: [PATCH 10/17] fix: distributed noisy sweeps release their tensors
 after moving the centre

---
 .../vmps/two_site_update_noised_finite_vmps_mpi_impl.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index 903e397..bfe953e 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -149,9 +149,9 @@ void NoisedVMPSPostProcess(
   for (size_t site = center; site > 0; site--) {
     mps.LoadTen(sweep_params.mps_path, site - 1);
     mps.RightCanonicalizeTen(site);
-    mps.DumpTen(sweep_params.mps_path, site);
+    mps.DumpTen(site, GenMPSTenName(sweep_params.mps_path, site), true);
   }
-  mps.DumpTen(sweep_params.mps_path, 0);
+  mps.DumpTen(0, GenMPSTenName(sweep_params.mps_path, 0), true);
   std::cout << "Moved the center of MPS to 0." << std::endl;
 }
 
-- 
2.43.0


From 329e0a9e1ccf4b7e0701e55a4d4c818ce347137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:47 +0000
Subject: [PATCH 11/17] fix: single-site noise expansion copes with a reversed
 right bond (as the two-site one does)

---
 .../vmps/single_site_update_finite_vmps_impl.h     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
index 2dfae3c..eed4d54 100644
--- a/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
@@ -401,7 +401,19 @@ void SingleSiteFiniteVMPSExpand(
     TenT temp_ten;
     Contract(eff_ham[0], gs_vec, {{2},
                                   {0}}, &temp_ten);
-    Contract<TenElemT, QNT, true, true>(temp_ten, *eff_ham[1], 1, 0, 2, *ten_tmp);
+    if (gs_vec->GetIndex(2).GetDir() == OUT) {//normal case
+      Contract<TenElemT, QNT, true, true>(temp_ten, *eff_ham[1], 1, 0, 2, *ten_tmp);
+    } else { // the bond has been reversed by a QR step, see also TwoSiteFiniteVMPSExpand
+      auto eff_ham1 = *eff_ham[1];
+      eff_ham1.Transpose({3, 0, 1, 2});
+      QNT some_qn = gs_vec->GetIndex(2).GetQNSct(0).GetQn();
+      QNT qn0 = some_qn + (-some_qn);
+      TenT u, v;
+      QLTensor<QLTEN_Double, QNT> s;
+      mock_qlten::SVD(&eff_ham1, 1, qn0, &u, &s, &v);
+      v.Transpose({1, 2, 3, 0});
+      Contract<TenElemT, QNT, true, true>(temp_ten, v, 1, 0, 2, *ten_tmp);
+    }
 
 #ifdef QLMPS_TIMING_MODE
     contract_timer.PrintElapsed();
-- 
2.43.0


From 7247b9d25a0100e959a6f7e76b67a50ffbc2bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:47 +0000
Subject: [PATCH 12/17] fix: distributed noise expansion copes with the
 reversed bond at the right boundary

---
 .../vmps/two_site_update_noised_finite_vmps_mpi_impl.h       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index bfe953e..0a23139 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -366,7 +366,10 @@ double MasterTwoSiteFiniteVMPSUpdate(
   }
 
   if (need_expand) {
-    if (dir == 'r') {
+    if (dir == 'r' && lancz_res.gs_vec->GetIndex(3).GetDir() == IN) {
+      // the reversed bond at the right boundary, see TwoSiteFiniteVMPSExpand
+      TwoSiteFiniteVMPSExpand(mps, lancz_res.gs_vec, eff_ham, dir, target_site, noise);
+    } else if (dir == 'r') {
       MasterBroadcastOrder(contract_for_right_moving_expansion, kMPIMasterRank, comm);
       MasterTwoSiteFiniteVMPSRightMovingExpand(
           mps,
-- 
2.43.0


From 2635a84e02131be1f40d03662391a0f73d87c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:36 +0000
Subject: [PATCH 13/17] fix: distributed DMRG releases its tensors after moving
 the centre, so that it can be executed again

---
 include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
index 07904d8..8fab4a3 100644
--- a/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/dmrg/dmrg_mpi_impl_master.h
@@ -173,9 +173,9 @@ void DMRGMPIMasterExecutor<TenElemT, QNT>::DMRGPostProcess_() {
   for (size_t site = center; site > 0; site--) {
     mps_.LoadTen(sweep_params.mps_path, site - 1);
     mps_.RightCanonicalizeTen(site);
-    mps_.DumpTen(sweep_params.mps_path, site);
+    mps_.DumpTen(site, GenMPSTenName(sweep_params.mps_path, site), true);
   }
-  mps_.DumpTen(sweep_params.mps_path, 0);
+  mps_.DumpTen(0, GenMPSTenName(sweep_params.mps_path, 0), true);
   std::cout << "Moved the center of MPS to 0." << std::endl;
 }
 
-- 
2.43.0


From 5b0db6c15ca92b48588cfbec5aec8de43919afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:36 +0000
Subject: [PATCH 14/17] fix: FSMNode::Site returns the site, not the state

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index 2993c4e..6ed7d97 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -69,7 +69,7 @@ struct FSMNode {
   }
 
   [[nodiscard]] size_t Site(void) const {
-    return fsm_stat_idx;
+    return fsm_site_idx;
   }
 
   void SetSite(size_t site) {
-- 
2.43.0


From 10a09e703681f42e25bd40830d67b472f96f5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:36 +0000
Subject: [PATCH 15/17] fix: the infinite automaton links around the unit cell,
 opens new states and accepts terms with a common beginning

---
 include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h | 58 +++++++++++-----------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
index c201426..e95fd84 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h
@@ -12,7 +12,8 @@
 #include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"  //FSMNode, FSMPath
 
 ///< [front site fsm node, [ operator, latter site fsm node]]
-using FSMNNLinks = std::map<FSMNode, std::map<OpRepr, FSMNode>>;
+///< an operator can link a node to an intermediate node and to the final node.
+using FSMNNLinks = std::map<FSMNode, std::multimap<OpRepr, FSMNode>>;
 
 /**
  * Finite state machine for the generation of iMPO
@@ -31,16 +32,16 @@ class iFSM {
     for (size_t site = 0; site < unit_cell_site_num; site++) {
       auto &fsm_nn_links = fsm_nn_links_set_[site];
       FSMNode ready_node = FSMNode(site, kFSMReadyStatIdx);
-      FSMNode next_ready_node = FSMNode(site + 1, kFSMReadyStatIdx);
+      FSMNode next_ready_node = FSMNode((site + 1) % unit_cell_site_num, kFSMReadyStatIdx);
 
-      std::map < OpRepr, FSMNode > link_from_ready_to_ready;
+      std::multimap < OpRepr, FSMNode > link_from_ready_to_ready;
       link_from_ready_to_ready.insert(std::make_pair(id_ops[site], next_ready_node));
       fsm_nn_links[ready_node] = link_from_ready_to_ready;
 
       FSMNode final_node = FSMNode(site, kFSMFinalStatIdx);
-      FSMNode next_final_node = FSMNode(site + 1, kFSMFinalStatIdx);
+      FSMNode next_final_node = FSMNode((site + 1) % unit_cell_site_num, kFSMFinalStatIdx);
 
-      std::map < OpRepr, FSMNode > link_from_final_to_final;
+      std::multimap < OpRepr, FSMNode > link_from_final_to_final;
       link_from_final_to_final.insert(std::make_pair(id_ops[site], next_final_node));
       fsm_nn_links[final_node] = link_from_final_to_final;
     }
@@ -79,14 +80,13 @@ class iFSM {
 inline void iFSM::AddPath(const size_t head_site,
                           const OpReprVec &ntrvl_ops) {
   const size_t phys_site_num = ntrvl_ops.size();
-  assert(phys_site_num > 1);
+  assert(phys_site_num > 0);
   FSMPath fsm_path(phys_site_num);
   for (size_t i = 0; i < phys_site_num; i++) {
     fsm_path.SetOpr(i, ntrvl_ops[i]);
   }
   // Set FSM nodes
   fsm_path.AddNode(0, FSMNode(head_site % unit_cell_site_num_, kFSMReadyStatIdx));
-  bool open_new_path(false);
   /**
    * Generate the FSM nodes according the following rules:
    * 1. If FSM path is still on the old path,
@@ -108,26 +108,22 @@ inline void iFSM::AddPath(const size_t head_site,
     size_t last_site = last_node.Site();
     size_t target_site = (last_site + 1) % unit_cell_site_num_;
     auto &fsm_nn_links = fsm_nn_links_set_[last_site];
-    if (!open_new_path) { //still go along the old path
-      auto link_op2node_iter = fsm_nn_links.at(last_node).find(opr);
-      if (link_op2node_iter != fsm_nn_links.at(last_node).cend()
-          && (link_op2node_iter->second.Stat() != kFSMFinalStatIdx)) {
-        //found, still go along the old way
-        FSMNode next_node = link_op2node_iter->second;
-        fsm_path.AddNode(i + 1, next_node);
-      } else {
-        //do not find, open new way
-        mid_stat_nums_[target_site]++;
-        FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);
-        fsm_path.AddNode(i + 1, new_node);
-        fsm_nn_links.at(last_node).insert(std::make_pair(opr, new_node));
-        open_new_path = true;
-      }
+    auto &links = fsm_nn_links.at(last_node);
+    auto same_op_links = links.equal_range(opr);
+    auto link_op2node_iter = std::find_if(
+        same_op_links.first, same_op_links.second,
+        [](const auto &link) { return link.second.Stat() != kFSMFinalStatIdx; }
+    );
+    if (link_op2node_iter != same_op_links.second) {
+      //found, still go along the old way
+      fsm_path.AddNode(i + 1, link_op2node_iter->second);
     } else {
+      //do not find, open new way
       mid_stat_nums_[target_site]++;
       FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);
       fsm_path.AddNode(i + 1, new_node);
-      fsm_nn_links.at(last_node).insert(std::make_pair(opr, new_node));
+      links.insert(std::make_pair(opr, new_node));
+      fsm_nn_links_set_[target_site][new_node];  // no link starts from the new node yet
     }
   }
   //the last operator
@@ -136,13 +132,15 @@ inline void iFSM::AddPath(const size_t head_site,
   assert(tail_site == (penultimate_node.Site() + 1) % unit_cell_site_num_);
   FSMNode end_node(tail_site, kFSMFinalStatIdx);
   fsm_path.AddNode(phys_site_num, end_node);
-  if (open_new_path) {
-    auto &fsm_nn_links = fsm_nn_links_set_[(tail_site - 1 + unit_cell_site_num_) % unit_cell_site_num_];
-    fsm_nn_links.at(penultimate_node).insert(std::make_pair(ntrvl_ops.back(), end_node));
-  } else {
-    std::cout << "Same Operator Terms!" << std::endl;
-    exit(1);
+  auto &links = fsm_nn_links_set_[penultimate_node.Site()].at(penultimate_node);
+  auto same_op_links = links.equal_range(ntrvl_ops.back());
+  for (auto iter = same_op_links.first; iter != same_op_links.second; ++iter) {
+    if (iter->second == end_node) {
+      std::cout << "Same Operator Terms!" << std::endl;
+      exit(1);
+    }
   }
+  links.insert(std::make_pair(ntrvl_ops.back(), end_node));
   fsm_paths_.push_back(fsm_path);
 }
 
@@ -187,7 +185,7 @@ inline SparOpReprMat iFSM::CastToMatRepr_(const size_t site) const {
       if (col == kFSMFinalStatIdx) {
         col = mat_cols - 1;
       }
-      mat.SetElem(row, col, opr);
+      mat.SetElem(row, col, mat(row, col) + opr);
     }
   }
   return mat;
-- 
2.43.0


From d363ef8bcd02a4557fc2a66867bfc2d52bcc116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:21 +0000
Subject: [PATCH 16/17] fix: distributed Lanczos reports the dimension of its
 Krylov space as the other solvers do

---
 include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 0c6359c..c44a8fd 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -221,7 +221,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #ifdef QLMPS_TIMING_MODE
       Timer lancozs_post_precessing("lancz_post_processing");
 #endif
-      lancz_res.iters = m;
+      lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
       LanczosFree(eigvec, bases, last_mat_mul_vec_res);
-- 
2.43.0


From ce05d71a97b2e8e68c14b02bfd8a74e40c30aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:01 +0000
Subject: [PATCH 17/17] fix: noisy VMPS called without noises runs the plain
 algorithm once, not followed by a noisy one

---
 .../algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h | 2 +-
 .../algorithm/vmps/two_site_update_noise_finite_vmps_impl.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index 0a23139..f33be3a 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -67,7 +67,7 @@ inline QLTEN_Double TwoSiteFiniteVMPSWithNoise_(
       std::cerr << "noise parameters setting conflict" << std::endl;
       exit(-1);
     }
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params, comm);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params, comm);
   }
   int rank;
   MPI_Comm_rank(comm, &rank);
diff --git a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
index c9299d3..ef43208 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
@@ -86,7 +86,7 @@ QLTEN_Double TwoSiteFiniteVMPSWithNoise( //same function name, overload by class
   if (sweep_params.noises.size() == 0) {
     FiniteVMPSSweepParams sweep_params_copy = sweep_params;
     sweep_params_copy.noise_valid = false;
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
   }
   assert(mps.size() == mpo.size());
 
-- 
2.43.0

