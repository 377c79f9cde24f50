From 94f42645b902f9fa3d2e8e80b4090f150e94aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 01/30] fix: count identical one-site terms with their
 multiplicity in FSM matrix representations

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index dec4279..5d49c18 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -275,11 +275,14 @@ inline void FSM::CastFSMPathToMatRepr_(
 
     if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) == kNullOpRepr) {
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, tgt_op);
-    } else if (fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) != tgt_op) {
+    } else if (tgt_row_fsm_node.fsm_stat_idx == tgt_col_fsm_node.fsm_stat_idx &&
+        (tgt_row_fsm_node.fsm_stat_idx == kFSMReadyStatIdx ||
+            tgt_row_fsm_node.fsm_stat_idx == kFSMFinalStatIdx)) {
+      // Identity link (ready -> ready or final -> final) shared by the paths. Do nothing
+    } else {
+      // One-site terms on the same site, add them up even if they are identical.
       auto new_op = fsm_mat_repr[i](tgt_row_idx, tgt_col_idx) + tgt_op;
       fsm_mat_repr[i].SetElem(tgt_row_idx, tgt_col_idx, new_op);
-    } else {
-      // Do nothing
     }
   }
 }
-- 
2.43.0


From 0b5d5d254876310dc0ae64ae6581c8daf670a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 02/30] fix: print every coefficient label of a sum in
 CoefRepr::ToString

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
index 486a437..e017a1c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h
@@ -134,7 +134,7 @@ class CoefRepr {
     } else {
       std::string symbol_string = "(";
       for (size_t i = 0; i < coef_label_list_.size(); i++) {
-        const CNumberLabel coef_label = coef_label_list_[1];
+        const CNumberLabel coef_label = coef_label_list_[i];
         if (coef_label == kIdCoefLabel) {
           symbol_string += "1";
         } else {
-- 
2.43.0


From 9f0cd8cc8732418adbe6dd2c46df006bedf0dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:28 +0000
Subject: [PATCH 03/30] fix: setting a null element clears the entry of SparMat

---
 include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
index 62f108d..4a4559d 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h
@@ -67,8 +67,11 @@ class SparMat {
   }
 
   void SetElem(const size_t x, const size_t y, const ElemType &elem) {
-    if (elem == nullelem) { return; }
     auto offset = CalcOffset(x, y);
+    if (elem == nullelem) {
+      indexes[offset] = -1;
+      return;
+    }
     if (indexes[offset] == -1) {
       data.push_back(elem);
       long idx = data.size() - 1;
-- 
2.43.0


From 0b5b4ec5e09926f69bd37c00a0c4e6dab23ed562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 04/30] fix: a moved-from DuoVector keeps its size with empty
 slots

---
 include/qlmps/one_dim_tn/framework/duovector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index c009fe0..e256c20 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -89,7 +89,7 @@ public:
   DuoVector(
       DuoVector<ElemT> &&duovec
   ) noexcept : raw_data_(std::move(duovec.raw_data_)) {
-    duovec.raw_data_ = std::vector<ElemT *>(duovec.size(), nullptr);
+    duovec.raw_data_ = std::vector<ElemT *>(raw_data_.size(), nullptr);
   }
 
   /**
@@ -106,7 +106,7 @@ public:
       }
     }
     raw_data_ = std::move(rhs.raw_data_);
-    rhs.raw_data_ = std::vector<ElemT *>(rhs.size(), nullptr);
+    rhs.raw_data_ = std::vector<ElemT *>(raw_data_.size(), nullptr);
     return *this;
   }
 
-- 
2.43.0


From 5bc4e24914ebedc6be6008e6e5c941e0e543feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 05/30] fix: self-assignment of DuoVector no longer frees its
 own elements

---
 include/qlmps/one_dim_tn/framework/duovector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/duovector.h b/include/qlmps/one_dim_tn/framework/duovector.h
index e256c20..a632bfa 100644
--- a/include/qlmps/one_dim_tn/framework/duovector.h
+++ b/include/qlmps/one_dim_tn/framework/duovector.h
@@ -66,6 +66,7 @@ public:
   DuoVector<ElemT> &operator=(const DuoVector<ElemT> &rhs) {
 //    this->DuoVector::~DuoVector();
 //    I'm no sure why above line do not work if used in the derived FiniteMPS class
+    if (this == &rhs) { return *this; }
     for (auto &rpelem : raw_data_) {
       if (rpelem != nullptr) {
         delete rpelem;
@@ -100,6 +101,7 @@ public:
   DuoVector<ElemT> &operator=(DuoVector<ElemT> &&rhs) noexcept {
 //    this->DuoVector::~DuoVector();
 //    I have no idea why above line do not work if used in the derived FiniteMPS class
+    if (this == &rhs) { return *this; }
     for (auto &rpelem : raw_data_) {
       if (rpelem != nullptr) {
         delete rpelem;
-- 
2.43.0


From bb915190f4016fd6cc8cc733763dfd6cd196566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 06/30] fix: report boolean, fractional and out-of-range
 numbers given for integer parameters

---
 include/qlmps/case_params_parser.h | 32 ++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/case_params_parser.h b/include/qlmps/case_params_parser.h
index 0961f6e..d6c914d 100644
--- a/include/qlmps/case_params_parser.h
+++ b/include/qlmps/case_params_parser.h
@@ -18,6 +18,9 @@
 
 #include <iostream>
 #include <fstream>                                  // ifstream
+#include <limits>                                   // numeric_limits
+#include <stdexcept>                                // invalid_argument
+#include <type_traits>                              // is_same_v, is_signed_v
 
 #include "qlmps/third_party/nlohmann/json.hpp"     // json
 
@@ -250,13 +253,38 @@ class CaseParamsParserBasic {
     return TryParseStrict<std::vector<double>>(item, out_value);
   }
  private:
+  // json::get() silently converts boolean, fractional and out-of-range numbers
+  // to integers. Throw for them, so that they are treated as invalid types.
+  template <typename T>
+  static T CheckedGet(const json &value) {
+    if constexpr (std::is_same_v<T, int> || std::is_same_v<T, size_t>) {
+      bool valid = value.is_number_integer();
+      if (value.is_number_unsigned()) {
+        valid = value.get<unsigned long long>() <=
+            static_cast<unsigned long long>(std::numeric_limits<T>::max());
+      } else if (valid) {
+        // negative integer
+        valid = std::is_signed_v<T> &&
+            value.get<long long>() >= static_cast<long long>(std::numeric_limits<T>::min());
+      }
+      if (!valid) {
+        throw std::invalid_argument("not an integer in the range of the requested type");
+      }
+    } else if constexpr (std::is_same_v<T, std::vector<int>> || std::is_same_v<T, std::vector<size_t>>) {
+      for (const auto &el : value) {
+        CheckedGet<typename T::value_type>(el);
+      }
+    }
+    return value.get<T>();
+  }
+
   template <typename T>
   T StrictParse(const std::string &item, const char *expected_type_name) const {
     if (case_params_.find(item) == case_params_.end()) {
       ReportAndExitMissing(item, expected_type_name);
     }
     try {
-      return case_params_.at(item).get<T>();
+      return CheckedGet<T>(case_params_.at(item));
     } catch (const std::exception &e) {
       const char *actual = case_params_.at(item).type_name();
       ReportAndExitMissingOrInvalid(item, expected_type_name, actual);
@@ -268,7 +296,7 @@ class CaseParamsParserBasic {
   bool TryParseStrict(const std::string &item, T &out_value) const {
     if (case_params_.find(item) == case_params_.end()) return false;
     try {
-      out_value = case_params_.at(item).get<T>();
+      out_value = CheckedGet<T>(case_params_.at(item));
       return true;
     } catch (...) {
       return false;
-- 
2.43.0


From 5c5f4c302b127abe6d3b99f8701502017849722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 07/30] fix: single-site noise expansion when the right bond
 was reversed by QR canonicalization

---
 .../vmps/single_site_update_finite_vmps_impl.h     | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
index 2dfae3c..c52acb0 100644
--- a/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h
@@ -401,7 +401,19 @@ void SingleSiteFiniteVMPSExpand(
     TenT temp_ten;
     Contract(eff_ham[0], gs_vec, {{2},
                                   {0}}, &temp_ten);
-    Contract<TenElemT, QNT, true, true>(temp_ten, *eff_ham[1], 1, 0, 2, *ten_tmp);
+    if (gs_vec->GetIndex(2).GetDir() == OUT) { //normal case
+      Contract<TenElemT, QNT, true, true>(temp_ten, *eff_ham[1], 1, 0, 2, *ten_tmp);
+    } else { // the right canonicalization by QR reverses the bond; the two legs to fuse must have the same direction
+      auto eff_ham1 = *eff_ham[1];
+      eff_ham1.Transpose({3, 0, 1, 2});
+      QNT some_qn = gs_vec->GetIndex(2).GetQNSct(0).GetQn();
+      QNT qn0 = some_qn + (-some_qn);
+      TenT u, v;
+      QLTensor<QLTEN_Double, QNT> s;
+      mock_qlten::SVD(&eff_ham1, 1, qn0, &u, &s, &v);
+      v.Transpose({1, 2, 3, 0});
+      Contract<TenElemT, QNT, true, true>(temp_ten, v, 1, 0, 2, *ten_tmp);
+    }
 
 #ifdef QLMPS_TIMING_MODE
     contract_timer.PrintElapsed();
-- 
2.43.0


From a46ab624e73f6c2e177baef19172427ceb4eb4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:38 +0000
Subject: [PATCH 08/30] fix: tail insertion string starts behind the last
 physical operator

---
 include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
index 4d1d976..232bb4c 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h
@@ -221,7 +221,7 @@ void MPOGenerator<TenElemT, QNT>::AddTerm(
   local_ops_idxs.push_back(phys_ops_idxs.back());
   if (inst_ops.size() == phys_ops.size()) {
     if (inst_ops_idxs_set == kNullUintVecVec) {
-      for (size_t j = phys_ops_idxs.back(); j < N_; ++j) {
+      for (size_t j = phys_ops_idxs.back() + 1; j < N_; ++j) {
         local_ops.push_back(inst_ops.back());
         local_ops_idxs.push_back(j);
       }
-- 
2.43.0


From 1000b5e767e960d7df179bee6c5dda9001400498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 09/30] fix: spin-flip operators of the t-J site were exchanged

---
 include/qlmps/model_relevant/operators/fermion/tJ_operators.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
index 4d7d693..6b828b3 100644
--- a/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
+++ b/include/qlmps/model_relevant/operators/fermion/tJ_operators.h
@@ -69,8 +69,8 @@ struct tJOperators {
     ndn({spin_down, spin_down}) = 1;      // ⟨↓| n_↓ |↓⟩ = 1
 
     // Composite operators
-    bdnc_multi_bupa({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↓ c_↑ |↓⟩ = 1
-    bupc_multi_bdna({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↑ c_↓ |↑⟩ = 1
+    bdnc_multi_bupa({spin_up, spin_down}) = 1;  // ⟨↓| c^†_↓ c_↑ |↑⟩ = 1
+    bupc_multi_bdna({spin_down, spin_up}) = 1;  // ⟨↑| c^†_↑ c_↓ |↓⟩ = 1
   }
 
   // Spin operators
-- 
2.43.0


From 56a3aa97c29e3c7f773548dc90dc407497ea686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 10/30] fix: loading tensors into a finite MPS resets their
 canonical types and the centre

---
 .../one_dim_tn/mps/finite_mps/finite_mps.h    | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index d0fe20d..026cd3b 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -106,12 +106,33 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
     return DuoVector<LocalTenT>::operator()(idx);
   }
 
-  using MPS<TenElemT, QNT>::LoadTen;
   using MPS<TenElemT, QNT>::DumpTen;
+  /**
+  Load a local tensor from a file. Set canonical type to NONE and MPS to
+  uncentralized.
+
+  @param idx Index of the MPS local tensor.
+  @param file The file which contains the tensor to be loaded.
+  */
+  void LoadTen(const size_t idx, const std::string &file) {
+    tens_cano_type_[idx] = MPSTenCanoType::NONE;
+    center_ = kUncentralizedCenterIdx;
+    MPS<TenElemT, QNT>::LoadTen(idx, file);
+  }
+
   void LoadTen(const std::string &mps_path, const size_t idx) {
     this->LoadTen(idx, GenMPSTenName(mps_path, idx));
   }
 
+  /**
+  Load all the local tensors from a directory.
+
+  @param mps_path Path to the MPS directory.
+  */
+  void Load(const std::string &mps_path = kMpsPath) {
+    for (size_t i = 0; i < this->size(); ++i) { this->LoadTen(mps_path, i); }
+  }
+
   void DumpTen(const std::string &mps_path, const size_t idx) {
     this->DumpTen(idx, GenMPSTenName(mps_path, idx));
   }
-- 
2.43.0


From bdbf7616895caee92f34f46615e2fbcfea16f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 11/30] fix: zero singular values contribute nothing to the
 entanglement entropy

---
 include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h | 2 +-
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
index 232d6e1..7d5457b 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h
@@ -43,7 +43,7 @@ inline double MeasureEE(const DTenT &s, const size_t sdim) {
   for (size_t i = 0; i < sdim; ++i) {
     singular_value = s(i, i);
     p = singular_value * singular_value;
-    ee += (-p * std::log(p));
+    if (p > 0.0) { ee += (-p * std::log(p)); }
   }
   return ee;
 }
diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index 026cd3b..47ad936 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -310,7 +310,7 @@ std::vector<double> FiniteMPS<TenElemT, QNT>::GetEntanglementEntropy(size_t n) {
       double singular_value = s(k, k);
       double p = singular_value * singular_value;
       if (n == 1) {
-        ee += (-p * std::log(p));
+        if (p > 0.0) { ee += (-p * std::log(p)); }
       } else {
         double p_to_n = p;
         for (size_t j = 1; j < n; j++) { // order of power
-- 
2.43.0


From 02daf050c673780a378ed4147be20fdcb7de6ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 12/30] fix: a tensor file that cannot be written completely is
 reported

---
 include/qlmps/one_dim_tn/framework/ten_vec.h | 7 +++++++
 include/qlmps/utilities.h                    | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/include/qlmps/one_dim_tn/framework/ten_vec.h b/include/qlmps/one_dim_tn/framework/ten_vec.h
index bf54d12..3dbb7aa 100644
--- a/include/qlmps/one_dim_tn/framework/ten_vec.h
+++ b/include/qlmps/one_dim_tn/framework/ten_vec.h
@@ -19,6 +19,7 @@
 
 #include <string>     // string
 #include <fstream>    // ifstream
+#include <stdexcept>  // runtime_error
 
 namespace qlmps {
 using namespace qlten;
@@ -84,6 +85,9 @@ class TenVec : public DuoVector<TenT> {
     std::ofstream ofs(file, std::ofstream::binary);
     ofs << (*this)[idx];
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
   }
 
   /**
@@ -101,6 +105,9 @@ class TenVec : public DuoVector<TenT> {
     std::ofstream ofs(file, std::ofstream::binary);
     ofs << (*this)[idx];
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
     if (release_mem) { this->dealloc(idx); }
   }
 };
diff --git a/include/qlmps/utilities.h b/include/qlmps/utilities.h
index 9a07b9d..eb524f6 100644
--- a/include/qlmps/utilities.h
+++ b/include/qlmps/utilities.h
@@ -14,6 +14,7 @@
 
 #include <iostream>
 #include <fstream>          // ifstream, ofstream
+#include <stdexcept>        // runtime_error
 
 #include <sys/stat.h>       // stat, mkdir, S_IRWXU, S_IRWXG, S_IROTH, S_IXOTH
 
@@ -65,6 +66,9 @@ inline void WriteQLTensorTOFile(const TenT &t, const std::string &file) {
   std::ofstream ofs(file, std::ofstream::binary);
   ofs << t;
   ofs.close();
+  if (ofs.fail()) {
+    throw std::runtime_error("Error writing file: " + file);
+  }
 }
 
 
-- 
2.43.0


From a73e8e5e0907d9c5bb572898f56df1be2d0c4f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 13/30] fix: reading an incomplete tensor file is reported as a
 failure

---
 include/qlmps/utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/utilities.h b/include/qlmps/utilities.h
index eb524f6..e14cf27 100644
--- a/include/qlmps/utilities.h
+++ b/include/qlmps/utilities.h
@@ -78,7 +78,7 @@ inline bool ReadQLTensorFromFile(TenT &t, const std::string &file) {
   if(ifs.good()){
     ifs >> t;
     ifs.close();
-    return true;
+    return !ifs.fail();
   } else {
     return false;
   }
-- 
2.43.0


From a87754611f55c2dcbfeb428705d3c693e9eb2241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 14/30] fix: loading a finite MPO resets its canonical types
 and a missing centre

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index c9c385c..07aeebd 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -248,8 +248,9 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
 
     file = mpo_path + "/center";
     std::ifstream ifs(file, std::ifstream::binary);
-    ifs >> center_;
+    if (!(ifs >> center_)) { center_ = kUncentralizedCenterIdx; }
     ifs.close();
+    tens_cano_type_.assign(this->size(), MPOTenCanoType::NONE);
     SetCenter_();
     return true;
   }
-- 
2.43.0


From abe93a127cbfb6a0dc01362a532a4e88a57e4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 15/30] fix: a finite MPO centre file that cannot be written is
 reported

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index 07aeebd..fa4e388 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -233,6 +233,9 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
     std::ofstream ofs(file, std::ofstream::binary);
     ofs << center_;
     ofs.close();
+    if (ofs.fail()) {
+      throw std::runtime_error("Error writing file: " + file);
+    }
   }
 
   bool Load(const std::string &mpo_path = kMpoPath) {
-- 
2.43.0


From 2763745547dbefa2fb726c65802a42f77020426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:56 +0000
Subject: [PATCH 16/30] fix: four-site group measurement releases every tensor
 it loaded

---
 .../qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
index 78002ab..5675772 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h
@@ -376,7 +376,8 @@ MeasuRes<TenElemT> MeasureFourSiteOpGroup(
                                                 avg);
   }
   //clean the data
-  for (size_t i = target_sites_set.back()[0]; i <= target_sites_set.back()[1]; i++) {
+  // The second target sites are not ordered, so any site behind the last first target site may still be loaded.
+  for (size_t i = target_sites_set.back()[0]; i < mps.size(); i++) {
     mps.dealloc(i);
   }
   assert(mps.empty());
-- 
2.43.0


From 9c47c673e87d694bf1a2968276e83a3d43db593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 17/30] fix: Lanczos ground-state solvers stop at round-off
 residuals and honour a limit of one vector

---
 .../algorithm/dmrg/lanczos_dmrg_solver_impl.h |  2 +-
 .../algorithm/vmps/lanczos_vmps_solver_impl.h | 23 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index e284521..ee091ae 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -130,7 +130,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->Normalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (LanczosShouldStop(norm_gamma, a[m - 1], std::sqrt(N[m - 1]), m, params)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index a21cf92..7c5aa00 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -14,6 +14,8 @@
 #ifndef QLMPS_ALGORITHM_LANCZOS_SOLVER_IMPL_H
 #define QLMPS_ALGORITHM_LANCZOS_SOLVER_IMPL_H
 
+#include <algorithm>     // max
+#include <cmath>         // abs, sqrt
 #include <cstring>
 
 #include "qlten/qlten.h"
@@ -94,6 +96,25 @@ inline void LanczosFree(
   delete last_mat_mul_vec_res;
 }
 
+/**
+Whether the Krylov space cannot (or must not) grow beyond its m vectors: the residual
+vanishes up to round-off, so that normalizing it would give a vector which is not
+orthogonal to the others, or the maximal number of vectors is reached.
+
+@param residual Norm of the residual vector.
+@param a The last diagonal element.
+@param b The last off-diagonal element.
+@param m The number of Krylov vectors.
+@param params Parameters for Lanczos solver.
+*/
+inline bool LanczosShouldStop(
+    const double residual, const double a, const double b,
+    const size_t m, const LanczosParams &params
+) {
+  const double round_off = 1.0E-12 * std::max(1.0, std::abs(a) + std::abs(b));
+  return residual <= round_off || m >= params.max_iterations;
+}
+
 // Lanczos solver.
 template<typename TenT>
 struct LanczosRes {
@@ -183,7 +204,7 @@ LanczosRes<TenT> LanczosSolver(
     auto norm_gamma = gamma->QuasiNormalize();
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (LanczosShouldStop(norm_gamma, a[m - 1], std::sqrt(N[m - 1]), m, params)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
-- 
2.43.0


From c23e515438b7381a6f71d41ce085a43650cb2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:44 +0000
Subject: [PATCH 18/30] fix: Lanczos exponential solver honours a limit of one
 vector

---
 include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
index 49a6ad9..c0ba36b 100644
--- a/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
+++ b/include/qlmps/algorithm/tdvp/lanczos_expmv_solver_impl.h
@@ -121,7 +121,7 @@ ExpmvRes<TenT> LanczosExpmvSolver(
     }
     QLTEN_Double norm_gamma = gamma->Normalize();
 
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m >= params.max_iterations) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
-- 
2.43.0


From a1a580bb7b01b02579fc754d25137d19e34481af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:40 +0000
Subject: [PATCH 19/30] fix: noisy two-site sweeps without noises run the plain
 algorithm once

---
 .../algorithm/vmps/two_site_update_noise_finite_vmps_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
index c9299d3..ef43208 100644
--- a/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
+++ b/include/qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h
@@ -86,7 +86,7 @@ QLTEN_Double TwoSiteFiniteVMPSWithNoise( //same function name, overload by class
   if (sweep_params.noises.size() == 0) {
     FiniteVMPSSweepParams sweep_params_copy = sweep_params;
     sweep_params_copy.noise_valid = false;
-    TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
+    return TwoSiteFiniteVMPS(mps, mpo, sweep_params_copy);
   }
   assert(mps.size() == mpo.size());
 
-- 
2.43.0


From e3ab1a89d7d1a27ddb52695b5cd99e98429cdfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:09 +0000
Subject: [PATCH 20/30] fix: Lanczos ground-state solvers keep tiny residuals
 orthogonal to the Krylov vectors

---
 .../algorithm/dmrg/lanczos_dmrg_solver_impl.h |  3 ++
 .../algorithm/vmps/lanczos_vmps_solver_impl.h | 39 +++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
index ee091ae..1d90417 100644
--- a/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
+++ b/include/qlmps/algorithm/dmrg/lanczos_dmrg_solver_impl.h
@@ -128,6 +128,9 @@ LanczosRes<TenT> LanczosSolver(
       );
     }
     auto norm_gamma = gamma->Normalize();
+    norm_gamma = LanczosReorthogonalize(
+        norm_gamma, a[m - 1], std::sqrt(N[m - 1]), bases, m, energy_measu_ctrct_axes, gamma
+    );
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
     if (LanczosShouldStop(norm_gamma, a[m - 1], std::sqrt(N[m - 1]), m, params)) {
diff --git a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
index 7c5aa00..3c20b5e 100644
--- a/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
+++ b/include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h
@@ -115,6 +115,42 @@ inline bool LanczosShouldStop(
   return residual <= round_off || m >= params.max_iterations;
 }
 
+/**
+Normalized residual of the Lanczos recursion which is orthogonal to the Krylov vectors.
+
+A residual much smaller than the terms it is made of is dominated by their round-off, so that
+the recursion alone does not keep it orthogonal to the former Krylov vectors.
+
+@param norm Norm of the residual vector before it was normalized.
+@param a The last diagonal element.
+@param b The last off-diagonal element.
+@param bases Krylov vectors.
+@param m The number of Krylov vectors.
+@param ctrct_axes All the axes of the vectors.
+@param gamma The normalized residual vector. It is orthogonalized and normalized again if needed.
+
+@return Norm of the residual vector.
+*/
+template<typename TenT>
+inline QLTEN_Double LanczosReorthogonalize(
+    const QLTEN_Double norm, const QLTEN_Double a, const QLTEN_Double b,
+    const std::vector<TenT *> &bases, const size_t m,
+    const std::vector<std::vector<size_t>> &ctrct_axes,
+    TenT *gamma
+) {
+  if (norm == 0.0 || norm > 1.0E-3 * std::max(1.0, std::abs(a) + std::abs(b))) { return norm; }
+  for (size_t i = 0; i < m; ++i) {
+    TenT ket(*gamma), overlap;
+    if constexpr (TenT::IsFermionic()) {
+      ket.ActFermionPOps();
+    }
+    auto base_dag = Dag(*bases[i]);
+    Contract(&ket, &base_dag, ctrct_axes, &overlap);
+    LinearCombine({-overlap()}, {bases[i]}, 1.0, gamma);
+  }
+  return norm * gamma->QuasiNormalize();
+}
+
 // Lanczos solver.
 template<typename TenT>
 struct LanczosRes {
@@ -202,6 +238,9 @@ LanczosRes<TenT> LanczosSolver(
       );
     }
     auto norm_gamma = gamma->QuasiNormalize();
+    norm_gamma = LanczosReorthogonalize(
+        norm_gamma, a[m - 1], std::sqrt(N[m - 1]), bases, m, energy_measu_ctrct_axes, gamma
+    );
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
     if (LanczosShouldStop(norm_gamma, a[m - 1], std::sqrt(N[m - 1]), m, params)) {
-- 
2.43.0


From 2d9c1c42730ef12e86e403a4b8b3debe7e61caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:55 +0000
Subject: [PATCH 21/30] fix: DMRG dumps the center tensor when an emergency
 stop arrives after the last update

---
 include/qlmps/algorithm/dmrg/dmrg_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algorithm/dmrg/dmrg_impl.h b/include/qlmps/algorithm/dmrg/dmrg_impl.h
index 9e6395c..a42a09a 100644
--- a/include/qlmps/algorithm/dmrg/dmrg_impl.h
+++ b/include/qlmps/algorithm/dmrg/dmrg_impl.h
@@ -157,8 +157,10 @@ void DMRGExecutor<TenElemT, QNT>::Execute() {
       break; // stop in advance
     }
   }
-  if (!emergency_stop_requested_.load()) {
+  if (!mps_.empty()) { // otherwise the emergency stop has already dumped every tensor
     mps_.DumpTen(left_boundary_ + 1, GenMPSTenName(sweep_params.mps_path, left_boundary_ + 1), true);
+  }
+  if (!emergency_stop_requested_.load()) {
     DMRGPostProcess_();
   }
   SetStatus(ExecutorStatus::FINISH);
-- 
2.43.0


From 40b33c54b05cba8e392441f65c17ee6ea02256cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:21 +0000
Subject: [PATCH 22/30] fix: FiniteMPO::SimpleProduct returns the product

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
index fa4e388..1ae75a3 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h
@@ -169,9 +169,11 @@ class FiniteMPO : public TenVec<QLTensor<TenElemT, QNT>> {
     return res;
   }
 
-  ///<  *this * rhs,  *this is at below, represent the front matrix
+  ///<  *this * rhs without compression, *this is the front matrix
   FiniteMPO SimpleProduct(const FiniteMPO &rhs) const {
-
+    FiniteMPO res(this->size());
+    MpoProduct(*this, rhs, res);
+    return res;
   }
 
   /**
-- 
2.43.0


From d1fc0e89e6e5ebc600b3b12538f26425335b3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 23/30] fix: ExpFiniteMPO compiles for complex Hamiltonians
 with assertions on

---
 include/qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h b/include/qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h
index 7b595ae..4e56532 100644
--- a/include/qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h
+++ b/include/qlmps/one_dim_tn/mpo/finite_mpo/exp_finite_mpo.h
@@ -110,7 +110,7 @@ std::pair<double, FiniteMPO<TenElemT, QNT>> ExpFiniteMPO(
               t;
     std::cout << std::scientific << std::endl;
     if (n % 2 == 0) {
-      assert(t > 0.0);
+      assert(Real(t) > 0.0);
       if (std::abs(t / t0) < tol_taylor_expansion) {
         break;
       }
-- 
2.43.0


From 768b105fc9bbef29ae852e4b44829f94389033e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 24/30] fix: parallel Lanczos ground-state solvers stop at
 round-off residuals and honour a limit of one vector

---
 .../algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h  |  5 ++++-
 .../qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h | 13 +++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
index c4ad67c..829ad42 100644
--- a/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/dmrg/lanczos_dmrg_solver_mpi_master.h
@@ -104,9 +104,12 @@ LanczosRes<QLTensor<TenElemT, QNT>> DMRGMPIMasterExecutor<TenElemT,
       );
     }
     auto norm_gamma = gamma->Normalize();
+    norm_gamma = LanczosReorthogonalize(
+        norm_gamma, a[m - 1], std::sqrt(N[m - 1]), bases, m, energy_measu_ctrct_axes, gamma
+    );
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (LanczosShouldStop(norm_gamma, a[m - 1], std::sqrt(N[m - 1]), m, params)) {
       if (m == 1) {
         lancz_res.iters = m;
         lancz_res.gs_eng = energy0;
diff --git a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
index 89c5382..dce167a 100644
--- a/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
+++ b/include/qlmps/algo_mpi/vmps/lanczos_solver_mpi_master.h
@@ -20,7 +20,9 @@
 #define QLMPS_ALGO_MPI_LANCZOS_SOLVER_MPI_H
 
 #include <cstdlib>                             // size_t
+#include <numeric>                             // iota
 #include "qlmps/algorithm/lanczos_params.h"    // Lanczos Params
+#include "qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h"    // LanczosShouldStop, LanczosReorthogonalize
 #include "qlmps/algo_mpi/mps_algo_order.h"          // order
 #include "qlten/qlten.h"                        // QLTensor
 
@@ -56,6 +58,9 @@ LanczosRes<TenT> MasterLanczosSolver(
   size_t eff_ham_eff_dim = pinit_state->size();
 
   const size_t eff_ham_size = pinit_state->Rank();//4
+  std::vector<size_t> state_axes(eff_ham_size);
+  std::iota(state_axes.begin(), state_axes.end(), 0);
+  const std::vector<std::vector<size_t>> all_axes = {state_axes, state_axes};
 #ifdef QLMPS_TIMING_MODE
   Timer broadcast_eff_ham_timer("broadcast_eff_ham_send");
 #endif
@@ -121,6 +126,10 @@ LanczosRes<TenT> MasterLanczosSolver(
     normalize_timer.ClearAndRestart();
 #endif
     auto norm_gamma = gamma->Normalize();
+    const QLTEN_Double last_b = (m == 1) ? 0.0 : b[m - 2];
+    norm_gamma = LanczosReorthogonalize(
+        norm_gamma, a[m - 1], last_b, bases, m, all_axes, gamma
+    );
 #ifdef QLMPS_TIMING_MODE
     normalize_timer.PrintElapsed();
     Timer trigssolver("lancz_triadiag_gs_solver_total");
@@ -128,7 +137,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #endif
     QLTEN_Double eigval;
     QLTEN_Double *eigvec = nullptr;
-    if (norm_gamma == 0.0) {
+    if (LanczosShouldStop(norm_gamma, a[m - 1], last_b, m, params)) {
       if (m == 1) {
 #ifdef QLMPS_TIMING_MODE
         Timer lancozs_post_precessing("lancz_post_processing");
@@ -219,7 +228,7 @@ LanczosRes<TenT> MasterLanczosSolver(
 #ifdef QLMPS_TIMING_MODE
       Timer lancozs_post_precessing("lancz_post_processing");
 #endif
-      lancz_res.iters = m;
+      lancz_res.iters = m + 1;
       lancz_res.gs_eng = energy0;
       lancz_res.gs_vec = gs_vec;
       LanczosFree(eigvec, bases, last_mat_mul_vec_res);
-- 
2.43.0


From c1c651bd10f6083080a61c5deaa509ed47c08ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 25/30] fix: parallel Lanczos exponential solver honours a
 limit of one vector

---
 include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
index 7f2b59d..938126b 100644
--- a/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
+++ b/include/qlmps/algo_mpi/tdvp/lanczos_expmv_solver_mpi.h
@@ -113,7 +113,7 @@ ExpmvRes<TenT> MasterLanczosExpmvSolver(
     trigssolver.Suspend();
 #endif
 
-    if (norm_gamma == 0.0) {
+    if (norm_gamma == 0.0 || m >= params.max_iterations) {
       expmv_res.iters = m;
       if (m == 1) { //initial state is just an eigenstate
         expmv_res.expmv = new TenT();
-- 
2.43.0


From cba89dbf1f67214691588d381b0d51dc5aa88af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 26/30] fix: parallel noisy sweeps when the right bond was
 reversed by the boundary update

---
 ..._site_update_noised_finite_vmps_mpi_impl.h | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index 903e397..1a1d30f 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -475,6 +475,25 @@ double MasterTwoSiteFiniteVMPSUpdate(
   return lancz_res.gs_eng;
 }
 
+/**
+MPO tensor of the right site for the expansion of the right bond of the state. Its right bond has the
+direction of that bond, which is IN after CheckAndUpdateBoundaryMPSTensors updated the next tensor.
+*/
+template<typename TenElemT, typename QNT>
+inline QLTensor<TenElemT, QNT> RightMovingExpandMPOTen(
+    const QLTensor<TenElemT, QNT> &state,
+    const QLTensor<TenElemT, QNT> &mpo_ten
+) {
+  if (state.GetIndex(3).GetDir() == mpo_ten.GetIndex(3).GetDir()) { return mpo_ten; }
+  QLTensor<TenElemT, QNT> mpo_ten_tmp(mpo_ten), u, v;
+  QLTensor<QLTEN_Double, QNT> s;
+  mpo_ten_tmp.Transpose({3, 0, 1, 2});
+  const QNT some_qn = state.GetIndex(3).GetQNSct(0).GetQn();
+  mock_qlten::SVD(&mpo_ten_tmp, 1, some_qn + (-some_qn), &u, &s, &v);
+  v.Transpose({1, 2, 3, 0});
+  return v;
+}
+
 template<typename TenElemT, typename QNT>
 void MasterTwoSiteFiniteVMPSRightMovingExpand(
     FiniteMPS<TenElemT, QNT> &mps,
@@ -519,7 +538,7 @@ void MasterTwoSiteFiniteVMPSRightMovingExpand(
   std::vector<qlten::QNSctsOffsetInfo> qnscts_offset_info_list;
   Index<QNT> index_b = FuseTwoIndexAndRecordInfo(
       index_a,
-      eff_ham[2]->GetIndexes()[3],
+      RightMovingExpandMPOTen(*gs_vec, *eff_ham[2]).GetIndexes()[3],
       qnscts_offset_info_list
   );
   std::map<size_t, int> b_idx_qnsct_coor_expanded_idx_qnsct_coor_map;
@@ -619,6 +638,7 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
 #endif
   TenT state_shell(ground_state.GetIndexes());
   state_shell.Transpose({3, 0, 1, 2});
+  const TenT right_mpo_ten = RightMovingExpandMPOTen(ground_state, *eff_ham[2]);
   const size_t split_idx = 0; //index of mps tensor
   const Index<QNT> &splited_index = eff_ham[0]->GetIndexes()[split_idx];
   const size_t task_size = splited_index.GetQNSctNum();
@@ -653,8 +673,8 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
   Contract(&eff_ham0_times_state, eff_ham[1], {{1, 2},
                                                {0, 1}}, &temp);
   eff_ham0_times_state.GetBlkSparDataTen().Clear();// save for memory
-  Contract(&temp, eff_ham[2], {{4, 1},
-                               {0, 1}}, &res);
+  Contract(&temp, &right_mpo_ten, {{4, 1},
+                                   {0, 1}}, &res);
   temp.GetBlkSparDataTen().Clear();
   res.FuseIndex(1, 4);
   TenT res1;
@@ -679,8 +699,8 @@ void SlaveTwoSiteFiniteVMPSRightMovingExpand(
     Contract(&eff_ham0_times_state, eff_ham[1], {{1, 2},
                                                  {0, 1}}, &temp);
     eff_ham0_times_state.GetBlkSparDataTen().Clear();// save for memory
-    Contract(&temp, eff_ham[2], {{4, 1},
-                                 {0, 1}}, &res);
+    Contract(&temp, &right_mpo_ten, {{4, 1},
+                                     {0, 1}}, &res);
     temp.GetBlkSparDataTen().Clear();
     res.FuseIndex(1, 4);
     TenT res1;
-- 
2.43.0


From d3c2df0059df3e218d8b061ae6f3f6519f62764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 27/30] fix: parallel noisy sweeps release the tensors they
 moved the centre over

---
 .../vmps/two_site_update_noised_finite_vmps_mpi_impl.h        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
index 1a1d30f..325808c 100644
--- a/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
+++ b/include/qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h
@@ -149,9 +149,9 @@ void NoisedVMPSPostProcess(
   for (size_t site = center; site > 0; site--) {
     mps.LoadTen(sweep_params.mps_path, site - 1);
     mps.RightCanonicalizeTen(site);
-    mps.DumpTen(sweep_params.mps_path, site);
+    mps.DumpTen(site, GenMPSTenName(sweep_params.mps_path, site), true);
   }
-  mps.DumpTen(sweep_params.mps_path, 0);
+  mps.DumpTen(0, GenMPSTenName(sweep_params.mps_path, 0), true);
   std::cout << "Moved the center of MPS to 0." << std::endl;
 }
 
-- 
2.43.0


From b2094d63cbedc8560027ab02f8e7ae06a29521d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 28/30] fix: parallel time evolution with a single rank runs
 the sequential program

---
 .../tdvp/two_site_update_finite_tdvp_mpi_impl_master.h    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h b/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
index 972e009..234d917 100644
--- a/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
+++ b/include/qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h
@@ -64,8 +64,14 @@ DynamicMeasuRes<TenElemT> TwoSiteFiniteTDVP(
     const std::string &measure_file_base_name,
     const MPI_Comm &comm
 ) {
-  int rank;
+  int rank, mpi_size;
   MPI_Comm_rank(comm, &rank);
+  MPI_Comm_size(comm, &mpi_size);
+  if (mpi_size == 1) {
+    return TwoSiteFiniteTDVP(
+        mps, mpo, static_cast<const TDVPEvolveParams<QNT> &>(sweep_params), measure_file_base_name
+    );
+  }
   const size_t N = mps.size();
   DynamicMeasuRes<TenElemT> measure_res(N * (sweep_params.step + 1));
   if (rank == kMPIMasterRank) {
-- 
2.43.0


From 4ffd71eb63565c5042ffa3a89edc9c3f297a259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:57 +0000
Subject: [PATCH 29/30] fix: FSMNode::Site returned the index of the state, not
 of the site

---
 include/qlmps/one_dim_tn/mpo/mpogen/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
index 5d49c18..70d3d0f 100644
--- a/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
+++ b/include/qlmps/one_dim_tn/mpo/mpogen/fsm.h
@@ -69,7 +69,7 @@ struct FSMNode {
   }
 
   [[nodiscard]] size_t Site(void) const {
-    return fsm_stat_idx;
+    return fsm_site_idx;
   }
 
   void SetSite(size_t site) {
-- 
2.43.0


From 0a6870679afc5767032a9ebee43185a2dce507f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:08 +0000
Subject: [PATCH 30/30] fix: no write to the centre of a state on every site
 access: data race between the thread that loads tensors and the master of a
 parallel noisy sweep

---
 include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
index 47ad936..3f2d32b 100644
--- a/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
+++ b/include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h
@@ -72,7 +72,7 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
   */
   LocalTenT &operator[](const size_t idx) {
     tens_cano_type_[idx] = MPSTenCanoType::NONE;
-    center_ = kUncentralizedCenterIdx;
+    if (center_ != kUncentralizedCenterIdx) { center_ = kUncentralizedCenterIdx; } // no write while another thread loads or accesses other sites
     return DuoVector<LocalTenT>::operator[](idx);
   }
 
@@ -93,7 +93,7 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
   */
   LocalTenT *&operator()(const size_t idx) {
     tens_cano_type_[idx] = MPSTenCanoType::NONE;
-    center_ = kUncentralizedCenterIdx;
+    if (center_ != kUncentralizedCenterIdx) { center_ = kUncentralizedCenterIdx; } // no write while another thread loads or accesses other sites
     return DuoVector<LocalTenT>::operator()(idx);
   }
 
@@ -116,7 +116,7 @@ class FiniteMPS : public MPS<TenElemT, QNT> {
   */
   void LoadTen(const size_t idx, const std::string &file) {
     tens_cano_type_[idx] = MPSTenCanoType::NONE;
-    center_ = kUncentralizedCenterIdx;
+    if (center_ != kUncentralizedCenterIdx) { center_ = kUncentralizedCenterIdx; } // no write while another thread loads or accesses other sites
     MPS<TenElemT, QNT>::LoadTen(idx, file);
   }
 
-- 
2.43.0

