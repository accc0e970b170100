From eae9d4c8681b00c9c0668cd529a8835fb5a037ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 01/23] fix: propagate the proximal parameter to the components
 of a constraint set product

---
 include/proxsuite-nlp/constraint-set.hpp                   | 2 +-
 .../modelling/constraints/constraint-set-product.hpp       | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/constraint-set.hpp b/include/proxsuite-nlp/constraint-set.hpp
index 9a2ba05..6e83db6 100644
--- a/include/proxsuite-nlp/constraint-set.hpp
+++ b/include/proxsuite-nlp/constraint-set.hpp
@@ -67,7 +67,7 @@ public:
 
   /// @brief Update proximal parameter; this applies to when this class is a
   /// proximal operator that isn't a projection (e.g. \f$ \ell_1 \f$).
-  void setProxParameter(const Scalar mu) const {
+  virtual void setProxParameter(const Scalar mu) const {
     mu_ = mu;
     mu_inv_ = 1. / mu;
   };
diff --git a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
index da9a906..6349fa2 100644
--- a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
+++ b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
@@ -96,6 +96,13 @@ struct ConstraintSetProductTpl : ConstraintSetTpl<Scalar> {
     }
   }
 
+  void setProxParameter(const Scalar mu) const override {
+    Base::setProxParameter(mu);
+    for (const auto &component : m_components) {
+      component->setProxParameter(mu);
+    }
+  }
+
   void computeActiveSet(const ConstVectorRef &z,
                         Eigen::Ref<ActiveType> out) const override {
     for (std::size_t i = 0; i < m_components.size(); i++) {
-- 
2.43.0


From 366729e3f39dc06d82f310a160a0ae7838966ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 02/23] fix: interpolate the fibre part of tangent bundle
 elements, not the base point

---
 include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
index 1836f88..2f46e93 100644
--- a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
@@ -85,7 +85,7 @@ void TangentBundleTpl<Base>::interpolate_impl(const ConstVectorRef &x0,
   base_.interpolate(getBasePoint(x0), getBasePoint(x1), u,
                     getBasePointWrite(out));
   out.tail(base_.ndx()) =
-      (Scalar(1.) - u) * getBaseTangent(x0) + u * getBaseTangent(x1);
+      (Scalar(1.) - u) * x0.tail(base_.ndx()) + u * x1.tail(base_.ndx());
 }
 
 } // namespace nlp
-- 
2.43.0


From 6c52d041c1231c27586315b9bfeb894b06f96e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 03/23] fix: an element of a Cartesian product is normalized
 when all its components are

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
index 94e1791..f345ea1 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
@@ -34,7 +34,7 @@ bool CartesianProductTpl<Scalar>::isNormalized(const ConstVectorRef &x) const {
   bool res = true;
   auto xs = this->split(x);
   for (std::size_t i = 0; i < numComponents(); i++) {
-    res |= m_components[i]->isNormalized(xs[i]);
+    res &= m_components[i]->isNormalized(xs[i]);
   }
   return res;
 }
-- 
2.43.0


From e673ace5b8df9a7295678d8c81260fcd5ca7691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 04/23] fix: keep the order of the operands in manifold *
 product

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 4984353..2448fc7 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -139,7 +139,10 @@ auto operator*(const CartesianProductTpl<T> &left,
 template <typename T>
 auto operator*(const polymorphic<ManifoldAbstractTpl<T>> &left,
                const CartesianProductTpl<T> &right) {
-  return right * left;
+  CartesianProductTpl<T> out;
+  out.addComponent(left);
+  out.addComponent(right);
+  return out;
 }
 
 template <typename T>
-- 
2.43.0


From 6a7216905a3db2e8965b053b4f1e85d48722b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 05/23] fix: evaluate the residual at the queried point in
 quadratic residual cost derivatives

---
 include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
index e02d75e..2f96bd3 100644
--- a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
+++ b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
@@ -37,6 +37,7 @@ Scalar QuadraticResidualCostTpl<Scalar>::call(const ConstVectorRef &x) const {
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
                                                        VectorRef out) const {
+  err = (*residual_)(x);
   residual_->computeJacobian(x, Jres);
 
   JtW.noalias() = Jres.transpose() * weights_;
@@ -47,6 +48,7 @@ void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeHessian(const ConstVectorRef &x,
                                                       MatrixRef out) const {
+  err = (*residual_)(x);
   tmp_w_err.noalias() = weights_ * err;
   tmp_w_err += slope_;
 
-- 
2.43.0


From 467c6b5b25552e64c58efb538ef1ff5459ccf260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 06/23] fix: support adding a cost sum to itself

---
 include/proxsuite-nlp/cost-sum.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/cost-sum.hpp b/include/proxsuite-nlp/cost-sum.hpp
index c0e5d7c..66ba42b 100644
--- a/include/proxsuite-nlp/cost-sum.hpp
+++ b/include/proxsuite-nlp/cost-sum.hpp
@@ -67,10 +67,11 @@ public:
   }
 
   CostSumTpl<Scalar> &operator+=(const CostSumTpl<Scalar> &other) {
-    components_.insert(components_.end(), other.components_.begin(),
-                       other.components_.end());
-    weights_.insert(weights_.end(), other.weights_.begin(),
-                    other.weights_.end());
+    // other might be *this, so do not hold iterators to its components
+    const std::size_t nc = other.numComponents();
+    for (std::size_t i = 0; i < nc; i++) {
+      addComponent(other.components_[i], other.weights_[i]);
+    }
     return *this;
   }
 
-- 
2.43.0


From ba106d260145e67163abd7cb23ac7b7feb51780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 07/23] fix: compute the signature of 2x2 Bunch-Kaufman pivots
 independently of their scale

---
 include/proxsuite-nlp/ldlt-allocator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 70111f6..b9dfb39 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -153,9 +153,11 @@ void bunch_kaufman_compute_signature(
       // 2x2 block
       Real ak = Eigen::numext::real(a(k, k));
       Real akp1 = Eigen::numext::real(a(k + 1, k + 1));
-      Scalar akp1k = factor.subdiag()[k];
+      // scale by the off-diagonal term, which is nonzero in a 2x2 pivot: the
+      // signs must not depend on the magnitude of the entries
+      Real akp1k = Eigen::numext::abs(factor.subdiag()[k]);
       Real tr = ak + akp1;
-      Real det = ak * akp1 - Eigen::numext::abs2(akp1k);
+      Real det = (ak / akp1k) * (akp1 / akp1k) - Real(1);
 
       if (std::abs(det) <= std::numeric_limits<Scalar>::epsilon()) {
         signature[k] = 0;
-- 
2.43.0


From 47ae72a237d3dfbf43305b3ed769b5483bbab8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 08/23] fix: report the sign of the current matrix in the LDLT
 decompositions

The sign was carried over from the previous call to compute(), a dense block of
size one overwrote the sign accumulated over the previous blocks, and the last
block was ignored when it had size one.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp |  3 +++
 include/proxsuite-nlp/linalg/dense.hpp      | 11 ++---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index f17b391..960ab26 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -32,6 +32,8 @@ template <typename Scalar> struct block_impl {
     const isize nblocks = sym_structure.nsegments();
     const isize n = mat.rows();
     if ((nblocks == 0) || (n <= 1)) {
+      if (n == 1)
+        update_sign_matrix(sign, mat(0, 0));
       return true;
     }
 
@@ -310,6 +312,7 @@ public:
   const MatrixXs &matrixLDLT() const override { return m_matrix; }
 
   inline void compute() {
+    m_sign = SignMatrix::ZeroSign;
     m_info =
         backend::block_impl<Scalar>{m_matrix, m_structure}.ldlt_in_place_impl(
             m_sign)
diff --git a/include/proxsuite-nlp/linalg/dense.hpp b/include/proxsuite-nlp/linalg/dense.hpp
index b4e0478..51fc194 100644
--- a/include/proxsuite-nlp/linalg/dense.hpp
+++ b/include/proxsuite-nlp/linalg/dense.hpp
@@ -46,15 +46,7 @@ inline bool ldlt_in_place_unblocked(Eigen::MatrixBase<Derived> &a,
                                     SignMatrix &sign) {
   using Scalar = typename Derived::Scalar;
   const isize n = a.rows();
-  if (n <= 1) {
-    if (n == 0)
-      sign = SignMatrix::ZeroSign;
-    else if (a(0, 0) > 0)
-      sign = SignMatrix::PositiveSemiDef;
-    else if (a(0, 0) < 0)
-      sign = SignMatrix::NegativeSemiDef;
-    else
-      sign = SignMatrix::ZeroSign;
+  if (n == 0) {
     return true;
   }
 
@@ -181,6 +173,7 @@ template <typename _Scalar> struct DenseLDLT : ldlt_base<_Scalar> {
 
   DenseLDLT &compute(const ConstMatrixRef &mat) {
     m_matrix = mat;
+    m_sign = SignMatrix::ZeroSign;
     m_info = backend::dense_ldlt_in_place(m_matrix, m_sign)
                  ? Eigen::Success
                  : Eigen::NumericalIssue;
-- 
2.43.0


From 69bf8033239d17099a64f5eb0ec3ba020386c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 09/23] fix: multiply the matching part of the diagonal in the
 diagonal times triangular kernels

---
 include/proxsuite-nlp/linalg/gemmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/gemmt.hpp b/include/proxsuite-nlp/linalg/gemmt.hpp
index a1b93f3..fc65ed2 100644
--- a/include/proxsuite-nlp/linalg/gemmt.hpp
+++ b/include/proxsuite-nlp/linalg/gemmt.hpp
@@ -41,7 +41,7 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriL> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).head(j + 1) += alpha * lhs.diagonal().cwiseProduct(
+      dst.col(j).head(j + 1) += alpha * lhs.diagonal().head(j + 1).cwiseProduct(
                                             rhs.transpose().col(j).head(j + 1));
     }
   }
@@ -59,7 +59,7 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriU> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).tail(m - j) += alpha * lhs.diagonal().cwiseProduct(
+      dst.col(j).tail(m - j) += alpha * lhs.diagonal().tail(m - j).cwiseProduct(
                                             rhs.transpose().col(j).tail(m - j));
     }
   }
-- 
2.43.0


From da9ba7129c55f3901b99aaab358d2c1461422089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 10/23] fix: copy the block LDLT decomposition deeply on
 assignment, and its sign

The implicit assignment operator copied the owning pointers of the symbolic
structures, which were then freed twice.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 960ab26..7f81652 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -241,12 +241,31 @@ public:
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
+    m_sign = other.m_sign;
     m_perm = other.m_perm;
     m_perm_inv = other.m_perm_inv;
     m_iwork = other.m_iwork;
     m_start_idx = other.m_start_idx;
   }
 
+  BlockLDLT &operator=(BlockLDLT const &other) {
+    if (this == &other)
+      return *this;
+    BlockLDLT copy(other);
+    // the symbolic matrices are shallow: exchange the data they own
+    std::swap(m_structure, copy.m_structure);
+    std::swap(m_struct_tr, copy.m_struct_tr);
+    m_matrix = copy.m_matrix;
+    m_permutation = copy.m_permutation;
+    m_info = copy.m_info;
+    m_sign = copy.m_sign;
+    m_perm = copy.m_perm;
+    m_perm_inv = copy.m_perm_inv;
+    m_iwork = copy.m_iwork;
+    m_start_idx = copy.m_start_idx;
+    return *this;
+  }
+
   /// Compute indices indicating where blocks start
   void computeStartIndices(const SymbolicBlockMatrix &in) {
     m_start_idx[0] = 0;
-- 
2.43.0


From 293e896f31a28a0a42db7add4d454b76544960df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 11/23] fix: analyse the input structure when the block
 permutation is changed again

Setting another permutation started from the permuted and factorized structure,
and leaked the symbolic structures.
---
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 15 +++++++++++----
 include/proxsuite-nlp/linalg/block-ldlt.hxx | 10 ++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 7f81652..df24e98 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -212,6 +212,8 @@ template <typename _Scalar> struct BlockLDLT : ldlt_base<_Scalar> {
 
 protected:
   MatrixXs m_matrix;
+  /// Structure given as input, neither permuted nor factorized.
+  SymbolicBlockMatrix m_structure_in;
   SymbolicBlockMatrix m_structure;
   SymbolicBlockMatrix m_struct_tr;
   PermutationType m_permutation;
@@ -228,16 +230,18 @@ public:
   /// @brief  The constructor copies the input matrix @param mat and symbolic
   /// block pattern @param structure.
   BlockLDLT(isize size, SymbolicBlockMatrix const &structure)
-      : Base(), m_matrix(size, size), m_structure(structure.copy()),
-        m_permutation(size), m_perm(nblocks()), m_perm_inv(nblocks()),
-        m_iwork(nblocks()), m_start_idx(nblocks()) {
+      : Base(), m_matrix(size, size), m_structure_in(structure.copy()),
+        m_structure(structure.copy()), m_permutation(size), m_perm(nblocks()),
+        m_perm_inv(nblocks()), m_iwork(nblocks()), m_start_idx(nblocks()) {
     std::iota(m_perm.begin(), m_perm.end(), isize(0));
     m_permutation.setIdentity();
     m_struct_tr = m_structure.transpose();
   }
 
   BlockLDLT(BlockLDLT const &other)
-      : BlockLDLT(other.m_matrix.rows(), other.m_structure) {
+      : BlockLDLT(other.m_matrix.rows(), other.m_structure_in) {
+    symbolic_deep_copy(other.m_structure, m_structure);
+    symbolic_deep_copy(other.m_struct_tr, m_struct_tr);
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
@@ -253,6 +257,7 @@ public:
       return *this;
     BlockLDLT copy(other);
     // the symbolic matrices are shallow: exchange the data they own
+    std::swap(m_structure_in, copy.m_structure_in);
     std::swap(m_structure, copy.m_structure);
     std::swap(m_struct_tr, copy.m_struct_tr);
     m_matrix = copy.m_matrix;
@@ -275,6 +280,8 @@ public:
   }
 
   ~BlockLDLT() {
+    delete[] m_structure_in.m_data;
+    delete[] m_structure_in.segment_lens;
     delete[] m_structure.m_data;
     delete[] m_structure.segment_lens;
     delete[] m_struct_tr.m_data;
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hxx b/include/proxsuite-nlp/linalg/block-ldlt.hxx
index e0ab2f8..ec0ccd8 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hxx
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hxx
@@ -12,11 +12,10 @@ namespace linalg {
 
 template <typename Scalar>
 void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
-  SymbolicBlockMatrix in(m_structure.copy());
+  const SymbolicBlockMatrix &in = m_structure_in;
   const isize n = m_structure.nsegments();
   if (new_perm != nullptr)
     std::copy_n(new_perm, n, m_perm.data());
-  m_structure.performed_llt = false;
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern(); // call manually
   updateBlockPermutationMatrix(in);
@@ -24,7 +23,7 @@ void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
 
 template <typename Scalar>
 BlockLDLT<Scalar> &BlockLDLT<Scalar>::findSparsifyingPermutation() {
-  SymbolicBlockMatrix in(m_structure.copy());
+  const SymbolicBlockMatrix &in = m_structure_in;
   m_structure.brute_force_best_permutation(in, m_perm.data(), m_iwork.data());
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern();
@@ -36,7 +35,10 @@ template <typename Scalar> bool BlockLDLT<Scalar>::analyzePattern() {
   if (m_structure.performed_llt)
     return true;
   bool flag = m_structure.llt_in_place();
-  m_struct_tr = m_structure.transpose();
+  const SymbolicBlockMatrix tr = m_structure.transpose();
+  symbolic_deep_copy(tr, m_struct_tr);
+  delete[] tr.m_data;
+  delete[] tr.segment_lens;
   return flag;
 }
 
-- 
2.43.0


From 7618ad7d4877bfba8193309444ae2e6580022f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 12/23] fix: interpolate each sample at its own step in the
 cubic line-search interpolation

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 6969a2c..21a1b37 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -187,8 +187,8 @@ public:
       alph_mat(1, 0) = a1 * a1 * a1;
       alph_mat(1, 1) = a1 * a1;
 
-      Vector2s alph_rhs{cand1.phi - phi0 - dphi0 * a1,
-                        cand0.phi - phi0 - dphi0 * a0};
+      Vector2s alph_rhs{cand0.phi - phi0 - dphi0 * a0,
+                        cand1.phi - phi0 - dphi0 * a1};
 
       Eigen::HouseholderQR<Matrix2s> decomp(alph_mat);
       coeffs_cubic_interpolant = decomp.solve(alph_rhs);
-- 
2.43.0


From f7ab92470e75a6b1ab26acfa7b6b5c2b2d5217b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 13/23] fix: reduce the current step when the line-search
 interpolation is not usable

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 21a1b37..91fb203 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -91,6 +91,7 @@ public:
       }
 
       // compute next alpha try
+      const Scalar alpha_last = alpha_try;
       LSInterpolation strat = options_.interp_type;
       if (strat == LSInterpolation::BISECTION) {
         alpha_try *= 0.5;
@@ -126,10 +127,9 @@ public:
 
       if (std::isnan(alpha_try)) {
         // handle NaN case
-        alpha_try = options_.contraction_min * previous.alpha;
-      } else {
-        alpha_try = std::max(alpha_try, options_.alpha_min);
+        alpha_try = options_.contraction_min * alpha_last;
       }
+      alpha_try = std::max(alpha_try, options_.alpha_min);
 
       try {
         previous = latest;
-- 
2.43.0


From 38aa85eebb5a90e4d88733bca4f14ea47a547302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 14/23] fix: return the line-search step whose merit value is
 returned

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 91fb203..5f58c2a 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -73,7 +73,9 @@ public:
       } catch (const std::runtime_error &e) {
         alpha_try *= 0.5;
         if (alpha_try <= options_.alpha_min) {
+          // an error at the smallest step is left to the caller
           alpha_try = options_.alpha_min;
+          latest = FunctionSample(alpha_try, phi(alpha_try));
           break;
         }
       }
@@ -86,7 +88,7 @@ public:
     for (std::size_t i = 0; i < options_.max_num_steps; i++) {
 
       const Scalar dM = latest.phi - phi0;
-      if (dM <= options_.armijo_c1 * alpha_try * dphi0) {
+      if (dM <= options_.armijo_c1 * latest.alpha * dphi0) {
         break;
       }
 
@@ -132,8 +134,9 @@ public:
       alpha_try = std::max(alpha_try, options_.alpha_min);
 
       try {
+        const FunctionSample next(alpha_try, phi(alpha_try));
         previous = latest;
-        latest = FunctionSample(alpha_try, phi(alpha_try));
+        latest = next;
       } catch (const std::runtime_error &e) {
         continue;
       }
@@ -142,7 +145,8 @@ public:
         break;
       }
     }
-    alpha_try = std::max(alpha_try, options_.alpha_min);
+    // the step whose value is returned: the last trial may have failed
+    alpha_try = latest.alpha;
     return latest.phi;
   }
 
-- 
2.43.0


From 6997c54a7b277f9f239d1409f760567e627d9ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 15/23] fix: count undefined LDLT pivots as zero in the
 signature

---
 include/proxsuite-nlp/ldlt-allocator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index b9dfb39..11d72d5 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -184,8 +184,9 @@ void bunch_kaufman_compute_signature(
 
 struct ComputeSignatureVisitor {
   template <typename Fac> void operator()(const Fac &facto) const {
-    auto sign = facto.vectorD().cwiseSign();
-    signature = sign.template cast<int>();
+    // an undefined pivot (after a zero one) counts as zero, as in math::sign()
+    signature = facto.vectorD().unaryExpr(
+        [](const auto &d) { return int(math::sign(d)); });
   }
 
   template <typename MatType>
-- 
2.43.0


From 281b938d66d5f40aeb5bb7680befefcd4771fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 16/23] fix: refine the KKT solution against the regularised
 matrix which was factorised

---
 include/proxsuite-nlp/prox-solver.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index b76a08e..0752137 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -405,15 +405,18 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
           workspace.ldlt_);
       boost::apply_visitor(ComputeSignatureVisitor{workspace.signature},
                            workspace.ldlt_);
-      workspace.kkt_matrix.diagonal().head(ndx).array() -= delta;
       is_inertia_correct =
           checkInertia(manifold().ndx(), problem_->getTotalConstraintDim(),
                        workspace.signature);
 
       if (is_inertia_correct == INERTIA_OK) {
+        // keep the regularised matrix: it is the one which was factorised, and
+        // iterative refinement needs it
         delta_last = delta;
         break;
-      } else if (delta == 0.) {
+      }
+      workspace.kkt_matrix.diagonal().head(ndx).array() -= delta;
+      if (delta == 0.) {
         // check if previous was zero
         if (delta_last == 0.)
           delta = DELTA_NONZERO_INIT; // try a set nonzero value
-- 
2.43.0


From 5de5793d59e3ac88db31d0cb326fed5cd3ad3c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 17/23] fix: start the proximal term from the initial guess,
 not from the previous solve

---
 include/proxsuite-nlp/prox-solver.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 0752137..be6e812 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -68,6 +68,7 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   // init variables
   results.x_opt = x0;
   workspace.x_prev = x0;
+  prox_penalty.updateTarget(workspace.x_prev);
   if (lams0.size() == workspace.numdual) {
     results.data_lams_opt = lams0;
     workspace.data_lams_prev = lams0;
-- 
2.43.0


From dc97116952b818544810263579278809ecd4c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 18/23] fix: declare success for the multipliers the residuals
 were computed with

---
 include/proxsuite-nlp/prox-solver.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index be6e812..1fc2d97 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -92,6 +92,12 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
     workspace.x_prev = results.x_opt;
     prox_penalty.updateTarget(workspace.x_prev);
 
+    // check convergence first: the residuals hold for the current multipliers
+    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
+      workspace.data_lams_prev = results.data_lams_opt;
+      results.converged = ConvergenceFlag::SUCCESS;
+      break;
+    }
     if (results.prim_infeas < prim_tol_) {
       acceptMultipliers(results, workspace);
       updateToleranceSuccess();
@@ -99,10 +105,6 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
       updatePenalty();
       updateToleranceFailure();
     }
-    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
-      results.converged = ConvergenceFlag::SUCCESS;
-      break;
-    }
     setProxParameter(rho_ * bcl_params.rho_update_factor);
 
     al_iter++;
-- 
2.43.0


From 060523e80827c0798ba834024d11c4194a869ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 19/23] fix: report MAX_ITERS_REACHED when the outer iteration
 limit stops the solver

---
 include/proxsuite-nlp/prox-solver.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 1fc2d97..53f3d4e 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -109,6 +109,8 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
 
     al_iter++;
   }
+  if (results.converged == ConvergenceFlag::UNINIT)
+    results.converged = ConvergenceFlag::MAX_ITERS_REACHED;
 
   if (results.converged == SUCCESS)
     fmt::print(fmt::fg(fmt::color::dodger_blue),
-- 
2.43.0


From 0427998d5716cdbfa9983dabf3508e8d7f081251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 20/23] fix: keep the multipliers of each iteration in the
 history callback's views

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 6109940..60f1487 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -39,7 +39,15 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     if (store_primal_dual_vars_) {
       storage.xs.push_back(results.x_opt);
       storage.lams.push_back(results.data_lams_opt);
-      storage.lams_view.push_back(results.lams_opt);
+      // view the stored multipliers, not those of the solver
+      VectorXs &lams = storage.lams.back();
+      VectorOfRef views;
+      long cursor = 0;
+      for (const auto &lam : results.lams_opt) {
+        views.emplace_back(lams.segment(cursor, lam.size()));
+        cursor += lam.size();
+      }
+      storage.lams_view.push_back(std::move(views));
     }
     if (store_values_)
       storage.values.push_back(results.value);
@@ -49,9 +57,9 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     }
     const std::size_t asize = workspace.ls_alphas.size();
     storage.ls_alphas.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_alphas[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_alphas.data(), long(asize)));
     storage.ls_values.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_values[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_values.data(), long(asize)));
     storage.alphas.push_back(workspace.alpha_opt);
     storage.dmerit_dir.push_back(workspace.dmerit_dir);
   }
-- 
2.43.0


From 305055b1ac5fa40d3781628babb4d31332d9ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 21/23] fix: construct the requested type in polymorphic's
 in-place constructor from a list

---
 include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index ef397bc..0147f7b 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -228,7 +228,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
-- 
2.43.0


From f4206d5126830769387e886c41b4e9ea83ef9a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 22/23] fix: do not add constraint Hessian products that the
 Hessian mode does not compute

---
 include/proxsuite-nlp/prox-solver.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 53f3d4e..35f1c6a 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -513,8 +513,11 @@ void ProxNLPSolverTpl<Scalar>::assembleKktMatrix(Workspace &workspace) {
   }
   for (std::size_t i = 0; i < workspace.numblocks; i++) {
     const ConstraintSet &cstr_set = *problem_->getConstraint(i).set_;
-    bool use_vhp =
-        !cstr_set.disableGaussNewton() || (hess_approx == HessianApprox::EXACT);
+    // the products are computed in computeProblemDerivatives() only in the
+    // EXACT and GAUSS_NEWTON modes
+    bool use_vhp = (hess_approx == HessianApprox::EXACT) ||
+                   (hess_approx == HessianApprox::GAUSS_NEWTON &&
+                    !cstr_set.disableGaussNewton());
     if (use_vhp) {
       workspace.kkt_matrix.topLeftCorner(ndx, ndx) +=
           workspace.cstr_vector_hessian_prod[i];
-- 
2.43.0


From 5812d6b0becc9c3afd84decd1573cd80286f5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 23/23] fix: check the assembled KKT matrix for NaN, not the
 one of the previous iteration

---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 35f1c6a..8b99de2 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -353,7 +353,6 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     }
 
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");
-    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     computePrimalResiduals(workspace, results);
 
@@ -395,6 +394,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
 
     // fill in KKT matrix
     assembleKktMatrix(workspace);
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     // choose regularisation level
 
-- 
2.43.0

