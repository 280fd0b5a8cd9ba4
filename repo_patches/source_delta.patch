From 2d41ee61ab2673d287c47ff9913b7b0f10059c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 01/34] fix: boxADMM relaxation of x uses the previous iterate

---
 src/solvers/box_admm.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index c31106a..4598350 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -126,8 +126,7 @@ public:
             m_z_tilde = m_z_prev + m_rho_inv_vec.cwiseProduct(x_tilde_nu.template tail<M>() - this->m_y.template head<M>());
 
             /** update x */
-            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde;
-            this->m_x.noalias() += (1 - this->m_settings.alpha) * this->m_x;
+            this->m_x = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * this->m_x;
 
             /** update z */
             m_z.noalias() = this->m_settings.alpha * m_z_tilde;
-- 
2.43.0


From 0ec959940b195a670fc02464c3a8e8322cf9bd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 02/34] fix: QP solvers report the number of iterations
 performed when the budget is exhausted

---
 src/solvers/admm.hpp     | 2 +-
 src/solvers/box_admm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a849d6f..4d573ec 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -207,7 +207,7 @@ public:
         if (iter > this->m_settings.max_iter)
             this->m_info.status = MAX_ITER_EXCEEDED;
 
-        this->m_info.iter = iter;
+        this->m_info.iter = std::min(iter, this->m_settings.max_iter);
 
         return this->m_info.status;
     }
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 4598350..12dc304 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -198,7 +198,7 @@ public:
         if (iter > this->m_settings.max_iter)
             this->m_info.status = MAX_ITER_EXCEEDED;
 
-        this->m_info.iter = iter;
+        this->m_info.iter = std::min(iter, this->m_settings.max_iter);
 
         return this->m_info.status;
     }
-- 
2.43.0


From 4d101a18a8252c1107a3272a4e40c8abe67a3bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 03/34] fix: pattern-reusing KKT update writes the transposed
 constraint block into its place

---
 src/solvers/admm.hpp     | 6 +++---
 src/solvers/box_admm.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index 4d573ec..e966758 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -330,7 +330,7 @@ public:
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -354,10 +354,10 @@ public:
     block_set_sparse(Eigen::SparseMatrix<scalar_t>& dst, const Eigen::Index &row_offset,
                      const Eigen::Index &col_offset, const Eigen::SparseMatrix<scalar_t>& src) const noexcept
     {
-        // assumes enough spase is allocated in the dst matrix
+        // the entries already exist in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
     /** workaround function to estimate number of nonzeros */
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 12dc304..cb6530e 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -299,7 +299,7 @@ public:
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -324,10 +324,10 @@ public:
     block_set_sparse(Eigen::SparseMatrix<scalar_t>& dst, const Eigen::Index &row_offset,
                         const Eigen::Index &col_offset, const Eigen::SparseMatrix<scalar_t>& src) const noexcept
     {
-        // assumes enough spase is allocated in the dst matrix
+        // the entries already exist in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
 
-- 
2.43.0


From 515b06ec2334a484ab5bb3e85ddc12016a37a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 04/34] fix: sparse unscale keeps all entries of a single-row
 constraint matrix

---
 src/solvers/qp_preconditioners.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 8cd4eef..77bdd29 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -391,7 +391,7 @@ public:
             Eigen::Ref<gradient_t> l, Eigen::Ref<gradient_t> u) const noexcept
     {
         H = scalar_t(1 / m_c) * (D.cwiseInverse()).asDiagonal() * H * (D.cwiseInverse()).asDiagonal();
-        A = (E.cwiseInverse()).asDiagonal() * A * (D.cwiseInverse()).asDiagonal();
+        A = (E.cwiseInverse()).asDiagonal() * (A * (D.cwiseInverse()).asDiagonal());
         H.uncompress();
         A.uncompress();
         h.noalias() = scalar_t(1 / m_c) * h.cwiseProduct(D.cwiseInverse());
-- 
2.43.0


From bb073df24c80b3cc3e7ae79e23842bcc91088df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 05/34] fix: sparse Ruiz equilibration guards against a zero
 cost norm like the dense one

---
 src/solvers/qp_preconditioners.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 77bdd29..a47d553 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -286,7 +286,9 @@ public:
 
             // update gamma factor
             for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > std::numeric_limits<scalar_t>::epsilon() ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
-- 
2.43.0


From 41299a65ccf5e208c8961f743c890a07acbae3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:57 +0000
Subject: [PATCH 06/34] fix: a full line-search filter also drops the pairs
 dominated by the new one

---
 src/solvers/line_search.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/solvers/line_search.hpp b/src/solvers/line_search.hpp
index 647eedc..03b6e4c 100644
--- a/src/solvers/line_search.hpp
+++ b/src/solvers/line_search.hpp
@@ -76,19 +76,16 @@ public:
     //
     inline void add(const scalar_t& cost, const scalar_t& constraint) noexcept
     {
-        if(m_filter.size() < max_depth)
-        {   // remove the points if the candidate point dominates them
-            //m_filter.remove_if([cost, constraint](const filter_pair_t& candidate){return (candidate.first <= cost && candidate.second <= constraint);});
-            m_filter.remove_if(dominated_by<scalar_t>(cost, constraint));
-            m_filter.emplace_front(cost, constraint);
-        }
-        else
-        {
-            // clear the last element and push front
-            //m_filter.sort();
+        // remove the points if the candidate point dominates them
+        //m_filter.remove_if([cost, constraint](const filter_pair_t& candidate){return (candidate.first <= cost && candidate.second <= constraint);});
+        m_filter.remove_if(dominated_by<scalar_t>(cost, constraint));
+
+        // clear the last element if the filter is still full
+        //m_filter.sort();
+        if(!m_filter.empty() && m_filter.size() >= max_depth)
             m_filter.pop_back();
-            m_filter.emplace_front(cost, constraint);
-        }
+
+        m_filter.emplace_front(cost, constraint);
     }
     //
     inline void remove_one() noexcept
-- 
2.43.0


From 9b6e3b6bf0ab179e4a0ce66ca1d95830c603f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 07/34] fix: SR1 update is skipped when the residual is zero

---
 src/solvers/sr1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index 3dd289b..c18192d 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -29,7 +29,7 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
     const Scalar scaling = v.dot(s);
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
     // safeguard
-    if(std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
+    if(std::abs(scaling) > eps * s.template lpNorm<2>() * v.template lpNorm<2>())
         B.noalias() += v * v.transpose() / scaling;
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
-- 
2.43.0


From 49bb03175943286e9e11fde6094b07ab058eb9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 08/34] fix: floor of an automatic-differentiation scalar has
 zero derivative

---
 src/autodiff/AutoDiffScalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 92a0194..2077054 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -623,7 +623,7 @@ EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(log,
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(floor,
   using std::floor;
-  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(1));)
+  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(0));)
 
 template<typename DerType>
 inline const Eigen::AutoDiffScalar<
-- 
2.43.0


From e66f86885822b68b912095959fa2ea9a3d88374d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 09/34] fix: atan2 accepts an argument with an empty derivative
 vector like the operators do

---
 src/autodiff/AutoDiffScalar.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 2077054..641fdbc 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -642,6 +642,7 @@ atan2(const AutoDiffScalar<DerTypeA>& a, const AutoDiffScalar<DerTypeB>& b)
   using std::atan2;
   typedef typename internal::traits<typename internal::remove_all<DerTypeA>::type>::Scalar Scalar;
   typedef AutoDiffScalar<Matrix<Scalar,Dynamic,1> > PlainADS;
+  internal::make_coherent(a.derivatives(), b.derivatives());
   PlainADS ret;
   ret.value() = atan2(a.value(), b.value());
   
-- 
2.43.0


From 677fb111dd16492ad74928e151be135bdf05594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:47 +0000
Subject: [PATCH 10/34] fix: normalisation factor of the highest-order
 Chebyshev polynomial matches its discrete norm

---
 src/polynomials/ebyshev.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index e010e75..bbf824a 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -175,6 +175,8 @@ Chebyshev<PolyOrder, Qtype, Scalar>::compute_norm_factors() noexcept
 {
     q_weights_t w = q_weights_t::Constant(static_cast<Scalar>(Scalar(2) / M_PI));
     w[0] *= Scalar(0.5);
+    /** the squared norm of the highest order polynomial is pi in the Gauss-Lobatto quadrature */
+    w[PolyOrder] *= Scalar(0.5);
     return w;
 }
 
-- 
2.43.0


From b8a3a620cbb67481e3fc7f911761a50ecf45d9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:03 +0000
Subject: [PATCH 11/34] fix: end entries of the Legendre differentiation matrix
 have the sign for ascending nodes

---
 src/polynomials/legendre.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/legendre.hpp b/src/polynomials/legendre.hpp
index 4ac4bdb..a8a0ac7 100644
--- a/src/polynomials/legendre.hpp
+++ b/src/polynomials/legendre.hpp
@@ -162,8 +162,8 @@ Legendre<PolyOrder, Qtype, Scalar>::compute_diff_matrix() noexcept
     nodes_t nodes = compute_nodes();
     basis_t Ln    = compute_basis();
 
-    /** use formula from Canuto-Quarteroni */
-    D(0,0) = (POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
+    /** use formula from Canuto-Quarteroni (the nodes are sorted in the ascending order) */
+    D(0,0) = -(POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
     D(POLY_ORDER, POLY_ORDER) = -D(0,0);
 
     for(Eigen::Index i = 0; i < NUM_NODES; ++i)
-- 
2.43.0


From 0b5f036bb565141a10641c5cb25011eb13ff8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:32 +0000
Subject: [PATCH 12/34] fix: polynomial product accumulates all terms of a
 degree and handles zero polynomials

---
 src/polynomials/polynomial_math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/polynomial_math.hpp b/src/polynomials/polynomial_math.hpp
index d787c09..96d614a 100644
--- a/src/polynomials/polynomial_math.hpp
+++ b/src/polynomials/polynomial_math.hpp
@@ -52,7 +52,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
     Scalar eps = std::numeric_limits<Scalar>::epsilon();
 
     /** detect nonzeros */
-    int nnz_p1, nnz_p2;
+    int nnz_p1 = 0, nnz_p2 = 0;
     for(int i = 0; i < p1_size; ++i)
     {
         if(std::fabs(p1[i]) >= eps)
@@ -68,7 +68,7 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
             /** truncate higher orders if neccessary */
             if( (i+j) == p1_size )
                 break;
-            product[i+j] = p1[j] * p2[i];
+            product[i+j] += p1[j] * p2[i];
         }
     }
 
-- 
2.43.0


From 3bc638141c488f7197831ae7eabb31fe555794da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:32 +0000
Subject: [PATCH 13/34] fix: equidistant cubic spline clips the segment index
 to the last segment

---
 src/polynomials/splines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6f193c6..d582938 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -80,7 +80,7 @@ public:
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols())); // clip idx stay within the spline bounds
+        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols() - 1)); // clip idx stay within the spline bounds
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From 768d98c9fa39209e94bcff4a2faabca214150bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 14/34] fix: NLP without a cost function has zero cost and
 derivatives; five-argument lagrangian_gradient compiles

---
 src/solvers/nlproblem.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index ce877e7..c6e0634 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -174,7 +174,7 @@ public:
     // default empty implementation
     template<typename T>
     EIGEN_STRONG_INLINE void cost_impl(const Eigen::Ref<const variable_t<T>>& x,
-                                       const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept {}
+                                       const Eigen::Ref<const static_parameter_t>& p, T& cost) const noexcept { cost = T(scalar_t(0)); }
 
     /** @brief
      *
@@ -519,7 +519,7 @@ void ProblemBase<Derived, MatrixFormat>::cost_gradient_hessian_impl(const Eigen:
     _cost = scalar_t(0);
     _cost_gradient = nlp_variable_t::Zero(VAR_SIZE);
     hessian  = nlp_hessian_t::Zero(VAR_SIZE, VAR_SIZE);
-    m_ad2_cost.value().value() = 0;
+    m_ad2_cost = ad2_scalar_t(scalar_t(0));
 
     // set variable values
     for(int i = 0; i < VAR_SIZE; i++)
@@ -560,7 +560,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_impl(const Eigen::R
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
     this->cost_gradient(var, p, _lagrangian, _lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
-- 
2.43.0


From f7774c1dddf64b963c528d2095524fa13fd1cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 15/34] fix: SQP cost() is the cost of the accepted iterate
 when the line-search budget is exhausted

---
 src/solvers/sqp_base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solvers/sqp_base.hpp b/src/solvers/sqp_base.hpp
index d1b5ff9..8c4756a 100644
--- a/src/solvers/sqp_base.hpp
+++ b/src/solvers/sqp_base.hpp
@@ -415,6 +415,11 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::step_size_selection_impl(co
             alpha = tau * alpha;
     }
 
+    /** budget exhausted: alpha was not evaluated yet, log the cost of the accepted point */
+    x_step.noalias() = alpha * p;
+    x_step += this->m_x;
+    this->problem.cost(x_step, this->m_p, m_cost);
+
     return alpha;
 }
 
-- 
2.43.0


From 9e4f70ed647174624ffa197bd6cc7d5a771c306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 16/34] hook: integer constructor of AutoDiffScalar under
 POLYMPC_VERIFICATION

---
 src/autodiff/AutoDiffScalar.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 641fdbc..a516e1d 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -103,6 +103,11 @@ class AutoDiffScalar
         m_derivatives.setZero();
     }
 
+#ifdef POLYMPC_VERIFICATION
+    /** verification builds use a scalar of class type, which an integer literal does not reach in one implicit conversion */
+    AutoDiffScalar(int value) : AutoDiffScalar(Real(value)) {}
+#endif
+
     /** Constructs an active scalar from its \a value and derivatives \a der */
     AutoDiffScalar(const Scalar& value, const DerType& der)
       : m_value(value), m_derivatives(der)
-- 
2.43.0


From 61fa2625f704aedf489a55c6eba3ed8821e07d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 17/34] fix: sparse in-place update of inequality Jacobian used
 NX instead of NG rows

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3e33c58..e8ec173 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1099,7 +1099,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
 {
     eigen_assert(jacobian.outerSize() == VAR_SIZE);
     /** compute jacoabian of dynamics */
-    Eigen::Matrix<scalar_t, NX, NX + NU + NP> jac;
+    Eigen::Matrix<scalar_t, NG, NX + NU + NP> jac;
 
     /** initialize AD veriables */
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-- 
2.43.0


From e462c990a3019beee837a8e4cac59334b23c84f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 18/34] fix: cost_gradient left cost derivatives uninitialised
 for problems without a stage cost

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index e8ec173..c2398c5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1217,7 +1217,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient(const Eigen:
     int t = 0;
     /** not generic for other collocation schemes : redo*/
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-    m_ad_cost.value() = 0;
+    m_ad_cost = ad_scalar_t(0);
     for (int s = 0; s < NUM_SEGMENTS; s++)
     {
         int shift = s * POLY_ORDER;
-- 
2.43.0


From c6c083ab2a62bf6ba0fa9060cb0be4b93605ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 19/34] fix: terminal cost reads NU, not NX, controls from the
 decision vector

---
 src/control/continuous_ocp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index c2398c5..845fd74 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1332,7 +1332,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1592,7 +1592,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1849,7 +1849,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
-- 
2.43.0


From 1c2a7ee87ca07f4473329731e859187a9141cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 20/34] fix: terminal cost parameter Hessian belongs in the
 bottom right corner

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 845fd74..dc44c3c 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1351,7 +1351,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     /** diagonal  */
     cost_hessian.template topLeftCorner<NX, NX>() += hes.template topLeftCorner<NX, NX>();
     cost_hessian.template block<NU, NU>(VARX_SIZE, VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-    cost_hessian.template bottomLeftCorner<NP, NP>() += hes.template bottomLeftCorner<NP, NP>();
+    cost_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
 
     /** dxdu */
     cost_hessian.template block<NX, NU>(0, VARX_SIZE) += hes.template block<NX, NU>(0, NX);
-- 
2.43.0


From 726b11bd0813ce1da3aaab87c557077c887eeaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 21/34] fix: sparse cost Hessian control-parameter entries of
 later segments during the first fill

---
 src/control/continuous_ocp.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index dc44c3c..fa1aed7 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1481,11 +1481,9 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 /** dudp */
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
-                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU + NU,
-                                   hes.col(j + NX + NU).data() + NX,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   std::plus<scalar_t>());
+                    // state rows of the later nodes are not inserted yet: the offset within the column is not known
+                    for(Eigen::Index r = 0; r < NU; ++r)
+                        cost_hessian.coeffRef((k + shift) * NU + VARX_SIZE + r, VARX_SIZE + VARU_SIZE + j) += hes(r + NX, j + NX + NU);
                 }
                 /** dp^2 */
                 /**
-- 
2.43.0


From 3a47d2073340c8d13c8c9b6dff0b0df4e92ffc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 22/34] fix: sparse cost Hessian first fill read the wrong
 columns for parameter cross terms

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index fa1aed7..723a8bd 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1535,7 +1535,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
                     for(Eigen::Index r = 0; r < NX; ++r)
-                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NP);
+                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NU);
                 }
 
                 /** du^2 */
@@ -1570,7 +1570,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NU; ++j)
                 {
                     for(Eigen::Index r = 0; r < NP; ++r)
-                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NU);
+                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NX);
                 }
 
             }
-- 
2.43.0


From 56ab0275e539840ea78210e7e6ab67140555c979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 23/34] fix: five- and six-argument Lagrangian derivatives did
 not compile

---
 src/control/continuous_ocp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 723a8bd..fb09e34 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1942,8 +1942,10 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const
     nlp_ineq_constraints_t g;
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
+    jac_c.resize(NUM_EQ, VAR_SIZE);
+    jac_g.resize(NUM_INEQ, VAR_SIZE);
     this->cost_gradient(var, p, _lagrangian, lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2025,8 +2027,10 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
     nlp_ineq_constraints_t g;
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
+    jac_c.resize(NUM_EQ, VAR_SIZE);
+    jac_g.resize(NUM_INEQ, VAR_SIZE);
     this->cost_gradient_hessian(var, p, _lagrangian, lag_gradient, lag_hessian);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2066,7 +2070,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessia
         }
 
         // constraints contribution
-        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_g);
+        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
             scalar_t coeff = lam(n + k * NG + NUM_EQ);
-- 
2.43.0


From 5fda96784d0bd3e928ffa500873529ca5ed6e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 24/34] fix: sparse block BFGS update divided by zero for a
 zero step

---
 src/control/continuous_ocp.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index fb09e34..db59e35 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2314,8 +2314,13 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
 
     const nlp_variable_t v = hessian * s;
     const scalar_t scaling = s.dot(v);
-    const scalar_t scaling_inv = scalar_t(1) / scaling;
     const scalar_t sy  = s.dot(y);
+
+    // no curvature information (e.g. zero step): keep the Hessian as BFGS_update() does
+    if((sy >= 0.2 * scaling ? sy : 0.2 * scaling) < std::numeric_limits<scalar_t>::epsilon())
+        return;
+
+    const scalar_t scaling_inv = scalar_t(1) / scaling;
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
-- 
2.43.0


From 4b0a02463becf4b862681a20d1ac7db2df1d136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 25/34] fix: trajectory interpolation of the MPC wrapper
 ignored the start of the horizon

---
 src/control/mpc_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/mpc_wrapper.hpp b/src/control/mpc_wrapper.hpp
index 8d05fa9..21765d1 100644
--- a/src/control/mpc_wrapper.hpp
+++ b/src/control/mpc_wrapper.hpp
@@ -245,7 +245,7 @@ public:
     inline state_t solution_x_at(const scalar_t& t) const noexcept
     {
         auto x_reshaped = solution_x_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        Eigen::Index idx = (Eigen::Index)std::floor( (t - ocp().t_start) / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
         state_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, x_reshaped.template block<nx,
@@ -271,7 +271,7 @@ public:
     inline control_t solution_u_at(const scalar_t& t) const noexcept
     {
         auto u_reshaped = solution_u_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
+        Eigen::Index idx = (Eigen::Index)std::floor( (t - ocp().t_start) / sgm_length);
         idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
 
         control_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, u_reshaped.template block<nu,
-- 
2.43.0


From 69089162d9b7feee87b65779c2756a1fa158b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 26/34] fix: collocation classes constructed from a functor
 ignored it and stayed uninitialised

---
 src/control/cost_collocation.hpp       | 7 ++++++-
 src/control/ode_collocation.hpp        | 6 +++++-
 src/control/sparse_ode_collocation.hpp | 7 ++++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 207802d..8e78866 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -109,7 +109,12 @@ public:
 
 
     cost_collocation();
-    cost_collocation(const LagrangeTerm &L, const MayerTerm &M){}
+    cost_collocation(const LagrangeTerm &L, const MayerTerm &M) : m_Lagrange(L), m_Mayer(M)
+    {
+        m_weights = m_basis_f.CCQWeights();
+        initialize_derivatives();
+        initialize_second_derivatives();
+    }
     ~cost_collocation(){}
 
 private:
diff --git a/src/control/ode_collocation.hpp b/src/control/ode_collocation.hpp
index f6a2582..06a5eaa 100644
--- a/src/control/ode_collocation.hpp
+++ b/src/control/ode_collocation.hpp
@@ -44,7 +44,11 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    ode_collocation(const Dynamics &_f){}
+    ode_collocation(const Dynamics &_f) : m_f(_f)
+    {
+        compute_diff_matrix();
+        initialize_derivatives();
+    }
     ode_collocation();
     ~ode_collocation(){}
 
diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 9ac6c23..e0e6c6c 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -47,7 +47,12 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::SparseMatrix<Scalar>; //Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    sparse_ode_collocation(const Dynamics &_f){}
+    sparse_ode_collocation(const Dynamics &_f) : m_f(_f)
+    {
+        compute_diff_matrix();
+        compute_inner_nnz();
+        initialize_derivatives();
+    }
     sparse_ode_collocation();
     ~sparse_ode_collocation(){}
 
-- 
2.43.0


From aa6b4dbaa9a66a5707c4c0e23733f35615b9bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 27/34] fix: sparse collocation counted Jacobian entries
 wrongly when the differentiation matrix has a zero diagonal, so it refilled
 an existing matrix

---
 src/control/sparse_ode_collocation.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index e0e6c6c..869dce6 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -179,10 +179,16 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::initialize_deriv
 template <typename Dynamics, typename Polynomial, int NumSegments>
 void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_inner_nnz()
 {
-    int *inner_nnz = m_DiffMat.innerNonZeroPtr();
-    Eigen::Map<Eigen::Matrix<int, VARX_SIZE, 1>> mi(inner_nnz);
-    m_jac_inner_nnz. template head<VARX_SIZE>() = mi;
-    m_jac_inner_nnz. template head<VARX_SIZE>() += Eigen::Matrix<int, VARX_SIZE, 1>::Constant(NX-1);
+    for(int k = 0; k < VARX_SIZE; ++k)
+    {
+        /** union of the column of the differentiation matrix and the diagonal block of the dynamics */
+        int nnz = NX;
+        for(typename comp_diff_mat_t::InnerIterator it(m_DiffMat, k); it; ++it)
+            if(it.row() / NX != k / NX)
+                ++nnz;
+
+        m_jac_inner_nnz(k) = nnz;
+    }
     m_jac_inner_nnz. template segment<VARU_SIZE>(VARX_SIZE) = Eigen::Matrix<int, VARU_SIZE, 1>::Constant(NX);
 }
 
-- 
2.43.0


From 16efd45c2554c7eb5daa365cca73f8539f2fc801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 28/34] fix: pattern-reusing KKT update misplaced entries of
 Hessian columns without a diagonal entry

---
 src/solvers/admm.hpp     | 17 +++++++++++++++--
 src/solvers/box_admm.hpp | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index e966758..d640bdb 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -325,8 +325,21 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            const auto H_rows = H.innerIndexPtr() + H.outerIndexPtr()[k];
+            const auto H_vals = H.valuePtr() + H.outerIndexPtr()[k];
+            const auto H_nnz  = H.innerNonZeroPtr()[k];
+            auto K_vals = m_K.valuePtr() + m_K.outerIndexPtr()[k];
+
+            // the diagonal entry always exists in the KKT matrix, but not necessarily in H
+            const auto n_upper = std::lower_bound(H_rows, H_rows + H_nnz, k) - H_rows;
+            const bool has_diagonal = n_upper < H_nnz && H_rows[n_upper] == k;
+
+            K_vals = std::copy_n(H_vals, n_upper, K_vals);
+            if (!has_diagonal)
+                *K_vals++ = scalar_t(0);
+            K_vals = std::copy_n(H_vals + n_upper, H_nnz - n_upper, K_vals);
+
+            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], K_vals);
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index cb6530e..0c81dfd 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -294,8 +294,21 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            const auto H_rows = H.innerIndexPtr() + H.outerIndexPtr()[k];
+            const auto H_vals = H.valuePtr() + H.outerIndexPtr()[k];
+            const auto H_nnz  = H.innerNonZeroPtr()[k];
+            auto K_vals = m_K.valuePtr() + m_K.outerIndexPtr()[k];
+
+            // the diagonal entry always exists in the KKT matrix, but not necessarily in H
+            const auto n_upper = std::lower_bound(H_rows, H_rows + H_nnz, k) - H_rows;
+            const bool has_diagonal = n_upper < H_nnz && H_rows[n_upper] == k;
+
+            K_vals = std::copy_n(H_vals, n_upper, K_vals);
+            if (!has_diagonal)
+                *K_vals++ = scalar_t(0);
+            K_vals = std::copy_n(H_vals + n_upper, H_nnz - n_upper, K_vals);
+
+            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], K_vals);
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-- 
2.43.0


From edc3b72774a8bc9df6f16ef0257be57854ee0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 29/34] hook: restrict the verification-only constructor to int
 arguments

---
 src/autodiff/AutoDiffScalar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index a516e1d..0bd2bd7 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -105,7 +105,8 @@ class AutoDiffScalar
 
 #ifdef POLYMPC_VERIFICATION
     /** verification builds use a scalar of class type, which an integer literal does not reach in one implicit conversion */
-    AutoDiffScalar(int value) : AutoDiffScalar(Real(value)) {}
+    template<typename Integer, typename = typename std::enable_if<std::is_same<Integer, int>::value>::type>
+    AutoDiffScalar(Integer value) : AutoDiffScalar(Real(value)) {}
 #endif
 
     /** Constructs an active scalar from its \a value and derivatives \a der */
-- 
2.43.0


From af71525fe3a39a211d7780d4993cad5f2fbd01be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 30/34] fix: cubic spline arguments beyond 2^31 segments
 overflowed the segment index and were evaluated in the wrong end segment

---
 src/polynomials/splines.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index d582938..9775de2 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -59,28 +59,29 @@ public:
 
     // we need two different implementation for first and second derivatives
     template<typename DerType>
-    EIGEN_STRONG_INLINE typename std::enable_if<std::is_scalar<typename DerType::Scalar>::value, int>::type
+    EIGEN_STRONG_INLINE typename std::enable_if<std::is_scalar<typename DerType::Scalar>::value, typename DerType::Scalar>::type
     floor_(const Eigen::AutoDiffScalar<DerType> &x) const noexcept {return std::floor(x.value());}
 
     template<typename DerType>
-    EIGEN_STRONG_INLINE typename std::enable_if<!std::is_scalar<typename DerType::Scalar>::value, int>::type
+    EIGEN_STRONG_INLINE typename std::enable_if<!std::is_scalar<typename DerType::Scalar>::value, typename DerType::Scalar::Scalar>::type
     floor_(const Eigen::AutoDiffScalar<DerType> &x) const noexcept {return std::floor(x.value().value());}
 
     template<typename scalar_t>
-    EIGEN_STRONG_INLINE int floor_(const scalar_t &x) const noexcept {return std::floor(x);}
+    EIGEN_STRONG_INLINE scalar_t floor_(const scalar_t &x) const noexcept {return std::floor(x);}
 
     template<typename scalar_t>
     EIGEN_STRONG_INLINE scalar_t eval(const scalar_t &x) const noexcept
     {
         // compute the segment index
-        Eigen::Index idx = (Eigen::Index)floor_( x / static_cast<scalar_t>(m_length));
-
-// due to some weird Windows redefinitions
-#if defined _WIN32  || defined _WIN64
-        #undef min
-        #undef max
-#endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols() - 1)); // clip idx stay within the spline bounds
+        const Scalar segment = floor_( x / static_cast<scalar_t>(m_length));
+
+        // clip to stay within the spline bounds (before the conversion: the segment number may exceed the integer range)
+        const Eigen::Index last = m_coeffs.cols() - 1;
+        Eigen::Index idx = 0;
+        if (segment >= static_cast<Scalar>(last))
+            idx = last;
+        else if (segment > static_cast<Scalar>(0))
+            idx = (Eigen::Index)segment;
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From e4ac7c91c90f206d1bfa5c16e22e5d9387e7a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 31/34] fix: Lyapunov solver ignored the coupling of columns of
 complex eigenvalue pairs

---
 src/control/lqr.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 4596340..27a911d 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -39,13 +39,30 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
     Eigen::MatrixXd X = Eigen::MatrixXd::Zero(m, m);
     Eigen::MatrixXd E = Eigen::MatrixXd::Identity(m,m);
 
-    X.col(m-1).noalias() = (T + T(m-1,m-1) * E).partialPivLu().solve(Q1.col(m-1));
+    /** solve T * X + X * T' = Q1 from the last column to the first; the two columns
+     *  of a complex conjugate pair of eigenvalues are coupled */
     Eigen::VectorXd v;
-
-    for(Eigen::Index i = m-2; i >= 0; --i)
+    for(Eigen::Index i = m-1; i >= 0; --i)
     {
-        v.noalias() = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).transpose();
-        X.col(i) = (T + T(i,i) * E).partialPivLu().solve(v);
+        const Eigen::Index rest = m-(i+1);
+        v = Q1.col(i);
+        v.noalias() -= X.rightCols(rest) * T.block(i, i+1, 1, rest).transpose();
+
+        if((i > 0) && (T(i,i-1) != 0))
+        {
+            Eigen::MatrixXd P(2*m, 2*m);
+            P << T + T(i-1,i-1) * E, T(i-1,i) * E, T(i,i-1) * E, T + T(i,i) * E;
+            Eigen::VectorXd w(2*m);
+            w.tail(m) = v;
+            w.head(m) = Q1.col(i-1);
+            w.head(m).noalias() -= X.rightCols(rest) * T.block(i-1, i+1, 1, rest).transpose();
+            w = P.partialPivLu().solve(w).eval();
+            X.col(i-1) = w.head(m);
+            X.col(i)   = w.tail(m);
+            --i;
+        }
+        else
+            X.col(i) = (T + T(i,i) * E).partialPivLu().solve(v);
     }
 
     X.noalias() = (U * X) * U.transpose();
-- 
2.43.0


From 580f7dd08d47ade2ec5dcdfd7cc4d289909120a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 32/34] fix: LQR with a cross weight transposed the cross term
 of the dynamics and added it to the state weight

---
 src/control/lqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 27a911d..55adccc 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -229,9 +229,9 @@ void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eige
 
     /** formulate Ricatti equations */
     Eigen::MatrixXd invR = pinv(R);
-    Eigen::MatrixXd A = F - M * invR * (G).transpose();
+    Eigen::MatrixXd A = F - G * invR * M.transpose();
     Eigen::MatrixXd B = G * invR * (G).transpose();
-    Eigen::MatrixXd C = M * invR * M.transpose() + Q;
+    Eigen::MatrixXd C = Q - M * invR * M.transpose();
 
     //std::cout << "A: \n" << A << "\n";
     //std::cout << "B: \n" << B << "\n";
-- 
2.43.0


From 61b4db31d7ce660a1bdab997bdf633a6421de678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:02 +0000
Subject: [PATCH 33/34] fix: Riccati line search divided by zero when the
 direction leaves the quadratic term unchanged

---
 src/control/lqr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 55adccc..f7605b4 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -71,6 +71,10 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
 
 double line_search_care(const double &a, const double &b, const double &c) noexcept
 {
+    /** the residual is linear along the direction and vanishes at the full step */
+    if(c == 0)
+        return 1;
+
     Eigen::Matrix<double, 5, 1> poly;
     Eigen::Matrix<double, 4, 1> poly_derivative;
     poly_derivative << -2*a, 2*(a-2*b), 6*b, 4*c;
-- 
2.43.0


From d53fb93d14c61486958da40f857be3f2446ab855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:46 +0000
Subject: [PATCH 34/34] fix: rejected LQR weights assigned empty matrices to
 references of fixed size and the problem was solved nevertheless

---
 src/control/lqr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index f7605b4..3d0d00c 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -226,8 +226,9 @@ void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eige
         if( (values.array() < 0).any() )
         {
             std::cerr << "Weight matrices did not pass positivity check! \n";
-            S = Eigen::MatrixXd();
-            K = Eigen::MatrixXd();
+            S.setZero();
+            K.setZero();
+            return;
         }
     }
 
-- 
2.43.0

