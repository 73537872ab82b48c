From 1087a328c5400d59c6f3f4e716b2a4e9c1d51b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 01/46] fix: do not update blocks in place when a supernode
 starts with fill-in

BindDiagonalBlock decided that the diagonal block coincides with the
clique's submatrix from its size and increasing labels alone.  Labels of
fill-in variables are -1, so a block whose first variable is fill-in could
pass this test; the submatrix was then written to rows and columns of the
wrong variable.
---
 conex/supernodal_assembler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/supernodal_assembler.cc b/conex/supernodal_assembler.cc
index 464a60c..d460c03 100644
--- a/conex/supernodal_assembler.cc
+++ b/conex/supernodal_assembler.cc
@@ -76,7 +76,8 @@ void T::BindDiagonalBlock(const DiagonalBlock* data) {
   diag.push_back(*data);
   int m = NumberOfVariables();
 
-  if (m == data->num_vars) {
+  // Fill-in variables have negative labels and are not part of the submatrix.
+  if (m == data->num_vars && (m == 0 || *data->var_data >= 0)) {
     direct_update = true;
     for (int i = 1; i < data->num_vars; i++) {
       if (*(data->var_data + i) <= *(data->var_data + i - 1)) {
-- 
2.43.0


From 3bd486cccd20aeeeca9c60ba1907c9a0bd86849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 02/46] fix: estimate eigenvalues of small LMIs with more than
 one Lanczos step

With n / 2 iterations the estimate for matrices of order two and three is a
single Rayleigh quotient, which can miss the eigenvalue that makes a step
leave the cone: rarely, an infeasible point was returned as solved.
---
 conex/psd_constraint.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index 579070a..a61f6df 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -65,8 +65,8 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   // Finds eigenvalues of -Q(w/2) s
   int index = 0;
   WS.diagonal().maxCoeff(&index);
-  auto gw_eig =
-      ApproximateEigenvalues(WS, workspace.W, minus_s.col(index), n / 2, true);
+  auto gw_eig = ApproximateEigenvalues(WS, workspace.W, minus_s.col(index),
+                                       n / 2 + 1, true);
 
   // Get eigenvalues of e - Q(w/2) s.
   const double lambda_1 = std::fabs(opt.e_weight + gw_eig.minCoeff());
@@ -109,8 +109,8 @@ void GetWeightedSlackEigenvalues(PsdConstraint* o, const Ref& y,
   // VectorXd r = minus_s.col(0);
   int index = 0;
   WS.diagonal().maxCoeff(&index);
-  auto gw_eig =
-      ApproximateEigenvalues(WS, workspace->W, minus_s.col(index), n / 2, true);
+  auto gw_eig = ApproximateEigenvalues(WS, workspace->W, minus_s.col(index),
+                                       n / 2 + 1, true);
   // SWS
   const double lamda_max = -gw_eig.minCoeff();
   const double lamda_min = -gw_eig.maxCoeff();
-- 
2.43.0


From 6cbe14ec69bf3e4976a6a52d6c0aa531aee565eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:04 +0000
Subject: [PATCH 03/46] fix: measure the KKT error relative to mu * rank

s_dot_x = mu (rank - |d|^2) is zero when the line search stops at |d_i| = 1
for every i (always possible for a rank one program).  The ratio then exceeded
any tolerance, triggered final centering early and ended in a "solved" far
from the central path or above the requested mu.
---
 conex/cone_program.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3f0626a..fdb4f0b 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -463,7 +463,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     if (!prog.contains_quadratic_costs_) {
       REPORT(by);
       REPORT(cx);
-      kkt_error = std::fabs(cx - by - s_dot_x) / s_dot_x;
+      // Relative to mu * rank, which (unlike s_dot_x) cannot vanish.
+      kkt_error = std::fabs(cx - by - s_dot_x) * (b_scaling * c_scaling) /
+                  (rankK / (newton_step_parameters.inv_sqrt_mu *
+                            newton_step_parameters.inv_sqrt_mu));
       REPORT(kkt_error);
     }
 
-- 
2.43.0


From dd779fdd9ae6dd01eef678e056714e8daefe921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 04/46] fix: detect Lanczos breakdown relative to the size of
 the eigenvalues

---
 conex/approximate_eigenvalues.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conex/approximate_eigenvalues.cc b/conex/approximate_eigenvalues.cc
index 517a927..30822b7 100644
--- a/conex/approximate_eigenvalues.cc
+++ b/conex/approximate_eigenvalues.cc
@@ -210,13 +210,16 @@ Eigen::VectorXd AsymmetricLanczos(const MatrixXd& WS, const MatrixXd& W,
   U.col(0) = WS * V.col(0);
   U.col(1) = WS.transpose() * V.col(1);
 
+  // The eigenvalues can have any magnitude, so breakdown is detected relative
+  // to that of the first iterate.
+  const double scaling = inner_product(U, U);
   alpha(0) = inner_product(V, U);
   U = U - alpha(0) * V;
 
   int cnt = 0;
   for (int j = 1; j < num_iter; j++) {
     beta(j - 1) = inner_product(U, U);
-    if (beta(j - 1) < 1e-6) {
+    if (beta(j - 1) <= 1e-6 * scaling) {
       break;
     } else {
       beta(j - 1) = std::sqrt(beta(j - 1));
-- 
2.43.0


From 6711e5598b47c2b1e9c1bb54b662f8d26eca4a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:54 +0000
Subject: [PATCH 05/46] fix: do not report an infeasible final iterate as
 solved

---
 conex/cone_program.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index fdb4f0b..924ee08 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -281,6 +281,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   double cx = 1;
   double by = -1;
   double kkt_error = 0;
+  double d_inf = std::numeric_limits<double>::infinity();
 
   StepOptions newton_step_parameters;
   newton_step_parameters.affine = 0;
@@ -437,7 +438,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     END_TIMER
 
     const double d_2 = std::sqrt(std::fabs(info.normsqrd));
-    const double d_inf = std::fabs(info.norminfd);
+    d_inf = std::fabs(info.norminfd);
     by = b.col(0).dot(y.col(0)) * 1.0 /
          (newton_step_parameters.inv_sqrt_mu * c_scaling);
     // inv_sqrt_mu * <c, x> = c' Q(w^{1/2}) (e + d)
@@ -527,6 +528,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     if (max_iters_reached) {
       prog.status_.solved = false;
       PRINTSTATUS("Terminating at maximum iteration limit.");
+    } else if (!(d_inf <= 1)) {
+      // The slack and its dual are in their cones only if d_inf <= 1.
+      prog.status_.solved = false;
+      PRINTSTATUS("Terminating with an infeasible point.");
     } else {
       PRINTSTATUS("Solved.");
     }
-- 
2.43.0


From d1120216d1c79dee80e7a562db31458e2b9776dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 06/46] fix: do not access the entries of an empty matrix in
 RLDLT

---
 conex/RLDLT.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index d945e9a..0ab3e8f 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -309,7 +309,12 @@ struct rldlt_inplace<Lower> {
     bool ret = true;
     const double regularization_value = 1e-9;
 
-    if (size <= 1) {
+    if (size == 0) {
+      sign = ZeroSign;
+      return true;
+    }
+
+    if (size == 1) {
       if (std::fabs(mat.coeff(0, 0)) < regularization_value) {
         if (mat.coeff(0, 0) < 0) {
           mat.coeffRef(0, 0) = -regularization_value;
@@ -318,9 +323,7 @@ struct rldlt_inplace<Lower> {
         }
       }
       transpositions.setIdentity();
-      if (size == 0)
-        sign = ZeroSign;
-      else if (numext::real(mat.coeff(0, 0)) > static_cast<RealScalar>(0))
+      if (numext::real(mat.coeff(0, 0)) > static_cast<RealScalar>(0))
         sign = PositiveSemiDef;
       else if (numext::real(mat.coeff(0, 0)) < static_cast<RealScalar>(0))
         sign = NegativeSemiDef;
-- 
2.43.0


From eeadca575026975b91b6ebce2bbcad724c983d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 07/46] fix: report the regularisation of a 1x1 matrix in RLDLT

---
 conex/RLDLT.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index 0ab3e8f..06ff4c3 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -321,6 +321,7 @@ struct rldlt_inplace<Lower> {
         } else {
           mat.coeffRef(0, 0) = regularization_value;
         }
+        ret = false;
       }
       transpositions.setIdentity();
       if (numext::real(mat.coeff(0, 0)) > static_cast<RealScalar>(0))
@@ -329,7 +330,7 @@ struct rldlt_inplace<Lower> {
         sign = NegativeSemiDef;
       else
         sign = ZeroSign;
-      return true;
+      return ret;
     }
 
     for (Index k = 0; k < size; ++k) {
-- 
2.43.0


From c8b464224636d7ad19c748d8985e7dface9004e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 08/46] fix: reject negative variable indices

---
 conex/constraint_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 851d694..81dcfab 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -12,7 +12,7 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   Eigen::VectorXd y(N);
   y.setZero();
   for (auto& xi : x) {
-    if (xi >= N) {
+    if (xi < 0 || xi >= N) {
       return false;
     }
     y(xi)++;
-- 
2.43.0


From 2dfc20a5e8e9d295e22ee642abe08ca990117886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 09/46] fix: reject negative indices when updating constraint
 entries

---
 conex/hermitian_psd.cc  | 3 +++
 conex/quadratic_cost.cc | 1 +
 2 files changed, 4 insertions(+)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8c09c88..1784c97 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -251,6 +251,8 @@ bool UpdateLinearOperator(HermitianPsdConstraint<H>* o, double val, int var,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(var >= 0 && r >= 0 && c >= 0 && dim >= 0,
+               "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
@@ -288,6 +290,7 @@ bool UpdateAffineTerm(HermitianPsdConstraint<H>* o, double val, int r, int c,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND(r >= 0 && c >= 0 && dim >= 0, "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 278f37c..a30ed42 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -34,6 +34,7 @@ class QuadraticFunction {
                                int dim) {
     CONEX_DEMAND(dim == 0, "Quadratic cost must be real valued matrix.");
     CONEX_DEMAND(r < o->A_.rows() && c < o->A_.cols(), "Index out of bounds");
+    CONEX_DEMAND(r >= 0 && c >= 0, "Indices cannot be negative.");
     o->A_(r, c) = val;
     return CONEX_SUCCESS;
   }
-- 
2.43.0


From 269121424dfc05e14c7442a8590c317ca7b97461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 10/46] fix: reject out of bounds variables when updating a
 linear operator

---
 conex/cone_program.h | 4 ++++
 interfaces/conex.cc  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 26174fb..c1981e8 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -150,6 +150,10 @@ class Program {
     int cnt = 0;
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
+        const int num_vars = kkt_system_manager_.cliques.at(i).size() -
+                             kkt_system_manager_.dual_vars.at(i).size();
+        CONEX_DEMAND(variable < num_vars || GetNumberOfVariables() == 0,
+                     "Variable index out of bounds.");
         return UpdateLinearOperator(&ci.constraint, value, variable, row, col,
                                     hyper_complex_dim);
       }
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6ce1495..8537ff5 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -402,6 +402,8 @@ CONEX_STATUS CONEX_SetNumberOfVariables(void* p, int number_of_variables) {
   SAFER_CAST_TO_Program(p, prg);
   CONEX_DEMAND(prg->GetNumberOfVariables() == 0,
                "Number of variables already set.");
+  CONEX_DEMAND(prg->NumberOfConstraints() == 0,
+               "Number of variables must be set before adding constraints.");
   prg->SetNumberOfVariables(number_of_variables);
   return CONEX_SUCCESS;
 }
-- 
2.43.0


From d451d585e77ea8507c8f4a6d05b4567da2949efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 11/46] fix: allow constraints with unset entries in the C
 interface

---
 conex/soc_constraint.h |  3 ++-
 interfaces/conex.cc    | 23 ++++++++++++++++++-----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index c212c4e..3a9a872 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -11,7 +11,8 @@ class SOCConstraint {
   SOCConstraint(const T& constraint_matrix, const T& constraint_affine)
       : workspace_(constraint_matrix.rows() - 1),
         constraint_matrix_(constraint_matrix),
-        constraint_affine_(constraint_affine) {
+        constraint_affine_(constraint_affine),
+        n_(constraint_matrix.rows() - 1) {
     assert(constraint_matrix_.rows() == constraint_affine_.rows());
   }
 
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 8537ff5..5c57739 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -62,6 +62,15 @@ void NonZeroSubMat(const Eigen::MatrixXd& M, std::vector<int>* vars,
     row++;
   }
 }
+
+// Makes an LMI whose matrices have no nonzero entries.
+template <typename T>
+HermitianPsdConstraint<T> MakeZeroLMI(int order, int num_vars) {
+  const auto zero = T::Zero(order, order);
+  return HermitianPsdConstraint<T>(
+      order, std::vector<typename T::Matrix>(num_vars, zero), zero);
+}
+
 SolverConfiguration APIConvertSolverConfiguration(
     const CONEX_SolverConfiguration* config) {
   SolverConfiguration c;
@@ -296,20 +305,21 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
 
+  const int num_vars = prg->GetNumberOfVariables();
   switch (hyper_complex_dim) {
     case 1:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Real>(order));
+      prg->AddConstraint(MakeZeroLMI<conex::Real>(order, num_vars));
       break;
     case 2:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Complex>(order));
+      prg->AddConstraint(MakeZeroLMI<conex::Complex>(order, num_vars));
       break;
     case 4:
-      prg->AddConstraint(HermitianPsdConstraint<conex::Quaternions>(order));
+      prg->AddConstraint(MakeZeroLMI<conex::Quaternions>(order, num_vars));
       break;
     case 8:
       CONEX_DEMAND(order <= 3,
                    "Order of octonion algebra cannot be greater than 3.");
-      prg->AddConstraint(HermitianPsdConstraint<conex::Octonions>(order));
+      prg->AddConstraint(MakeZeroLMI<conex::Octonions>(order, num_vars));
   }
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
@@ -391,7 +401,10 @@ CONEX_STATUS CONEX_NewLorentzConeConstraint(void* p, int order,
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
 
-  prg->AddConstraint(conex::SOCConstraint(order));
+  const int n = prg->GetNumberOfVariables();
+  const DenseMatrix A = DenseMatrix::Zero(order + 1, n);
+  const DenseMatrix c = DenseMatrix::Zero(order + 1, 1);
+  prg->AddConstraint(conex::SOCConstraint(A, c));
   *constraint_id = prg->NumberOfConstraints() - 1;
   return CONEX_SUCCESS;
 }
-- 
2.43.0


From f4bbb15fce2284bd258ca51f15f01bfbfa633e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 12/46] fix: reject linear inequalities without rows

---
 interfaces/conex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 5c57739..535e324 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -327,6 +327,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 
 CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
                                        int* constraint_id) {
+  CONEX_DEMAND(num_rows >= 1, "Number of rows must be > 0.");
   CONEX_DEMAND(constraint_id, "Received output null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(program, prg);
-- 
2.43.0


From 828405982bd6a01764f8c8c9bd51211c23a6c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 13/46] fix: do not dereference missing iteration statistics

---
 interfaces/conex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 535e324..67a64d6 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -274,7 +274,7 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
 
   auto& program = *reinterpret_cast<Program*>(prog);
 
-  if (!program.stats->IsInitialized()) {
+  if (!program.stats || !program.stats->IsInitialized()) {
     std::cerr << "No statistics available.";
     return;
   }
-- 
2.43.0


From 01deca3787accc279152e403464e8a54aba75ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 14/46] fix: set all options in CONEX_SetDefaultOptions

---
 interfaces/conex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 67a64d6..be7e0bc 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -263,6 +263,8 @@ void CONEX_SetDefaultOptions(CONEX_SolverConfiguration* c) {
   c->infeasibility_threshold = config.infeasibility_threshold;
   c->kkt_error_tolerance = config.kkt_error_tolerance;
   c->enable_rescaling = config.enable_rescaling;
+  c->kkt_solver = config.kkt_solver;
+  c->iterative_refinement_iterations = config.iterative_refinement_iterations;
 }
 
 void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
-- 
2.43.0


From 157103c73ca0b6004722d76f537535d8964a617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 15/46] fix: do not report success when the solver terminates
 with an error

---
 conex/cone_program.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 924ee08..be42922 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -234,18 +234,21 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  CONEX_DEMAND(prog.contains_quadratic_costs_ == false ||
-                   (config.enable_line_search && !config.enable_rescaling),
-               "Must enable line search and disable rescaling for problems "
-               "with quadratic costs.");
+  prog.status_.solved = 0;
+  prog.status_.primal_infeasible = 0;
+  prog.status_.dual_infeasible = 0;
+
+  if (prog.contains_quadratic_costs_ &&
+      (!config.enable_line_search || config.enable_rescaling)) {
+    std::cerr << "Must enable line search and disable rescaling for problems "
+                 "with quadratic costs.\n";
+    return prog.status_.solved;
+  }
 
   VectorXd bin = -prog.linear_cost_;
 
   auto& constraints = prog.constraints_;
   auto& solver = prog.solver;
-  prog.status_.solved = 0;
-  prog.status_.primal_infeasible = 0;
-  prog.status_.dual_infeasible = 0;
   bool max_iters_reached = true;
 
 #if CONEX_VERBOSE
@@ -385,8 +388,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       }
 
       if (temp < 0) {
-        CONEX_DEMAND(!prog.contains_quadratic_costs_,
-                     "Solver terminating with error: line-search failed.");
+        if (prog.contains_quadratic_costs_) {
+          std::cerr << "Solver terminating with error: line-search failed.\n";
+          return prog.status_.solved;
+        }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
                                        prog.sys.AQc * c_scaling, c_scaling,
                                        b * b_scaling, config, rankK, &y);
-- 
2.43.0


From 014a9b386d45212b4cd60792b0a7e702f044e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 16/46] fix: report failure when the cost vector has the wrong
 dimension

---
 conex/cone_program.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index be42922..dbf8b4c 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -224,8 +224,10 @@ void ApplyLimits(double* x, double lb, double ub) {
 }
 
 bool Program::AddLinearCost(const VectorXd& b) {
-  CONEX_DEMAND(GetNumberOfVariables() == b.rows(),
-               "Cost vector dimension does not equal number of variables");
+  if (GetNumberOfVariables() != b.rows()) {
+    std::cerr << "Cost vector dimension does not equal number of variables.\n";
+    return false;
+  }
   linear_cost_ += b;
   return true;
 }
@@ -560,7 +562,12 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
 bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
   prog.ClearLinearCosts();
-  prog.AddLinearCost(-b);
+  if (!prog.AddLinearCost(-b)) {
+    prog.status_.solved = 0;
+    prog.status_.primal_infeasible = 0;
+    prog.status_.dual_infeasible = 0;
+    return prog.status_.solved;
+  }
   return Solve(prog, config, primal_variable);
 }
 
-- 
2.43.0


From 3663c0024b1cfd3b687a0b9ba1af088f64deb99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 17/46] fix: report failure instead of throwing if a variable
 is in no constraint

---
 conex/cone_program.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index dbf8b4c..a6a9dcc 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -21,6 +21,23 @@ double CalcMinMu(double lambda_max, double, WeightedSlackEigenvalues* p) {
   return inv_sqrt_mu;
 }
 
+bool EachVariableIsConstrained(Program& prog) {
+  std::vector<bool> is_constrained(prog.GetNumberOfVariables());
+  for (const auto& clique : prog.kkt_system_manager_.cliques) {
+    for (int i : clique) {
+      if (i < prog.GetNumberOfVariables()) {
+        is_constrained.at(i) = true;
+      }
+    }
+  }
+  for (bool constrained : is_constrained) {
+    if (!constrained) {
+      return false;
+    }
+  }
+  return is_constrained.size() > 0;
+}
+
 template <typename T>
 void SetIdentity(std::vector<T*>* c) {
   for (auto& ci : *c) {
@@ -275,6 +292,12 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     return prog.status_.solved;
   }
 
+  if (!EachVariableIsConstrained(prog)) {
+    // The Newton system is singular.
+    PRINTSTATUS("There is a variable that is not in any constraint.");
+    return prog.status_.solved;
+  }
+
   Initialize(prog, config);
   std::cout << "\n";
 
-- 
2.43.0


From 132bf4139e0c350ace7e60b92de503271fff4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 18/46] fix: reject invalid quadratic costs and ignore zero
 ones

---
 conex/cone_program.cc | 9 +++++++--
 interfaces/conex.cc   | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index a6a9dcc..2ce8894 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -596,9 +596,14 @@ bool Solve(const DenseMatrix& b, Program& prog,
 
 bool Program::AddQuadraticCost(const DenseMatrix& Q,
                                const std::vector<int>& vars) {
-  contains_quadratic_costs_ = true;
+  CONEX_DEMAND(Q.rows() == static_cast<int>(vars.size()) && Q.cols() == Q.rows(),
+               "Order of matrix must equal number of variables.");
+  const int num_constraints = NumberOfConstraints();
   conex::AddQuadraticCost(this, Q, vars);
-  bool failure = false;
+  bool failure = NumberOfConstraints() == num_constraints;
+  if (!failure) {
+    contains_quadratic_costs_ = true;
+  }
   return failure;
 }
 
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index be7e0bc..c6fb4c9 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -356,12 +356,16 @@ CONEX_STATUS CONEX_NewQuadraticCost(void* p, int* constraint_id) {
 CONEX_STATUS CONEX_AddQuadraticCost(void* p, const double* A, int Ar, int Ac) {
   Program* prg;
   SAFER_CAST_TO_Program(p, prg);
-  int n = prg->GetNumberOfVariables();
+  CONEX_DEMAND(Ar == prg->GetNumberOfVariables() && Ac == Ar,
+               "Order of matrix must equal number of variables.");
   Eigen::MatrixXd Q;
   std::vector<int> vars;
 
   Eigen::Map<const DenseMatrix> input(A, Ar, Ac);
   NonZeroSubMat(input, &vars, &Q);
+  if (vars.empty()) {
+    return CONEX_SUCCESS;
+  }
   bool status = prg->AddQuadraticCost(Q, vars);
   return status;
 }
-- 
2.43.0


From c687fbc29f2da71b1054bf754a520c762e17c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 19/46] fix: do not report the iteration count of a previous
 solve

---
 conex/cone_program.cc | 9 +++------
 conex/cone_program.h  | 4 ++--
 conex/workspace.h     | 2 +-
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 2ce8894..c30b066 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -253,9 +253,7 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  prog.status_.solved = 0;
-  prog.status_.primal_infeasible = 0;
-  prog.status_.dual_infeasible = 0;
+  prog.status_ = ConexStatus();
 
   if (prog.contains_quadratic_costs_ &&
       (!config.enable_line_search || config.enable_rescaling)) {
@@ -328,6 +326,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   int initial_centering = 1;
   auto& c_scaling = prog.stats->c_scaling();
   auto& b_scaling = prog.stats->b_scaling();
+  prog.stats->num_iter = 0;
 
   solver->SetIterativeRefinementIterations(
       config.iterative_refinement_iterations);
@@ -586,9 +585,7 @@ bool Solve(const DenseMatrix& b, Program& prog,
            const SolverConfiguration& config, double* primal_variable) {
   prog.ClearLinearCosts();
   if (!prog.AddLinearCost(-b)) {
-    prog.status_.solved = 0;
-    prog.status_.primal_infeasible = 0;
-    prog.status_.dual_infeasible = 0;
+    prog.status_ = ConexStatus();
     return prog.status_.solved;
   }
   return Solve(prog, config, primal_variable);
diff --git a/conex/cone_program.h b/conex/cone_program.h
index c1981e8..92dc772 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -39,7 +39,7 @@ struct SolverConfiguration {
 
 struct ConexStatus {
   int solved = 0;
-  int num_iterations;
+  int num_iterations = 0;
   int primal_infeasible = 0;
   int dual_infeasible = 0;
 };
@@ -123,7 +123,7 @@ class Program {
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
         ci.constraint.get_dual_variable(xi->data());
-        if (!status_.primal_infeasible) {
+        if (!status_.primal_infeasible && stats->num_iter > 0) {
           xi->array() /=
               (stats->sqrt_inv_mu[stats->num_iter - 1] * stats->b_scaling());
         }
diff --git a/conex/workspace.h b/conex/workspace.h
index 3766a4c..4380c2d 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -111,7 +111,7 @@ struct WorkspaceStats {
     return *c_scaling_;
   }
 
-  int num_iter;
+  int num_iter = 0;
   int max_iter_;
   bool initialized = false;
 };
-- 
2.43.0


From 3e2b300f9345b2b1b0cca0342ed60b8445d64a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 20/46] fix: allow constraints to be added and updated after a
 solve

---
 conex/cone_program.cc |  4 +++-
 conex/cone_program.h  | 27 +++++++++++++++++++++++++--
 interfaces/conex.cc   |  2 +-
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index c30b066..68a2df5 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -103,10 +103,12 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.residual_only_ = true;
 
     prog.InitializeWorkspace();
-    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART ||
+        !prog.has_valid_iterate_) {
       prog.stats->b_scaling() = 1;
       prog.stats->c_scaling() = 1;
       SetIdentity(&prog.constraints_);
+      prog.has_valid_iterate_ = true;
     }
 
     START_TIMER(Sparsity Analysis);
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 92dc772..bb68d26 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -185,7 +185,9 @@ class Program {
     workspaces.emplace_back(&sys);
     auto size = SizeOf(workspaces);
     if (size > workspace_data_->size()) {
+      // The data does not store an iterate of this program.
       workspace_data_->resize(size);
+      has_valid_iterate_ = false;
     }
     Initialize(&workspaces, workspace_data_->data());
 
@@ -198,11 +200,16 @@ class Program {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
+        DiscardWorkspace();
       }
       return result;
     } else {
-      return kkt_system_manager_.AddEqualityConstraint(
+      bool result = kkt_system_manager_.AddEqualityConstraint(
           std::forward<EqualityConstraints>(d));
+      if (result == CONEX_SUCCESS) {
+        DiscardWorkspace();
+      }
+      return result;
     }
   }
 
@@ -213,11 +220,25 @@ class Program {
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
+        DiscardWorkspace();
       }
       return result;
     } else {
-      return kkt_system_manager_.AddEqualityConstraint(
+      bool result = kkt_system_manager_.AddEqualityConstraint(
           std::forward<EqualityConstraints>(d), variables);
+      if (result == CONEX_SUCCESS) {
+        DiscardWorkspace();
+      }
+      return result;
+    }
+  }
+
+  // The iterate of a program with fewer constraints cannot be reused.
+  void DiscardWorkspace() {
+    if (is_initialized) {
+      is_initialized = false;
+      workspaces.clear();
+      has_valid_iterate_ = false;
     }
   }
 
@@ -234,6 +255,8 @@ class Program {
   Eigen::VectorXd memory_;
   Eigen::VectorXd* workspace_data_;
   bool is_initialized = false;
+  // False if the workspace data cannot be used to warmstart.
+  bool has_valid_iterate_ = true;
   bool contains_quadratic_costs_ = false;
   ConexStatus status_;
 
diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index c6fb4c9..1969e91 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -21,7 +21,7 @@
   CONEX_DEMAND(x, "Program pointer is null.");                             \
   prog = static_cast<Program*>(x);                                         \
   if (prog->is_initialized) {                                              \
-    if (prog->NumberOfConstraints() + 2 !=                                 \
+    if (2 * prog->NumberOfConstraints() + 2 !=                             \
         static_cast<int>(prog->workspaces.size())) {                       \
       CONEX_DEMAND(false, "Program corrupted or invalid pointer.");        \
     }                                                                      \
-- 
2.43.0


From ef98f33e7bfa41465a73f576a4bbe2c11bd2e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 21/46] fix: allow more iterations in a warmstart than in the
 first solve

---
 conex/cone_program.cc | 12 +++++++++++-
 conex/cone_program.h  |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 68a2df5..4714e3e 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -93,8 +93,12 @@ void ConstructSchurComplementSystem(std::vector<T*>* c, bool initialize,
 }
 
 bool Initialize(Program& prog, const SolverConfiguration& config) {
-  if (!prog.is_initialized ||
+  const bool extend_stats =
+      prog.is_initialized && config.max_iterations > prog.stats->max_iter_;
+  if (!prog.is_initialized || extend_stats ||
       config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+    const double b_scaling = extend_stats ? prog.stats->b_scaling() : 1;
+    const double c_scaling = extend_stats ? prog.stats->c_scaling() : 1;
     prog.stats = std::make_unique<WorkspaceStats>(config.max_iterations);
     auto& solver = prog.solver;
     auto& kkt = prog.kkt;
@@ -103,6 +107,12 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.residual_only_ = true;
 
     prog.InitializeWorkspace();
+    if (extend_stats) {
+      // The iterate is stored in front of the statistics.
+      prog.has_valid_iterate_ = true;
+      prog.stats->b_scaling() = b_scaling;
+      prog.stats->c_scaling() = c_scaling;
+    }
     if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART ||
         !prog.has_valid_iterate_) {
       prog.stats->b_scaling() = 1;
diff --git a/conex/cone_program.h b/conex/cone_program.h
index bb68d26..2980b84 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -186,7 +186,7 @@ class Program {
     auto size = SizeOf(workspaces);
     if (size > workspace_data_->size()) {
       // The data does not store an iterate of this program.
-      workspace_data_->resize(size);
+      workspace_data_->conservativeResize(size);
       has_valid_iterate_ = false;
     }
     Initialize(&workspaces, workspace_data_->data());
-- 
2.43.0


From 757b453436a9ff3aab22f4f065bd2f7b639a1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 22/46] fix: consider every block of an LMI when estimating
 eigenvalues

The Lanczos iteration of dense LMIs started from a column of the slack. If
this column is zero or in an invariant subspace, e.g., when the matrices are
block-diagonal, the other eigenvalues were ignored (or nan), and problems were
reported as solved at infeasible or suboptimal points.
---
 conex/psd_constraint.cc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/conex/psd_constraint.cc b/conex/psd_constraint.cc
index a61f6df..940b681 100644
--- a/conex/psd_constraint.cc
+++ b/conex/psd_constraint.cc
@@ -9,6 +9,25 @@ namespace conex {
 
 using Eigen::VectorXd;
 
+namespace {
+
+// Heuristic initialization of ApproximateEigenvalues. A column of the slack can
+// be zero or in an invariant subspace, e.g., that of one block of a
+// block-diagonal matrix, in which case the other eigenvalues would be ignored.
+// Hence, we combine it with a vector that has no zeros.
+VectorXd InitialVector(const Ref& WS, const Ref& minus_s) {
+  int index = 0;
+  WS.diagonal().maxCoeff(&index);
+  VectorXd r = VectorXd::LinSpaced(minus_s.rows(), 1, 2).normalized();
+  const double norm = minus_s.col(index).norm();
+  if (norm > 0) {
+    r += minus_s.col(index) / (r.dot(minus_s.col(index)) < 0 ? -norm : norm);
+  }
+  return r;
+}
+
+}  // namespace
+
 // Applies update  W^{1/2}( exp ( e + W^{1/2} S W^{1/2} ) W^{1/2}
 void PsdConstraint::GeodesicUpdate(double scale, const StepOptions& opt,
                                    Ref* WS) {
@@ -63,10 +82,8 @@ void PrepareStep(PsdConstraint* o, const StepOptions& opt, const Ref& y,
   int n = Rank(*o);
   // Use heuristic initialization of ApproximateEigenvalues.
   // Finds eigenvalues of -Q(w/2) s
-  int index = 0;
-  WS.diagonal().maxCoeff(&index);
-  auto gw_eig = ApproximateEigenvalues(WS, workspace.W, minus_s.col(index),
-                                       n / 2 + 1, true);
+  auto gw_eig = ApproximateEigenvalues(
+      WS, workspace.W, InitialVector(WS, minus_s), n / 2 + 1, true);
 
   // Get eigenvalues of e - Q(w/2) s.
   const double lambda_1 = std::fabs(opt.e_weight + gw_eig.minCoeff());
@@ -107,10 +124,8 @@ void GetWeightedSlackEigenvalues(PsdConstraint* o, const Ref& y,
 #if 1
   int n = Rank(*o);
   // VectorXd r = minus_s.col(0);
-  int index = 0;
-  WS.diagonal().maxCoeff(&index);
-  auto gw_eig = ApproximateEigenvalues(WS, workspace->W, minus_s.col(index),
-                                       n / 2 + 1, true);
+  auto gw_eig = ApproximateEigenvalues(
+      WS, workspace->W, InitialVector(WS, minus_s), n / 2 + 1, true);
   // SWS
   const double lamda_max = -gw_eig.minCoeff();
   const double lamda_min = -gw_eig.maxCoeff();
-- 
2.43.0


From c0b0667afef1684e21fd7093850fc0eeec360619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 23/46] fix: do not modify second-order cone weights when
 preparing dual variables

---
 conex/quadratic_cone_constraint.cc | 4 ++++
 conex/soc_constraint.cc            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9260a56..e7ebef1 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -171,6 +171,10 @@ void GetWeightedSlackEigenvalues(QuadraticConstraintBase* o, const Ref& y,
 
 void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
                  const Ref& y, StepInfo* info) {
+  if (opt.affine) {
+    // Dual variables are not supported. Do not modify W.
+    return;
+  }
   Eigen::internal::set_is_malloc_allowed(false);
   // d =  e - Q(w^{1/2})(C-A^y)
   double& wsqrt_q0 = *o->workspace_.W0;
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index f073c21..20a73cb 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -250,6 +250,10 @@ bool TakeStep(SOCConstraint* o, const StepOptions& opt) {
 
 void PrepareStep(SOCConstraint* o, const StepOptions& opt, const Ref& y,
                  StepInfo* info) {
+  if (opt.affine) {
+    // Dual variables are not supported. Do not modify W.
+    return;
+  }
   Eigen::VectorXd minus_s_data(o->workspace_.n_ + 1);
   Ref minus_s(minus_s_data.data(), o->workspace_.n_ + 1, 1);
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
-- 
2.43.0


From 221c30293fe2e0595c4aef2a94988bf6357270f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 24/46] fix: scale the whole direction in damped steps of
 octonion constraints

---
 conex/hermitian_psd.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 1784c97..eb2f90f 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -117,13 +117,20 @@ template <>
 bool TakeStep(HermitianPsdConstraint<Octonions>* o, const StepOptions& opt) {
   using T = Octonions;
   auto& minus_s = o->minus_s;
-  double scale = opt.step_size;
-
-  if (scale != 1) {
-    minus_s = T::ScalarMultiply(minus_s, scale);
+  // GeodesicUpdateScaled approximates a full step, i.e., it evaluates
+  //
+  //   Q(w^{1/2}) (e + d/2)^2  for  d = e - Q(w^{1/2}) s
+  //
+  // We rescale its input and output to replace d with step_size * d.
+  const double scale = 1 + .5 * opt.step_size;
+  if (opt.step_size != 1) {
+    minus_s = T::ScalarMultiply(minus_s, 1.5 * opt.step_size / scale);
   }
 
   o->W = GeodesicUpdateScaled(o->W, minus_s);
+  if (opt.step_size != 1) {
+    o->W = T::ScalarMultiply(o->W, scale * scale / (1.5 * 1.5));
+  }
   return true;
 }
 
-- 
2.43.0


From d825ddeb1d03f896a6f6f0ce45a84c90e454ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 25/46] fix: do not trust an eigenvalue estimate below the norm
 of the step

For an unbounded problem the weight of an LMI becomes singular, the Lanczos
estimate of its step fails, and d_inf = 1 was accepted as convergence although
d_2 was 7e10: the problem was reported as solved.
---
 conex/cone_program.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 4714e3e..3c8620d 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -479,7 +479,9 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     END_TIMER
 
     const double d_2 = std::sqrt(std::fabs(info.normsqrd));
-    d_inf = std::fabs(info.norminfd);
+    // For matrix constraints norminfd is estimated and fails for singular
+    // weights, so use that d_2 <= sqrt(rank) d_inf.
+    d_inf = std::max(std::fabs(info.norminfd), d_2 / std::sqrt(rankK));
     by = b.col(0).dot(y.col(0)) * 1.0 /
          (newton_step_parameters.inv_sqrt_mu * c_scaling);
     // inv_sqrt_mu * <c, x> = c' Q(w^{1/2}) (e + d)
-- 
2.43.0


From 70a4ccc14be1df87b78bc630f830a9a7efa77e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:39 +0000
Subject: [PATCH 26/46] fix: reject variables that a linear constraint has no
 column for

---
 conex/linear_constraint.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index be56574..e753206 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -210,6 +210,8 @@ bool UpdateLinearOperator(LinearConstraint* o, double val, int var, int r,
   CONEX_DEMAND(c == 0, "Linear constraint is not matrix valued.");
   CONEX_DEMAND(r < o->constraint_matrix_.rows(), "Row index out of bounds.");
   CONEX_DEMAND((var >= 0) && (r >= 0), "Indices cannot be negative.");
+  CONEX_DEMAND(var < o->constraint_matrix_.cols(),
+               "Variable index out of bounds.");
 
   o->constraint_matrix_(r, var) = val;
   return CONEX_SUCCESS;
-- 
2.43.0


From 212f5b6654eb560e357764eaf4d71bd01b4f17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:39 +0000
Subject: [PATCH 27/46] fix: bound the step size and abort warm starts by the
 norm of the step

---
 conex/cone_program.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3c8620d..e91f6dd 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -462,14 +462,18 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     StepInfo info;
     START_TIMER(Update)
     PrepareStep(&prog.kkt_system_manager_, newton_step_parameters, y, &info);
-    newton_step_parameters.step_size = 2.0 / (info.norminfd * info.norminfd);
+    const double d_2 = std::sqrt(std::fabs(info.normsqrd));
+    // For matrix constraints norminfd is estimated and fails for singular
+    // weights, so use that d_2 <= sqrt(rank) d_inf.
+    d_inf = std::max(std::fabs(info.norminfd), d_2 / std::sqrt(rankK));
+    newton_step_parameters.step_size = 2.0 / (d_inf * d_inf);
     if (newton_step_parameters.step_size > 1) {
       newton_step_parameters.step_size = 1;
     }
 
     if (i == 0 &&
         (config.initialization_mode == CONEX_INITIALIZATION_MODE_WARMSTART) &&
-        info.norminfd >= config.warmstart_abort_threshold) {
+        d_inf >= config.warmstart_abort_threshold) {
       PRINTSTATUS("Aborting warmstart...");
       SetIdentity(&prog.constraints_);
       warmstart_aborted = true;
@@ -478,10 +482,6 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     }
     END_TIMER
 
-    const double d_2 = std::sqrt(std::fabs(info.normsqrd));
-    // For matrix constraints norminfd is estimated and fails for singular
-    // weights, so use that d_2 <= sqrt(rank) d_inf.
-    d_inf = std::max(std::fabs(info.norminfd), d_2 / std::sqrt(rankK));
     by = b.col(0).dot(y.col(0)) * 1.0 /
          (newton_step_parameters.inv_sqrt_mu * c_scaling);
     // inv_sqrt_mu * <c, x> = c' Q(w^{1/2}) (e + d)
-- 
2.43.0


From 59f4a848630a0a5d3519de7dd6714dfba7be4dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:39 +0000
Subject: [PATCH 28/46] fix: do not stop at an aborted warm start

---
 conex/cone_program.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index e91f6dd..962f3f8 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -520,8 +520,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
     std::cout << std::endl;
 #endif
 
-    if (final_centering ||
-        newton_step_parameters.inv_sqrt_mu >= inv_sqrt_mu_max) {
+    // The weights of an aborted warm start have been reset.
+    if (!warmstart_aborted &&
+        (final_centering ||
+         newton_step_parameters.inv_sqrt_mu >= inv_sqrt_mu_max)) {
       if (d_inf <= config.final_centering_tolerance) {
         max_iters_reached = false;
         break;
-- 
2.43.0


From ee5107ab6772937b18acef4bcd5b97159c1d9b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:39 +0000
Subject: [PATCH 29/46] fix: forget the parameter of an aborted warm start

---
 conex/cone_program.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 962f3f8..6b2bc57 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -360,6 +360,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       std::cout << "i: " << i << ", ";
     }
 #endif
+    if (warmstart_aborted) {
+      // Proceed as a cold start.
+      newton_step_parameters.inv_sqrt_mu = 0;
+      kkt_error = 0;
+    }
     bool final_centering =
         (newton_step_parameters.inv_sqrt_mu >= inv_sqrt_mu_max) ||
         (kkt_error > config.kkt_error_tolerance) ||
-- 
2.43.0


From 8c4a7e69a4a9fb34eac3a47d820bd8958eba5961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 30/46] fix: do not read dual variables before they exist

---
 conex/cone_program.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 2980b84..264c1af 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -119,6 +119,10 @@ class Program {
 
   template <typename T>
   void GetDualVariable(int i, T* xi) {
+    if (!is_initialized || !stats) {
+      std::cerr << "No dual variables available.\n";
+      return;
+    }
     int cnt = 0;
     for (auto& ci : kkt_system_manager_.eqs) {
       if (cnt == i) {
-- 
2.43.0


From 72c62a82cff736296045dbb4a46816ac5c802c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 31/46] fix: do not return uninitialized memory if no step is
 taken

---
 conex/cone_program.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 6b2bc57..a98e1a7 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -314,6 +314,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
   Eigen::Map<DenseMatrix> yout(primal_variable, m, 1);
   Ref y(ydata.data(), prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
+  y.setZero();
 
   double inv_sqrt_mu_max = config.inv_sqrt_mu_max;
   double cx = 1;
-- 
2.43.0


From 4a9524aa9e6dcf705c52168590db0e039b3bd1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:18 +0000
Subject: [PATCH 32/46] fix: find the scalings of a warm start with fewer
 iterations

The scalings were stored behind the statistics, so that a program warm
started on the workspace of another one with a different maximum number of
iterations read iteration statistics in their place.
---
 conex/workspace.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conex/workspace.h b/conex/workspace.h
index 4380c2d..6a0910f 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -73,10 +73,12 @@ class Workspace {
 struct WorkspaceStats {
   WorkspaceStats(int max_iter) : max_iter_(max_iter) {}
   friend void Initialize(WorkspaceStats* o, double* y) {
-    o->sqrt_inv_mu = y;
-    o->norm_inf_d = y + o->max_iter_;
-    o->c_scaling_ = y + 2 * o->max_iter_;
-    o->b_scaling_ = y + 2 * o->max_iter_ + 1;
+    // The scalings are stored first so that a program with a different
+    // maximum number of iterations finds them in a warm start.
+    o->c_scaling_ = y;
+    o->b_scaling_ = y + 1;
+    o->sqrt_inv_mu = y + 2;
+    o->norm_inf_d = y + 2 + o->max_iter_;
     o->initialized = true;
   }
 
-- 
2.43.0


From d3a1145f5fd6febad7818b3afced7e532886e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 33/46] fix: do not return uninitialized memory as a dual
 variable

Dual variables of second-order cone constraints are not available; return
zeros instead of uninitialized memory.
---
 conex/workspace_soc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/workspace_soc.h b/conex/workspace_soc.h
index 71909a1..c45b413 100644
--- a/conex/workspace_soc.h
+++ b/conex/workspace_soc.h
@@ -5,7 +5,7 @@
 namespace conex {
 
 struct WorkspaceSOC {
-  WorkspaceSOC(int n) : n_(n), W(n + 1, 1) {}
+  WorkspaceSOC(int n) : n_(n), W(Eigen::MatrixXd::Zero(n + 1, 1)) {}
 
   static constexpr int size_of(int n) {
     return get_size_aligned(n) + 4 * get_size_aligned(n);
-- 
2.43.0


From 97b54c850c47f11cfef8f0e4a532758743193b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 34/46] fix: map the dual variable of Hermitian constraints
 whenever it is read

It was mapped when a step was taken only, so that GetDualVariable read
uninitialized or deleted memory if the solver took no step.
---
 conex/hermitian_psd.cc | 13 -------------
 conex/hermitian_psd.h  | 16 ++++++++++++----
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index eb2f90f..5bb4730 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -20,13 +20,6 @@ bool TakeStep(HermitianPsdConstraint<T>* o, const StepOptions& opt) {
   ExponentialMap(WS, &expWS);
   o->W = T::Multiply(expWS, o->W);
   o->W = T::ScalarMultiply(T::Add(o->W, T::ConjugateTranspose(o->W)), .5);
-
-  // TODO(FrankPermenter): Remove this hack, which provides
-  // the dual-variable-interface access to real part of W.
-  if (o->W.at(0).data() != o->workspace_.W.data()) {
-    new (&o->workspace_.W)
-        Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(o->W.at(0).data(), n, n);
-  }
   return true;
 }
 
@@ -47,12 +40,6 @@ void PrepareStep(HermitianPsdConstraint<T>* o, const StepOptions& opt,
       o->W = T::ScalarMultiply(o->W, 1 + opt.e_weight);
     }
     o->W = T::Add(o->W, WSW);
-    // TODO(FrankPermenter): Remove this hack, which provides
-    // the dual-variable-interface access to real part of W.
-    if (o->W.at(0).data() != o->workspace_.W.data()) {
-      new (&o->workspace_.W)
-          Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>(o->W.at(0).data(), n, n);
-    }
     return;
   }
 
diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 84f3485..5940a68 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -42,15 +42,23 @@ class HermitianPsdConstraint {
  public:
   using Matrix = typename T::Matrix;
 
-  HermitianPsdConstraint(int n) : rank_(n), workspace_(n) {}
+  HermitianPsdConstraint(int n)
+      : rank_(n), workspace_(n), W(T::Identity(n)) {}
 
   HermitianPsdConstraint(int n, const std::vector<Matrix>& a, const Matrix& c)
       : rank_(n),
         workspace_(n),
         constraint_matrices_(a),
-        constraint_affine_(c) {}
-
-  WorkspaceDenseHermitian* workspace() { return &workspace_; }
+        constraint_affine_(c),
+        W(T::Identity(n)) {}
+
+  WorkspaceDenseHermitian* workspace() {
+    // TODO(FrankPermenter): Remove this hack, which provides
+    // the dual-variable-interface access to real part of W.
+    new (&workspace_.W) Eigen::Map<DenseMatrix, Eigen::Aligned>(
+        W.at(0).data(), rank_, rank_);
+    return &workspace_;
+  }
   friend void SetIdentity(HermitianPsdConstraint* o) {
     o->W = T::Identity(o->rank_);
   }
-- 
2.43.0


From e37611fb32a7b8d1486439afd30109a812aa4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:16 +0000
Subject: [PATCH 35/46] fix: record the iteration of a warm start that cannot
 be factored

Its statistics were those of an earlier run or uninitialized memory.
---
 conex/cone_program.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index a98e1a7..8f2db1a 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -409,6 +409,10 @@ bool Solve(Program& prog, const SolverConfiguration& config,
         PRINTSTATUS("Aborting warmstart...");
         SetIdentity(&prog.constraints_);
         warmstart_aborted = true;
+        // No parameter is selected in this iteration.
+        prog.stats->num_iter = i + 1;
+        prog.stats->sqrt_inv_mu[i] =
+            std::sqrt(1.0 / (1e-15 + config.maximum_mu));
         continue;
       }
       prog.status_.solved = 0;
-- 
2.43.0


From 782a986ccd04ced9c710ba09856295b1790e357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:29 +0000
Subject: [PATCH 36/46] fix: do not toggle Eigen's malloc flag outside of
 debugging

The flag is a global variable of the process: solving programs with quadratic
cones on two threads was a data race, and with assertions enabled
one thread could forbid the allocations of another.
---
 conex/quadratic_cone_constraint.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index e7ebef1..9c2e935 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -1,4 +1,11 @@
+// Only for debugging: Eigen's flag is shared by all threads and by all
+// translation units.
+#ifdef CONEX_CHECK_NO_MALLOC
 #define EIGEN_RUNTIME_NO_MALLOC
+#define SET_IS_MALLOC_ALLOWED(x) Eigen::internal::set_is_malloc_allowed(x)
+#else
+#define SET_IS_MALLOC_ALLOWED(x)
+#endif
 
 #include "conex/quadratic_cone_constraint.h"
 #include "conex/newton_step.h"
@@ -137,7 +144,7 @@ void QuadraticConstraintBase::ComputeNegativeSlack(double inv_sqrt_mu,
 // Combine this with PrepareStep
 void GetWeightedSlackEigenvalues(QuadraticConstraintBase* o, const Ref& y,
                                  double c_weight, WeightedSlackEigenvalues* p) {
-  Eigen::internal::set_is_malloc_allowed(false);
+  SET_IS_MALLOC_ALLOWED(false);
   auto* workspace = &o->workspace_;
   auto& minus_s_1 = workspace->temp1_1;
   double minus_s_0;
@@ -166,7 +173,7 @@ void GetWeightedSlackEigenvalues(QuadraticConstraintBase* o, const Ref& y,
   p->lambda_min = lamda_min;
   p->frobenius_norm_squared = std::pow(lamda_max, 2) + std::pow(lamda_min, 2);
   p->trace = (lamda_max + lamda_min);
-  Eigen::internal::set_is_malloc_allowed(true);
+  SET_IS_MALLOC_ALLOWED(true);
 }
 
 void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
@@ -175,7 +182,7 @@ void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
     // Dual variables are not supported. Do not modify W.
     return;
   }
-  Eigen::internal::set_is_malloc_allowed(false);
+  SET_IS_MALLOC_ALLOWED(false);
   // d =  e - Q(w^{1/2})(C-A^y)
   double& wsqrt_q0 = *o->workspace_.W0;
   auto& wsqrt_q1 = o->workspace_.temp3_1;
@@ -208,7 +215,7 @@ void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
   }
   info->normsqrd = ev.squaredNorm();
 
-  Eigen::internal::set_is_malloc_allowed(true);
+  SET_IS_MALLOC_ALLOWED(true);
 }
 
 void QuadraticConstraintBase::Initialize() {
-- 
2.43.0


From 0beb46e3a0608dc8d8c94ce0d83afd170c3a2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:15 +0000
Subject: [PATCH 37/46] fix: stop Lanczos iterations at an invariant subspace

---
 conex/approximate_eigenvalues.cc | 9 ++++++++-
 conex/jordan_matrix_algebra.cc   | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/conex/approximate_eigenvalues.cc b/conex/approximate_eigenvalues.cc
index 30822b7..d605ff2 100644
--- a/conex/approximate_eigenvalues.cc
+++ b/conex/approximate_eigenvalues.cc
@@ -154,18 +154,25 @@ Eigen::VectorXd ApproximateEigenvalues(const MatrixXd& A, const MatrixXd& r0,
   V.col(0) = r0 / r0.norm();
   alpha(0) = V.col(0).transpose() * A * V.col(0);
   VectorXd wprev = A * V.col(0) - alpha(0) * V.col(0);
+  const double scaling = (A * V.col(0)).norm();
 
   VectorXd wj;
+  int cnt = 1;
   for (int j = 1; j < num_iter; j++) {
     auto&& v = V.col(j);
     beta(j - 1) = wprev.norm();
+    // The Krylov subspace is invariant.
+    if (beta(j - 1) <= 1e-8 * scaling) {
+      break;
+    }
     v = wprev / beta(j - 1);
     alpha(j) = v.transpose() * A * v;
     wprev = A * v - alpha(j) * v - beta(j - 1) * V.col(j - 1);
+    cnt = j + 1;
   }
 
   Eigen::SelfAdjointEigenSolver<MatrixXd> x;
-  x.computeFromTridiagonal(alpha, beta,
+  x.computeFromTridiagonal(alpha.head(cnt), beta.head(cnt - 1),
                            Eigen::DecompositionOptions::EigenvaluesOnly);
   return x.eigenvalues();
 }
diff --git a/conex/jordan_matrix_algebra.cc b/conex/jordan_matrix_algebra.cc
index c2bbd5e..19ec67d 100644
--- a/conex/jordan_matrix_algebra.cc
+++ b/conex/jordan_matrix_algebra.cc
@@ -252,11 +252,17 @@ Eigen::VectorXd MatrixAlgebra<d>::ApproximateEigenvalues(
   alpha(0) = temp.at(0)(0, 0);
   auto wprev =
       T::Add(T::Multiply(A, V.at(0)), T::ScalarMultiply(V.at(0), -alpha(0)));
+  const double scaling = T::Multiply(A, V.at(0)).norm();
 
   VectorXd wj;
+  int cnt = 1;
   for (int j = 1; j < num_iter; j++) {
     auto&& v = V.at(j);
     beta(j - 1) = wprev.norm();
+    // The Krylov subspace is invariant.
+    if (beta(j - 1) <= 1e-8 * scaling) {
+      break;
+    }
     v = T::ScalarMultiply(wprev, 1.0 / beta(j - 1));
     // alpha(j) = v.transpose() * A * v;
     alpha(j) =
@@ -266,10 +272,11 @@ Eigen::VectorXd MatrixAlgebra<d>::ApproximateEigenvalues(
     // wprev = A*v - alpha(j) * v - beta(j - 1) * V.col(j-1);
     wprev = T::Add(T::Multiply(A, v), T::ScalarMultiply(v, -alpha(j)));
     wprev = T::Add(wprev, T::ScalarMultiply(V.at(j - 1), -beta(j - 1)));
+    cnt = j + 1;
   }
 
   Eigen::SelfAdjointEigenSolver<MatrixXd> x;
-  x.computeFromTridiagonal(alpha, beta,
+  x.computeFromTridiagonal(alpha.head(cnt), beta.head(cnt - 1),
                            Eigen::DecompositionOptions::EigenvaluesOnly);
   return x.eigenvalues();
 }
-- 
2.43.0


From 2b15ba1578813d16c5cc7f4a2115d6c728c576d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:54 +0000
Subject: [PATCH 38/46] fix: column operations of sparse triangular matrices
 skip empty supernodes

---
 conex/supernodal_solver.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/conex/supernodal_solver.cc b/conex/supernodal_solver.cc
index cff384a..f492787 100644
--- a/conex/supernodal_solver.cc
+++ b/conex/supernodal_solver.cc
@@ -43,16 +43,13 @@ class TriangularMatrixColumnOperations {
  public:
   TriangularMatrixColumnOperations(T::Matrix* mat) : mat_(mat) {
     dense_size = mat_->supernode_size.at(0);
+    SkipFinishedSupernodes();
   }
   void NextColumn() {
     supernode_column_++;
     column++;
     dense_size--;
-    if (supernode_column_ >= mat_->supernode_size.at(supernode_index_)) {
-      supernode_index_++;
-      supernode_column_ = 0;
-      dense_size = mat_->supernode_size.at(supernode_index_);
-    }
+    SkipFinishedSupernodes();
   }
 
   void Rescale(double scale) {
@@ -95,6 +92,15 @@ class TriangularMatrixColumnOperations {
   }
 
  private:
+  // Supernodes of cliques contained in other cliques are empty.
+  void SkipFinishedSupernodes() {
+    while (supernode_column_ >= mat_->supernode_size.at(supernode_index_)) {
+      supernode_index_++;
+      supernode_column_ = 0;
+      dense_size = mat_->supernode_size.at(supernode_index_);
+    }
+  }
+
   int supernode_index_ = 0;
   int dense_size = 0;
   int column = 0;
@@ -164,7 +170,7 @@ class LowerTriangularSuperNodal {
   // The smallest super-node less than i.
   int LookupSuperNode(int index, int start) const {
     for (int j = static_cast<int>(path_.size()) - 1; j >= 0; j--) {
-      if (index >= path_.at(j).at(0)) {
+      if (supernode_size_.at(j) > 0 && index >= path_.at(j).at(0)) {
         return j;
       }
     }
-- 
2.43.0


From 399f4f0ffdd3be3a81acb959a00d4c2548381d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:57 +0000
Subject: [PATCH 39/46] fix: assign sparse triangular matrices

---
 conex/supernodal_solver.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/conex/supernodal_solver.h b/conex/supernodal_solver.h
index 18bf614..d023719 100644
--- a/conex/supernodal_solver.h
+++ b/conex/supernodal_solver.h
@@ -1,4 +1,5 @@
 #pragma once
+#include <new>
 #include <numeric>
 #include <vector>
 
@@ -91,8 +92,13 @@ class SparseTriangularMatrix {
   SparseTriangularMatrix(const SparseTriangularMatrix& s)
       : SparseTriangularMatrix(s.N, s.path, s.supernode_size, s.memory_) {}
 
-  SparseTriangularMatrix operator=(const SparseTriangularMatrix& s) {
-    return SparseTriangularMatrix(s.N, s.path, s.supernode_size, s.memory_);
+  SparseTriangularMatrix& operator=(const SparseTriangularMatrix& s) {
+    // Maps and references cannot be reseated: construct anew.
+    if (this != &s) {
+      this->~SparseTriangularMatrix();
+      new (this) SparseTriangularMatrix(s);
+    }
+    return *this;
   }
 
   int N;
-- 
2.43.0


From 85b07caaada2c3c1ee361fd33925dcdeaec0e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:40 +0000
Subject: [PATCH 40/46] fix: adding the system of a quadratic constraint leaves
 other terms alone

---
 conex/quadratic_cone_constraint.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9c2e935..ab385b8 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -270,6 +270,12 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
     sys->AQc.noalias() = det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
     sys->inner_product_of_c_and_Qc = det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
   } else {
+    // Terms of other constraints are not affected by the final scaling.
+    sys->AQc *= .5;
+    sys->AW *= .5;
+    sys->inner_product_of_c_and_Qc *= .5;
+    sys->inner_product_of_w_and_c *= .5;
+    sys->G *= .5;
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, false,
                     &sys->G);
     sys->AW.noalias() += A_dot_x + A0 * (*o->workspace_.W0);
-- 
2.43.0


From 13b3110f369519238782f082b720037fb1ccb9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:40 +0000
Subject: [PATCH 41/46] fix: storage for the weight of second order cones with
 one row

---
 conex/workspace_soc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/workspace_soc.h b/conex/workspace_soc.h
index c45b413..c952f51 100644
--- a/conex/workspace_soc.h
+++ b/conex/workspace_soc.h
@@ -8,7 +8,7 @@ struct WorkspaceSOC {
   WorkspaceSOC(int n) : n_(n), W(Eigen::MatrixXd::Zero(n + 1, 1)) {}
 
   static constexpr int size_of(int n) {
-    return get_size_aligned(n) + 4 * get_size_aligned(n);
+    return 4 * get_size_aligned(n) + get_size_aligned(1);
   }
 
   friend int SizeOf(const WorkspaceSOC& o) { return size_of(o.n_); }
-- 
2.43.0


From 6011f4a9aae00fb3f103144570c6734a7398194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:45 +0000
Subject: [PATCH 42/46] fix: feasible objective has one entry per variable

---
 conex/cone_program.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 8f2db1a..09fdfbe 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -604,7 +604,7 @@ DenseMatrix GetFeasibleObjective(Program* prg) {
   double inner_product_of_c_and_w;
   prog.solver->Assemble(&AW, &AQc, &inner_product_of_c_and_w);
 
-  return .5 * AW;
+  return .5 * AW.topRows(prog.GetNumberOfVariables());
 }
 
 bool Solve(const DenseMatrix& b, Program& prog,
-- 
2.43.0


From cd0b3c8343c648079fa156e1f2426e5a03611c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:45 +0000
Subject: [PATCH 43/46] fix: return the index of two sided linear inequalities

---
 interfaces/conex.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 1969e91..5bf16b8 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -213,14 +213,18 @@ int CONEX_AddLinearInequalities(void* prog, const double* A, int Ar, int Ac,
                                     &beq);
 
   auto& program = *reinterpret_cast<Program*>(prog);
+  int constraint_id = -1;
+  if (Aineq.rows() > 0 || Aeq.rows() > 0) {
+    constraint_id = program.NumberOfConstraints();
+  }
   if (Aineq.rows() > 0) {
     program.AddConstraint(conex::LinearConstraint(Aineq, bineq));
   }
   if (Aeq.rows() > 0) {
     program.AddConstraint(conex::EqualityConstraints(Aeq, beq));
   }
-  // TODO(FrankPermenter): Return the correct ID.
-  return -1;
+  // The first of the constraints added, if any.
+  return constraint_id;
 }
 int CONEX_AddDenseLinearConstraint(void* prog, const double* A, int Ar, int Ac,
                                    const double* c, int cr) {
-- 
2.43.0


From 9e86ebadb307c39ad23c334743dcc2f016542553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:45 +0000
Subject: [PATCH 44/46] fix: linear inequalities with one row in the python
 interface

---
 interfaces/python/ConexProgram.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/python/ConexProgram.py b/interfaces/python/ConexProgram.py
index 811f71c..c659c97 100644
--- a/interfaces/python/ConexProgram.py
+++ b/interfaces/python/ConexProgram.py
@@ -96,17 +96,17 @@ class Conex:
 
         cost = self.wrapper.CONEX_AddQuadraticCost(self.a, P)
     def AddLinearInequality(self, A, c): 
-        c_ = np.squeeze(np.array(c[:])).transpose()
+        c_ = np.array(c[:]).flatten()
         const_id = self.wrapper.CONEX_AddDenseLinearConstraint(self.a, A, c_)
         self.m = A.shape[1]
         self.n = A.shape[0]
         self.A.append(np.matrix(A))
-        self.c.append(np.matrix(c))
+        self.c.append(np.matrix(c_))
         self.num_constraints = self.num_constraints + 1
 
     def AddLinearInequalities(self, A, lb, ub): 
-        lb_ = np.squeeze(np.array(lb[:])).transpose()
-        ub_ = np.squeeze(np.array(ub[:])).transpose()
+        lb_ = np.array(lb[:]).flatten()
+        ub_ = np.array(ub[:]).flatten()
         const_id = self.wrapper.CONEX_AddLinearInequalities(self.a, A, lb_, ub_)
         #TODO(FrankPermenter) Correctly build these matrices
         self.A.append(np.matrix(A))
-- 
2.43.0


From a0d893a350b7f1dbb490aa178c54230ba190fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:45 +0000
Subject: [PATCH 45/46] fix: dual variables of the constraint asked for in the
 python interface

---
 interfaces/python/ConexProgram.py | 32 +++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/interfaces/python/ConexProgram.py b/interfaces/python/ConexProgram.py
index c659c97..1c1c757 100644
--- a/interfaces/python/ConexProgram.py
+++ b/interfaces/python/ConexProgram.py
@@ -66,6 +66,7 @@ class Conex:
         self.linear_constraints = []
         self.A = []
         self.c = []
+        self.constraint_ids = []
         self.m = m
 
     def __del__(self): 
@@ -102,15 +103,19 @@ class Conex:
         self.n = A.shape[0]
         self.A.append(np.matrix(A))
         self.c.append(np.matrix(c_))
+        self.constraint_ids.append(const_id)
         self.num_constraints = self.num_constraints + 1
 
     def AddLinearInequalities(self, A, lb, ub): 
         lb_ = np.array(lb[:]).flatten()
         ub_ = np.array(ub[:]).flatten()
         const_id = self.wrapper.CONEX_AddLinearInequalities(self.a, A, lb_, ub_)
+        if const_id < 0:
+            return
         #TODO(FrankPermenter) Correctly build these matrices
         self.A.append(np.matrix(A))
         self.c.append(np.matrix(ub_))
+        self.constraint_ids.append(const_id)
         self.num_constraints = self.num_constraints + 1
     def DefaultConfiguration(self):
         config = self.wrapper.CONEX_SolverConfiguration()
@@ -161,20 +166,30 @@ class Conex:
             c = np.matrix(self.c[i]).transpose()
             n2 = c.shape[0]
             n1 = c.shape[1]
+            constraint = self.constraint_ids[i]
+            size = self.wrapper.CONEX_GetDualVariableSize(self.a, constraint)
+            if size != n1 * n2:
+                n1, n2 = 1, size
             xi = np.ones((n1, n2)).astype(real)
-            self.wrapper.CONEX_GetDualVariable(self.a, i, xi)
+            self.wrapper.CONEX_GetDualVariable(self.a, constraint, xi)
             xi = np.matrix(xi).transpose()
             x.append(xi)
 
         return x
 
+    # Records a constraint whose operator is set by UpdateLinearOperator.
+    def AppendConstraint(self, constraint, c):
+        self.num_constraints = self.num_constraints + 1
+        self.A.append(None)
+        self.c.append(c.astype(real))
+        self.constraint_ids.append(constraint)
+
     def NewLinearMatrixInequality(self, order, hyper_complex_dim):
         constraint = self.wrapper.intp();
         status = self.wrapper.CONEX_NewLinearMatrixInequality(self.a, order, hyper_complex_dim, constraint)
         if status != 0:
             raise NameError("Failed to add constraint.")
-        self.num_constraints = self.num_constraints + 1
-        self.c.append(np.zeros((order, order)).astype(real))
+        self.AppendConstraint(constraint.value(), np.zeros((order, order)))
         return constraint.value()
 
     def NewLorentzConeConstraint(self, order):
@@ -182,7 +197,7 @@ class Conex:
         status = self.wrapper.CONEX_NewLorentzConeConstraint(self.a, order, constraint)
         if status != 0:
             raise NameError("Failed to add constraint.")
-        self.num_constraints = self.num_constraints + 1
+        self.AppendConstraint(constraint.value(), np.zeros((order + 1)))
         return constraint.value()
 
     def NewLinearInequality(self, num_rows):
@@ -190,7 +205,7 @@ class Conex:
         status = self.wrapper.CONEX_NewLinearInequality(self.a, num_rows, constraint)
         if status != 0:
             raise NameError("Failed to add constraint.")
-        self.num_constraints = self.num_constraints + 1
+        self.AppendConstraint(constraint.value(), np.zeros((num_rows)))
         return constraint.value()
 
     def NewQuadraticCost(self):
@@ -198,7 +213,6 @@ class Conex:
         status = self.wrapper.CONEX_NewQuadraticCost(self.a, constraint)
         if status != 0:
             raise NameError("Failed to create quadratic cost.")
-        self.num_constraints = self.num_constraints + 1
         return constraint.value()
 
     def UpdateQuadraticCostMatrix(self, cost_id, value, row, col):
@@ -227,7 +241,8 @@ class Conex:
 
         variables = np.arange(0, self.m)
         variables = variables.astype('int_')
-        self.wrapper.CONEX_AddDenseLMIConstraint(self.a, A, c)
+        const_id = self.wrapper.CONEX_AddDenseLMIConstraint(self.a, A, c)
+        self.constraint_ids.append(const_id)
         self.num_constraints = self.num_constraints + 1
 
     def AddSparseLinearMatrixInequality(self, A, c, variables): 
@@ -238,7 +253,8 @@ class Conex:
         self.c.append(c)
 
         variables = np.array(variables).astype('int_')
-        self.wrapper.CONEX_AddSparseLMIConstraint(self.a, A, c, variables) 
+        const_id = self.wrapper.CONEX_AddSparseLMIConstraint(self.a, A, c, variables) 
+        self.constraint_ids.append(const_id)
         self.num_constraints = self.num_constraints + 1
 
     def ComputeErrors(self, y, xa, b):
-- 
2.43.0


From 2a4ae7fff4fdd4e7ea039f9faccfe6d9df4aca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:45 +0000
Subject: [PATCH 46/46] fix: errors of every constraint and of no other
 solution in the python interface

---
 interfaces/python/ConexProgram.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/interfaces/python/ConexProgram.py b/interfaces/python/ConexProgram.py
index 1c1c757..c9045eb 100644
--- a/interfaces/python/ConexProgram.py
+++ b/interfaces/python/ConexProgram.py
@@ -9,10 +9,11 @@ def eye(n):
     return np.matrix(np.eye(n, n))
 
 class Errors:
-    Ax_minus_b = 0
-    x_dot_s = 0
-    min_eig_S = []
-    min_eig_X = []
+    def __init__(self):
+        self.Ax_minus_b = 0
+        self.x_dot_s = 0
+        self.min_eig_S = []
+        self.min_eig_X = []
 
 class Solution:
     err = Errors()
@@ -281,7 +282,7 @@ class Conex:
             sa.append(s)
 
             if n2 == 1 or n1 == 1:
-                err.x_dot_s = s.transpose() * x
+                err.x_dot_s = err.x_dot_s + np.trace(np.matmul(s.transpose(), x))
                 err.min_eig_S.append(min(s))
                 err.min_eig_X.append(min(x))
             else:
-- 
2.43.0

