From 9e56f5b7858002b5bed271a4764f52317be13058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 01/66] fix: apply weights before the difference Jacobian in
 ConfigurationConstraint

---
 src/configuration-constraint.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/configuration-constraint.cc b/src/configuration-constraint.cc
index e77c64f..2b25a4e 100644
--- a/src/configuration-constraint.cc
+++ b/src/configuration-constraint.cc
@@ -117,14 +117,12 @@ void ConfigurationConstraint::impl_jacobian(matrixOut_t jacobian,
   using namespace hpp::pinocchio;
 
   LiegroupElementConstRef a(argument, goal_.space());
-  jacobian.leftCols(robot_->numberDof()).noalias() = (goal_ - a).transpose();
+  jacobian.leftCols(robot_->numberDof()).noalias() =
+      weights_.cwiseProduct(goal_ - a).transpose();
 
   // Apply jacobian of the difference on the right.
   goal_.space()->dDifference_dq0<pinocchio::InputTimesDerivative>(
       argument, goal_.vector(), jacobian.leftCols(robot_->numberDof()));
-
-  jacobian.leftCols(robot_->numberDof()).array() *=
-      weights_.array().transpose();
 }
 }  // namespace constraints
 }  // namespace hpp
-- 
2.43.0


From 10ed6103e2d5aebf72b93bff36ec7f1684cd9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:04 +0000
Subject: [PATCH 02/66] fix: handle levels without active constraint in
 hierarchical solvers

---
 src/solver/hierarchical-iterative.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9b153ba..8d1bfb4 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -343,6 +343,7 @@ ArrayXb HierarchicalIterative::activeParameters() const {
 #endif
     const DifferentiableFunctionSet& dfs(
         dynamic_cast<const DifferentiableFunctionSet&>(stacks_[i].function()));
+    if (dfs.functions().empty()) continue;
     ap = ap || dfs.activeParameters();
   }
   return ap;
@@ -356,6 +357,7 @@ ArrayXb HierarchicalIterative::activeDerivativeParameters() const {
 #endif
     const DifferentiableFunctionSet& dfs(
         dynamic_cast<const DifferentiableFunctionSet&>(stacks_[i].function()));
+    if (dfs.functions().empty()) continue;
     ap = ap || dfs.activeDerivativeParameters();
   }
   return ap;
@@ -383,9 +385,10 @@ void HierarchicalIterative::update() {
     datas_[i].rightHandSide.setNeutral();
     datas_[i].error.resize(f.outputSpace()->nv());
 
-    assert(configSpace_->nv() == f.inputDerivativeSize());
-    datas_[i].jacobian.resize(f.outputDerivativeSize(),
-                              f.inputDerivativeSize());
+    // A level may be empty if constraints are only added at lower priority.
+    assert(f.functions().empty() ||
+           configSpace_->nv() == f.inputDerivativeSize());
+    datas_[i].jacobian.resize(f.outputDerivativeSize(), configSpace_->nv());
     datas_[i].jacobian.setZero();
     datas_[i].reducedJ.resize(datas_[i].activeRowsOfJ.nbRows(), reducedSize);
 
@@ -437,6 +440,7 @@ vector_t HierarchicalIterative::rightHandSideFromConfig(
     ConfigurationIn_t config) {
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     ImplicitConstraintSet& ics = stacks_[i];
+    if (ics.constraints().empty()) continue;
     Data& d = datas_[i];
     ics.rightHandSideFromConfig(config, d.rightHandSide);
   }
@@ -624,6 +628,7 @@ template <bool ComputeJac>
 void HierarchicalIterative::computeValue(vectorIn_t config) const {
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     const ImplicitConstraintSet& constraints(stacks_[i]);
+    if (constraints.constraints().empty()) continue;
     const DifferentiableFunction& f = constraints.function();
     Data& d = datas_[i];
 
@@ -770,11 +775,10 @@ void HierarchicalIterative::computeDescentDirection() const {
     // dQ_1 = dQ_0 + P_0 * M+_1 * (-f_1(q) - J_1 * dQ_1)
     //  P_1 = P_0 * K_1
     matrix_t* projector = NULL;
+    dqSmall_.setZero();
     for (std::size_t i = 0; i < stacks_.size(); ++i) {
       Data& d = datas_[i];
 
-      // TODO: handle case where this is the first element of the stack and it
-      // has no functions
       if (d.reducedJ.rows() == 0) continue;
       /// projector is of size numberDof
       bool first = (i == 0);
-- 
2.43.0


From 45fe69a48fb0c90b4017280fbf895d376dd33924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:42 +0000
Subject: [PATCH 03/66] fix: restrict the Jacobian of explicit variables to the
 free variables

---
 src/solver/by-substitution.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 3039fb4..85ad219 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -177,7 +177,10 @@ void BySubstitution::updateJacobian(vectorIn_t arg) const {
                    \  dqin                  /
   */
   explicit_.jacobian(JeExpanded_, arg);
-  Je_ = explicit_.jacobianNotOutToOut(JeExpanded_);
+  // The free variables may be a strict subset of the variables that are not
+  // output of an explicit constraint.
+  Je_ = Eigen::MatrixBlocksRef<>(explicit_.outDers(), freeVariables_)
+            .rview(JeExpanded_);
 
   hppDnum(info, "Jacobian of explicit system is" << iendl << setpyformat
                                                  << pretty_print(Je_));
-- 
2.43.0


From 9b74a23f5408690b4ace75a6857667738d5f993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 04/66] fix: never consider a constraint that evaluates to NaN
 as satisfied

---
 .../hpp/constraints/solver/impl/by-substitution.hh    |  8 ++++++--
 .../constraints/solver/impl/hierarchical-iterative.hh |  4 +++-
 src/explicit-constraint-set.cc                        |  8 ++++++--
 src/solver/hierarchical-iterative.cc                  | 11 ++++++++---
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index a02dbd4..7d85543 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -29,6 +29,8 @@
 #ifndef HPP_CONSTRAINTS_SOLVER_IMPL_BY_SUBSTITUTION_HH
 #define HPP_CONSTRAINTS_SOLVER_IMPL_BY_SUBSTITUTION_HH
 
+#include <cmath>
+
 namespace hpp {
 namespace constraints {
 namespace solver {
@@ -102,8 +104,10 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
     }
     // Apply scaling to avoid too large steps.
     if (optimize) dq_ *= scaling;
-    if (dq_.squaredNorm() < dqMinSquaredNorm) {
-      // We assume that the algorithm reached a local minima.
+    if (!std::isfinite(squaredNorm_) || !dq_.allFinite() ||
+        dq_.squaredNorm() < dqMinSquaredNorm) {
+      // Either a constraint cannot be evaluated, or we assume that the
+      // algorithm reached a local minima.
       status = INFEASIBLE;
       break;
     }
diff --git a/include/hpp/constraints/solver/impl/hierarchical-iterative.hh b/include/hpp/constraints/solver/impl/hierarchical-iterative.hh
index bc79ec1..eb3764a 100644
--- a/include/hpp/constraints/solver/impl/hierarchical-iterative.hh
+++ b/include/hpp/constraints/solver/impl/hierarchical-iterative.hh
@@ -29,6 +29,7 @@
 #ifndef HPP_CONSTRAINTS_SOLVER_IMPL_HIERARCHICAL_ITERATIVE_HH
 #define HPP_CONSTRAINTS_SOLVER_IMPL_HIERARCHICAL_ITERATIVE_HH
 
+#include <cmath>
 #include <hpp/constraints/config.hh>
 #include <hpp/constraints/svd.hh>
 #include <hpp/util/debug.hh>
@@ -149,7 +150,8 @@ solver::HierarchicalIterative::solve(vectorOut_t arg,
          iter < maxIterations_) {
     computeSaturation(arg);
     computeDescentDirection();
-    if (dq_.squaredNorm() < dqMinSquaredNorm) {
+    if (!std::isfinite(squaredNorm_) || !dq_.allFinite() ||
+        dq_.squaredNorm() < dqMinSquaredNorm) {
       // TODO INFEASIBLE means that we have reached a local minima.
       // The problem may still be feasible from a different starting point.
       status = INFEASIBLE;
diff --git a/src/explicit-constraint-set.cc b/src/explicit-constraint-set.cc
index 290d8e2..9fd9d9f 100644
--- a/src/explicit-constraint-set.cc
+++ b/src/explicit-constraint-set.cc
@@ -26,6 +26,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH
 // DAMAGE.
 
+#include <cmath>
 #include <hpp/constraints/explicit-constraint-set.hh>
 #include <hpp/constraints/explicit.hh>
 #include <hpp/constraints/matrix-view.hh>
@@ -33,6 +34,7 @@
 #include <hpp/pinocchio/liegroup.hh>
 #include <hpp/pinocchio/util.hh>
 #include <hpp/util/indent.hh>
+#include <limits>
 #include <queue>
 
 namespace hpp {
@@ -78,8 +80,10 @@ bool ExplicitConstraintSet::isSatisfied(vectorIn_t arg, vectorOut_t error,
     size_type nRows(h.outputSpace()->nv());
     assert(*(d.h_value.space()) == *(d.rhs_implicit.space()));
     error.segment(row, nRows) = d.h_value - d.rhs_implicit;
-    squaredNorm =
-        std::max(squaredNorm, error.segment(row, nRows).squaredNorm());
+    value_type norm(error.segment(row, nRows).squaredNorm());
+    // std::max discards NaN
+    if (std::isnan(norm)) norm = std::numeric_limits<value_type>::infinity();
+    squaredNorm = std::max(squaredNorm, norm);
     row += nRows;
   }
   assert(row == error.size());
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 8d1bfb4..eb83e44 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -28,6 +28,7 @@
 
 #include <boost/serialization/shared_ptr.hpp>
 #include <boost/serialization/vector.hpp>
+#include <cmath>
 #include <hpp/constraints/implicit.hh>
 #include <hpp/constraints/macros.hh>
 #include <hpp/constraints/solver/hierarchical-iterative.hh>
@@ -54,7 +55,8 @@ namespace {
 template <bool Superior, bool ComputeJac, typename Derived>
 void compare(value_type& val, const Eigen::MatrixBase<Derived>& jac,
              const value_type& thr) {
-  if ((Superior && val < thr) || (!Superior && -thr < val)) {
+  // NaN does not satisfy the inequality.
+  if ((Superior && !(val >= thr)) || (!Superior && !(val <= -thr))) {
     if (Superior)
       val -= thr;
     else
@@ -707,8 +709,11 @@ void HierarchicalIterative::computeError() const {
     size_type iv = 0;
     for (std::size_t j = 0; j < constraints.size(); ++j) {
       size_type nv(constraints[j]->function().outputDerivativeSize());
-      squaredNorm_ =
-          std::max(squaredNorm_, d.error.segment(iv, nv).squaredNorm());
+      value_type norm(d.error.segment(iv, nv).squaredNorm());
+      // A constraint that cannot be evaluated is not satisfied. Note that
+      // std::max discards NaN.
+      if (std::isnan(norm)) norm = std::numeric_limits<value_type>::infinity();
+      squaredNorm_ = std::max(squaredNorm_, norm);
       iv += nv;
     }
   }
-- 
2.43.0


From ce71f0cb0d9691254afac6aa88c74bac859fb347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:40 +0000
Subject: [PATCH 05/66] fix: compare joints and frames in
 GenericTransformation::isEqual

---
 include/hpp/constraints/generic-transformation.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/hpp/constraints/generic-transformation.hh b/include/hpp/constraints/generic-transformation.hh
index b578975..3b4124b 100644
--- a/include/hpp/constraints/generic-transformation.hh
+++ b/include/hpp/constraints/generic-transformation.hh
@@ -352,11 +352,19 @@ class HPP_CONSTRAINTS_DLLAPI GenericTransformation
     if (!DifferentiableFunction::isEqual(other)) return false;
     if (robot_ != castother.robot_) return false;
     if (mask_ != castother.mask_) return false;
+    if (jointIndex(m_.getJoint1()) != jointIndex(castother.m_.getJoint1()))
+      return false;
+    if (jointIndex(m_.joint2) != jointIndex(castother.m_.joint2)) return false;
+    if (m_.F1inJ1 != castother.m_.F1inJ1) return false;
+    if (m_.F2inJ2 != castother.m_.F2inJ2) return false;
 
     return true;
   }
 
  private:
+  static size_type jointIndex(const JointConstPtr_t& joint) {
+    return joint ? (size_type)joint->index() : 0;
+  }
   void computeActiveParams();
   DevicePtr_t robot_;
   GenericTransformationModel<IsRelative> m_;
-- 
2.43.0


From cceffc3605c9fdfdc6fcbc237d2e052db764e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 06/66] fix: read singular values within bounds when the kernel
 of a level shrinks

---
 src/solver/hierarchical-iterative.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index eb83e44..e86eacf 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -813,7 +813,11 @@ void HierarchicalIterative::computeDescentDirection() const {
       // Update sigma
       const size_type rank = d.svd.rank();
       d.maxRank = std::max(d.maxRank, rank);
-      if (d.maxRank > 0)
+      // The number of columns in the kernel of the previous levels, hence the
+      // number of singular values, may decrease.
+      if (d.maxRank > d.svd.singularValues().size())
+        sigma_ = 0;
+      else if (d.maxRank > 0)
         sigma_ = std::min(sigma_, d.svd.singularValues()[d.maxRank - 1]);
       if (solveLevelByLevel_ && err.squaredNorm() > squaredErrorThreshold_)
         break;
-- 
2.43.0


From 453f8d7643e7ffa7ae74ff32ee225421a541ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 07/66] fix: no row of the reduced Jacobian is active without
 free variables

---
 src/solver/by-substitution.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 85ad219..327df43 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -232,7 +232,8 @@ void BySubstitution::computeActiveRowsOfJ(std::size_t iStack) {
                .eval()
                .array();
     active = adpF.any();
-    if (!active && explicitIOdep.size() > 0) {
+    if (!active && explicitIOdep.size() > 0 &&
+        freeVariables_.nbIndices() > 0) {
       // Test on the variable constrained by the explicit solver.
       adpC = explicit_.outDers()
                  .rview(constraints[i]
-- 
2.43.0


From 36e3f15228a7e081e74ff65d226e7eb3d1996cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 08/66] fix: errors of inequality constraints are one-sided and
 ignore inactive rows

---
 src/solver/hierarchical-iterative.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index e86eacf..6932f25 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -563,6 +563,14 @@ bool HierarchicalIterative::isConstraintSatisfied(
                          f->outputSpace());
   f->value(output, arg);
   error = output - rhs;
+  const ComparisonTypes_t& comparison(constraint->comparisonType());
+  for (std::size_t i = 0; i < comparison.size(); ++i) {
+    if (comparison[i] == Superior)
+      compare<true, false>(error[i], Eigen::RowVectorXd(), inequalityThreshold_);
+    else if (comparison[i] == Inferior)
+      compare<false, false>(error[i], Eigen::RowVectorXd(),
+                            inequalityThreshold_);
+  }
   constraint->setInactiveRowsToZero(error);
   return (error.squaredNorm() < squaredErrorThreshold_);
 }
@@ -638,7 +646,6 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     assert(hpp::pinocchio::checkNormalized(d.output));
     assert(hpp::pinocchio::checkNormalized(d.rightHandSide));
     d.error = d.output - d.rightHandSide;
-    constraints.setInactiveRowsToZero(d.error);
     if (ComputeJac) {
       f.jacobian(d.jacobian, config);
       d.output.space()->dDifference_dq1<pinocchio::DerivativeTimesInput>(
@@ -646,6 +653,7 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     }
     applyComparison<ComputeJac>(d.comparison, d.inequalityIndices, d.error,
                                 d.jacobian, inequalityThreshold_);
+    constraints.setInactiveRowsToZero(d.error);
 
     // Copy columns that are not reduced
     if (ComputeJac) d.reducedJ = d.activeRowsOfJ.rview(d.jacobian);
-- 
2.43.0


From a0e7a35d80e3c84b832fff66efb9b83265c7e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 09/66] fix: an optional last level in a solver without
 implicit constraint

---
 src/solver/hierarchical-iterative.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 6932f25..2376441 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -708,7 +708,8 @@ void HierarchicalIterative::getReducedJacobian(matrixOut_t J) const {
 
 void HierarchicalIterative::computeError() const {
   const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+      (lastIsOptional_ && !stacks_.empty() ? stacks_.size() - 1
+                                           : stacks_.size());
   squaredNorm_ = 0;
   for (std::size_t i = 0; i < end; ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
@@ -855,7 +856,8 @@ std::ostream& HierarchicalIterative::print(std::ostream& os) const {
      << dimension() << iendl << "reduced dimension " << reducedDimension()
      << iendl << "free variables: " << freeVariables_ << incindent;
   const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+      (lastIsOptional_ && !stacks_.empty() ? stacks_.size() - 1
+                                           : stacks_.size());
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
         stacks_[i].constraints());
-- 
2.43.0


From c928fb3ee70fb45b74dddd177cdaa1bc07bedb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:12 +0000
Subject: [PATCH 10/66] fix: dispatch the right hand side to levels and
 explicit constraints

---
 src/solver/by-substitution.cc        | 2 +-
 src/solver/hierarchical-iterative.cc | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 327df43..646eae9 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -356,7 +356,7 @@ void BySubstitution::rightHandSide(vectorIn_t rhs) {
   const size_type top = parent_t::rightHandSideSize();
   const size_type bot = explicit_.rightHandSideSize();
   parent_t::rightHandSide(rhs.head(top));
-  explicit_.rightHandSide(rhs.head(bot));
+  explicit_.rightHandSide(rhs.tail(bot));
 }
 
 vector_t BySubstitution::rightHandSide() const {
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 2376441..4623eb2 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -576,7 +576,7 @@ bool HierarchicalIterative::isConstraintSatisfied(
 }
 
 void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
-  size_type iq = 0, iv = 0;
+  size_type iq = 0;
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     Data& d = datas_[i];
     LiegroupSpacePtr_t space(d.rightHandSide.space());
@@ -585,17 +585,16 @@ void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
     pinocchio::LiegroupElementConstRef output(
         space->elementConstRef(rightHandSide.segment(iq, nq)));
     LiegroupElementRef rhs(
-        space->elementRef(d.rightHandSide.vector().segment(iq, nq)));
+        space->elementRef(d.rightHandSide.vector().segment(0, nq)));
 
     // d.error is used here as an intermediate storage. The value
     // computed is not the error
     d.error = output - space->neutral();  // log (rightHandSide)
     for (size_type k = 0; k < nv; ++k) {
-      if (d.comparison[iv + k] != Equality) assert(d.error[k] == 0);
+      if (d.comparison[k] != Equality) assert(d.error[k] == 0);
     }
     rhs = space->neutral() + d.error;  // exp (d.error)
     iq += nq;
-    iv += nv;
   }
   assert(iq == rightHandSide.size());
 }
-- 
2.43.0


From b8df876d63f24448dd5601ca415e3e50ab72eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 11/66] fix: Jacobian of implicit function of explicit
 constraints with SO(3) or SE(2) output

---
 src/explicit/implicit-function.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/explicit/implicit-function.cc b/src/explicit/implicit-function.cc
index 717b192..f25ae22 100644
--- a/src/explicit/implicit-function.cc
+++ b/src/explicit/implicit-function.cc
@@ -47,6 +47,7 @@ typedef hpp::pinocchio::liegroup::VectorSpaceOperation<3, false> R3;
 typedef hpp::pinocchio::liegroup::SpecialOrthogonalOperation<3> SO3;
 typedef hpp::pinocchio::liegroup::CartesianProductOperation<R3, SO3> R3xSO3;
 typedef pinocchio::liegroup::SpecialEuclideanOperation<3> SE3;
+typedef pinocchio::liegroup::SpecialEuclideanOperation<2> SE2;
 typedef hpp::pinocchio::LiegroupType LiegroupType;
 
 struct JacobianVisitor : public boost::static_visitor<> {
@@ -63,6 +64,8 @@ struct JacobianVisitor : public boost::static_visitor<> {
 
   template <typename LgT>
   void operator()(const LgT&);
+  template <typename LgT>
+  void differentiateDifference(const LgT& lg);
 
   vectorIn_t qOut_, f_qIn_;
   matrixIn_t Jf_;
@@ -140,6 +143,28 @@ inline void JacobianVisitor::operator()<SE3>(const SE3&) {
   inJacobian_.lview(result_) = Jlog_Mf_inverse_Mout * inJ;
 }
 
+/// Use the derivatives of the difference between elements of the Lie group.
+template <typename LgT>
+void JacobianVisitor::differentiateDifference(const LgT& lg) {
+  matrix_t J(Jf_.rows(), Jf_.rows());
+  lg.template dDifference< ::pinocchio::ARG1>(f_qIn_, qOut_, J);
+  outJacobian_.lview(result_) = J;
+  lg.template dDifference< ::pinocchio::ARG0>(f_qIn_, qOut_, J);
+  matrix_t inJ(J * Jf_);
+  inJacobian_.lview(result_) = inJ;
+}
+
+template <>
+inline void JacobianVisitor::operator()<SO3>(const SO3& lg) {
+  differentiateDifference(lg);
+}
+
+template <>
+inline void JacobianVisitor::operator()<SE2>(const SE2& lg) {
+  differentiateDifference(lg);
+}
+
+// Commutative groups
 template <typename LgT>
 void JacobianVisitor::operator()(const LgT&) {
   outJacobian_.lview(result_).setIdentity();
-- 
2.43.0


From f048fe5be265f83c7f2058d185aa1565a21aba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:18 +0000
Subject: [PATCH 12/66] fix: Jacobian of explicit relative transformation when
 the joints are not at the root

---
 src/explicit/relative-transformation.cc | 71 ++++++++-----------------
 1 file changed, 23 insertions(+), 48 deletions(-)

diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index 3a493fe..1d0670a 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -185,61 +185,36 @@ void RelativeTransformation::impl_jacobian(matrixOut_t jacobian,
                           ? vector3_t::Zero().eval()
                           : joint1_->currentTransformation().translation());
 
-  matrix3_t cross1 = ::pinocchio::skew(
-                (R1 * F1inJ1_invF2inJ2_.translation()).eval()),
-            cross2;
-  if (hasParent) {
-    const vector3_t& t2_parent(
-        parentJoint_->currentTransformation().translation());
-    cross2 = ::pinocchio::skew((t2_parent - t1).eval());
-
-    if (absolute)
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian();
-    else
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian() - J1;
-  } else {
-    cross2 = -::pinocchio::skew(t1);
-    // J2_parent_minus_J1_ = - J1;
-  }
-
-  // Express velocity of J1 * M1/J1 * M2/J2^{-1} in J2_{parent}.
-  if (hasParent) {
-    const matrix3_t& R2_parent(
-        parentJoint_->currentTransformation().rotation());
-    const JointJacobian_t& J2_parent(parentJoint_->jacobian());
-
-    tmpJac_.noalias() =
-        (R2_inParentFrame.transpose() * R2_parent.transpose()) *
-        (cross1 * (omega(J2_parent_minus_J1_)) - cross2 * omega(J2_parent) -
-         trans(J2_parent_minus_J1_));
-    jacobian.topRows<3>() = inVel_.rview(tmpJac_);
-  } else {
-    if (absolute)
-      jacobian.topRows<3>().setZero();
-    else {
-      tmpJac_.noalias() =
-          R2.transpose() * ((-cross1 * R1) * omega(J1) + R1 * trans(J1));
-      jacobian.topRows<3>() = inVel_.rview(tmpJac_);
-    }
+  const vector3_t& t2(joint2_->currentTransformation().translation());
+
+  // Express velocity of J1 * F1/J1 * F2/J2^{-1} with respect to J2_{parent} in
+  // J2. The Jacobian of a joint is expressed in the frame of the joint.
+  tmpJac_.setZero(6, robot_->model().nv);
+  if (!absolute) {
+    const matrix3_t& R1(joint1_->currentTransformation().rotation());
+    const matrix3_t cross1(::pinocchio::skew(
+        (R1 * F1inJ1_invF2inJ2_.translation()).eval()));
+    const JointJacobian_t& J1(joint1_->jacobian());
+
+    tmpJac_.topRows<3>() = R1 * trans(J1) - (cross1 * R1) * omega(J1);
+    tmpJac_.bottomRows<3>() = R1 * omega(J1);
   }
-
   if (hasParent) {
     const matrix3_t& R2_parent(
         parentJoint_->currentTransformation().rotation());
+    const vector3_t& t2_parent(
+        parentJoint_->currentTransformation().translation());
+    const matrix3_t cross2(::pinocchio::skew((t2 - t2_parent).eval()));
     const JointJacobian_t& J2_parent(parentJoint_->jacobian());
 
-    // J = p2RT2 * 0RTp2 * [ p2
-    tmpJac_.noalias() = (R2.transpose() * R2_parent) * omega(J2_parent);
-    if (!absolute) tmpJac_.noalias() -= (R2.transpose() * R1) * omega(J1);
-    jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
-  } else {
-    if (absolute)
-      jacobian.bottomRows<3>().setZero();
-    else {
-      tmpJac_.noalias() = (R2.transpose() * R1) * omega(J1);
-      jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
-    }
+    tmpJac_.topRows<3>() -=
+        R2_parent * trans(J2_parent) - (cross2 * R2_parent) * omega(J2_parent);
+    tmpJac_.bottomRows<3>() -= R2_parent * omega(J2_parent);
   }
+  jacobian.topRows<3>() =
+      R2.transpose() * inVel_.rview(tmpJac_.topRows<3>()).eval();
+  jacobian.bottomRows<3>() =
+      R2.transpose() * inVel_.rview(tmpJac_.bottomRows<3>()).eval();
 }
 
 template <class Archive>
-- 
2.43.0


From 8d856a27313734ed0967e09cf321165763ec1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:40 +0000
Subject: [PATCH 13/66] fix: Jacobian of implicit function of explicit
 constraints with several output Lie groups

---
 src/explicit/implicit-function.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/explicit/implicit-function.cc b/src/explicit/implicit-function.cc
index f25ae22..e2e6e4c 100644
--- a/src/explicit/implicit-function.cc
+++ b/src/explicit/implicit-function.cc
@@ -266,7 +266,7 @@ void ImplicitFunction::impl_jacobian(matrixOut_t jacobian,
     JacobianVisitor v(qOut_.vector().segment(iq, nq),
                       f_qIn_.vector().segment(iq, nq), Jf_.middleRows(iv, nv),
                       outJacobian_[rank], inJacobian_[rank],
-                      jacobian.middleRows(iv, nv));
+                      jacobian);
     boost::apply_visitor(v, *it);
     iq += nq;
     iv += nv;
-- 
2.43.0


From 11d0b3367b45f7c3f3ae0e625a7aa78a75f84636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:33 +0000
Subject: [PATCH 14/66] fix: do not invert Jacobians that are null up to
 rounding errors

---
 src/solver/hierarchical-iterative.cc | 29 ++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 4623eb2..0981ee2 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -81,6 +81,26 @@ void applyComparison(const ComparisonTypes_t comparison,
     }
   }
 }
+
+/// Compute the singular value decomposition of a matrix
+///
+/// The threshold of the decomposition is relative to the greatest singular
+/// value of the matrix. When the matrix is null up to rounding errors, because
+/// the constraints are locally constant or are already satisfied by the
+/// previous levels, it should not be inverted.
+/// \param scale order of magnitude of the terms used to compute the matrix.
+template <typename SVD_t>
+void computeSvd(SVD_t& svd, const matrix_t& matrix, const value_type& scale) {
+  svd.compute(matrix);
+  svd.setThreshold(SVD_THRESHOLD);
+  if (svd.singularValues().size() == 0) return;
+  const value_type sigma(svd.singularValues()[0]);
+  if (sigma > 0 && sigma < scale)
+    svd.setThreshold(SVD_THRESHOLD * scale / sigma);
+}
+
+// Scale below which singular values of a Jacobian are considered as null.
+const value_type jacobianScale = 1e-4;
 }  // namespace
 
 namespace lineSearch {
@@ -769,7 +789,7 @@ void HierarchicalIterative::computeDescentDirection() const {
   vector_t err;
   if (stacks_.size() == 1) {  // one level only
     Data& d = datas_[0];
-    d.svd.compute(d.reducedJ);
+    computeSvd(d.svd, d.reducedJ, jacobianScale);
     HPP_DEBUG_SVDCHECK(d.svd);
     // TODO Eigen::JacobiSVD does a dynamic allocation here.
     err = d.activeRowsOfJ.keepRows().rview(-d.error);
@@ -799,7 +819,7 @@ void HierarchicalIterative::computeDescentDirection() const {
       if (first) {
         err = d.activeRowsOfJ.keepRows().rview(-d.error);
         // dq should be zero and projector should be identity
-        d.svd.compute(d.reducedJ);
+        computeSvd(d.svd, d.reducedJ, jacobianScale);
         HPP_DEBUG_SVDCHECK(d.svd);
         // TODO Eigen::JacobiSVD does a dynamic allocation here.
         dqSmall_ = d.svd.solve(err);
@@ -808,11 +828,12 @@ void HierarchicalIterative::computeDescentDirection() const {
         err.noalias() -= d.reducedJ * dqSmall_;
 
         if (projector == NULL) {
-          d.svd.compute(d.reducedJ);
+          computeSvd(d.svd, d.reducedJ, jacobianScale);
           // TODO Eigen::JacobiSVD does a dynamic allocation here.
           dqSmall_ += d.svd.solve(err);
         } else {
-          d.svd.compute(d.reducedJ * *projector);
+          computeSvd(d.svd, d.reducedJ * *projector,
+                     std::max(jacobianScale, d.reducedJ.norm()));
           // TODO Eigen::JacobiSVD does a dynamic allocation here.
           dqSmall_ += *projector * d.svd.solve(err);
         }
-- 
2.43.0


From f0b920ba8e4a20c8061fd5d9adc3aa1abc393271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 15/66] fix: do not share output spaces between copies of a
 solver

---
 src/solver/hierarchical-iterative.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 0981ee2..8915a02 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -272,6 +272,14 @@ HierarchicalIterative::HierarchicalIterative(const HierarchicalIterative& other)
   for (auto& ics : stacks_) {
     ics.replace(oldToNew);
   }
+  // The output spaces of the levels are modified when adding constraints. They
+  // should not be shared with the other instance.
+  for (std::size_t i = 0; i < stacks_.size(); ++i) {
+    const LiegroupSpacePtr_t& space(stacks_[i].function().outputSpace());
+    datas_[i].output = LiegroupElement(datas_[i].output.vector(), space);
+    datas_[i].rightHandSide =
+        LiegroupElement(datas_[i].rightHandSide.vector(), space);
+  }
 }
 
 bool HierarchicalIterative::contains(
-- 
2.43.0


From 98370e998779a3bcadb0e882a8d843691371c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 16/66] fix: Jacobian of functions restricted to an interval of
 time

---
 src/extracted-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index 91c3335..a119dc7 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -69,7 +69,7 @@ class ExtractedFunction : public DifferentiableFunction {
       original_->jacobian(jacobian, param);
       jacobian *= -1;
     } else {
-      param[0] = arg[0] - t1_;
+      param[0] = t1_ + arg[0];
       return original_->jacobian(jacobian, param);
     }
   }
-- 
2.43.0


From c94eca31f080fa66ab40ee7e065dbedcfcbb129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 17/66] fix: extracting a solver should not modify it

---
 src/solver/by-substitution.cc | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 646eae9..b22a43b 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -116,26 +116,16 @@ bool BySubstitution::add(const ImplicitPtr_t& nm, const std::size_t& priority) {
   return true;
 }
 
-// We need to replace each numerical constraint by its extracted copy as in
-// HierachicalIterative, but also to replace shared pointers to initial
-// constraints by shared pointer to extracted constraints in explicit constraint
-// set.
 BySubstitution BySubstitution::extract(interval_t interval) {
+  // The copy constructor replaces the constraints by their copies, including in
+  // the explicit constraint set.
   BySubstitution res(*this);
-  std::map<ImplicitPtr_t, ImplicitPtr_t> oldToNew;
-  NumericalConstraints_t::const_iterator oldIt = constraints_.begin();
-  for (NumericalConstraints_t::iterator newIt = res.constraints_.begin();
-       newIt != res.constraints_.end(); ++newIt) {
-    ImplicitPtr_t newC(*newIt);
-    ImplicitPtr_t oldC(*oldIt);
-    oldToNew[oldC] = newC;
-    if (newC->rightHandSideFunction()) {
-      newC->rightHandSideFunction(DifferentiableFunction::extract(
-          newC->rightHandSideFunction(), interval));
+  for (const ImplicitPtr_t& c : res.constraints_) {
+    if (c->rightHandSideFunction()) {
+      c->rightHandSideFunction(DifferentiableFunction::extract(
+          c->rightHandSideFunction(), interval));
     }
-    ++oldIt;
   }
-  explicit_.replace(oldToNew);
   return res;
 }
 
-- 
2.43.0


From f41f83dfbcbbf9b8cb8a3c69153fc5963d07bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 18/66] fix: return success when nothing is left to solve and
 constraints are satisfied

BySubstitution returned INFEASIBLE when no variable is free and the error is
between half the threshold and the threshold, although isSatisfied returns
true.
---
 include/hpp/constraints/solver/impl/by-substitution.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index 7d85543..1859577 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -81,7 +81,8 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
   }
 
   bool errorIsAboveThr = (squaredNorm_ > .25 * squaredErrorThreshold_);
-  if (errorIsAboveThr && reducedDimension_ == 0) return INFEASIBLE;
+  if (errorIsAboveThr && reducedDimension_ == 0)
+    return errorWasBelowThr ? SUCCESS : INFEASIBLE;
   if (optimize && !errorIsAboveThr) qopt = arg;
 
   Status status = SUCCESS;
-- 
2.43.0


From a0e16f96c52672f17b8cf24efd543e9b313d6c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 19/66] fix: distance between a point of a joint and a point of
 the environment

The point of the environment was ignored in the value (but not in the
Jacobian).
---
 src/distance-between-points-in-bodies.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 0d70832..0644315 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -112,7 +112,7 @@ void DistanceBetweenPointsInBodies::impl_compute(
     global2_ = joint2_->currentTransformation().act(point2_);
     result.vector()[0] = (global2_ - global1_).norm();
   } else {
-    result.vector()[0] = (global1_).norm();
+    result.vector()[0] = (point2_ - global1_).norm();
   }
 
   latestArgument_ = argument;
-- 
2.43.0


From 48013b2459d7f5a2ec182e1a3a0f7079e0e6d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 20/66] fix: Jacobian of distances on robots with extra degrees
 of freedom or moved since the last evaluation

---
 src/distance-between-bodies.cc           | 17 ++++++++++++-----
 src/distance-between-points-in-bodies.cc | 10 ++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index a22ac78..e4cdb1d 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -131,6 +131,10 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
                                           ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // The value may come from the cache while the robot has moved since.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
@@ -143,10 +147,13 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
   //        T (                              )
   // (P1-P2)  ( J    -   [P1 - t1]  J        )
   //          (  1 [0:3]          x  1 [3:6] )
-  jacobian = (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
-              P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
-                  J1.bottomRows<3>()) /
-             dist.vector()[0];
+  // Extra degrees of freedom
+  jacobian.rightCols(jacobian.cols() - J1.cols()).setZero();
+  jacobian.leftCols(J1.cols()) =
+      (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
+       P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
+           J1.bottomRows<3>()) /
+      dist.vector()[0];
   if (joint2_) {
     const JointJacobian_t& J2(joint2_->jacobian());
     const Transform3s& M2(joint2_->currentTransformation());
@@ -159,7 +166,7 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows<3>() +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows<3>());
-    jacobian.noalias() -= tmp2 / dist.vector()[0];
+    jacobian.leftCols(J1.cols()).noalias() -= tmp2 / dist.vector()[0];
   }
 }
 }  // namespace constraints
diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 0644315..c998c4c 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -123,6 +123,10 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
                                                   ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // The value may come from the cache while the robot has moved since.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
@@ -155,10 +159,12 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows(3) +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows(3));
-    jacobian = (tmp1 - tmp2) / dist.vector()[0];
+    jacobian.leftCols(tmp1.cols()) = (tmp1 - tmp2) / dist.vector()[0];
   } else {
-    jacobian = tmp1 / dist.vector()[0];
+    jacobian.leftCols(tmp1.cols()) = tmp1 / dist.vector()[0];
   }
+  // Extra degrees of freedom
+  jacobian.rightCols(jacobian.cols() - tmp1.cols()).setZero();
 }
 
 }  // namespace constraints
-- 
2.43.0


From 7d3915c524fd79f409edbde6c62fe27530907f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 21/66] fix: Jacobian of the distance between bodies when the
 collision pair is stored in the other order

---
 src/distance-between-bodies.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index e4cdb1d..fc45081 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -140,6 +140,12 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
   const matrix3_t& R1(M1.rotation());
   vector3_t point1(data_.distanceResults[minIndex_].nearest_points[0]);
   vector3_t point2(data_.distanceResults[minIndex_].nearest_points[1]);
+  // The first object of the collision pair may be the one of the other body.
+  const ::pinocchio::GeomIndex first(
+      robot_->geomModel().collisionPairs[minIndex_].first);
+  if (robot_->geomModel().geometryObjects[first].parentJoint !=
+      joint1_->index())
+    std::swap(point1, point2);
   // P1 - P2
   vector3_t P1_minus_P2(point1 - point2);
   // P1 - t1
-- 
2.43.0


From 46f36d3c6544dc75a37882050d1df7906a12c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 22/66] fix: comparison of contact functions

Object surfaces and margin were ignored, and floor surfaces were read out
of bounds when there are more object surfaces.
---
 src/convex-shape-contact.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index e58dd9d..f402dbf 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -74,8 +74,14 @@ bool ConvexShapeContact::isEqual(const DifferentiableFunction& other) const {
   if (robot_ != castother.robot_) return false;
   if (objectConvexShapes_.size() != castother.objectConvexShapes_.size())
     return false;
+  if (floorConvexShapes_.size() != castother.floorConvexShapes_.size())
+    return false;
   for (std::size_t i = 0; i < objectConvexShapes_.size(); i++)
+    if (objectConvexShapes_[i] != castother.objectConvexShapes_[i])
+      return false;
+  for (std::size_t i = 0; i < floorConvexShapes_.size(); i++)
     if (floorConvexShapes_[i] != castother.floorConvexShapes_[i]) return false;
+  if (normalMargin_ != castother.normalMargin_) return false;
   return true;
 }
 
@@ -506,8 +512,12 @@ bool ConvexShapeContactHold::isEqual(
   const ConvexShapeContactHold& castother =
       dynamic_cast<const ConvexShapeContactHold&>(other);
   if (!DifferentiableFunction::isEqual(other)) return false;
-  if (constraint_ != castother.constraint_) return false;
-  if (complement_ != castother.complement_) return false;
+  if (constraint_ != castother.constraint_ &&
+      *constraint_ != *castother.constraint_)
+    return false;
+  if (complement_ != castother.complement_ &&
+      *complement_ != *castother.complement_)
+    return false;
   return true;
 }
 
-- 
2.43.0


From db31020dd742199c40358e4c88dcafb05f42762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 23/66] fix: do not compare evaluation buffers in isEqual

Equality of Manipulability, DifferentiableFunctionSet and
DistanceBetweenBodies depended on the last evaluation (or on uninitialized
data).
---
 include/hpp/constraints/differentiable-function-set.hh | 4 ----
 include/hpp/constraints/distance-between-bodies.hh     | 3 ++-
 include/hpp/constraints/manipulability.hh              | 2 --
 3 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/hpp/constraints/differentiable-function-set.hh b/include/hpp/constraints/differentiable-function-set.hh
index 5a578ef..dbd17f6 100644
--- a/include/hpp/constraints/differentiable-function-set.hh
+++ b/include/hpp/constraints/differentiable-function-set.hh
@@ -131,10 +131,6 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (functions_ != castother.functions_) return false;
-    if (result_.size() != castother.result_.size()) return false;
-    for (std::size_t i = 0; i < result_.size(); i++)
-      if (result_[i] != castother.result_[i]) return false;
-
     return true;
   }
 
diff --git a/include/hpp/constraints/distance-between-bodies.hh b/include/hpp/constraints/distance-between-bodies.hh
index 8d63fe6..a3859cc 100644
--- a/include/hpp/constraints/distance-between-bodies.hh
+++ b/include/hpp/constraints/distance-between-bodies.hh
@@ -107,7 +107,8 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenBodies
     if (robot_ != castother.robot_) return false;
     if (joint1_ != castother.joint1_) return false;
     if (joint2_ != castother.joint2_) return false;
-    if (data_ != castother.data_) return false;
+    if (data_.activeCollisionPairs != castother.data_.activeCollisionPairs)
+      return false;
 
     return true;
   }
diff --git a/include/hpp/constraints/manipulability.hh b/include/hpp/constraints/manipulability.hh
index 52efbbe..66edead 100644
--- a/include/hpp/constraints/manipulability.hh
+++ b/include/hpp/constraints/manipulability.hh
@@ -72,8 +72,6 @@ class HPP_CONSTRAINTS_DLLAPI Manipulability : public DifferentiableFunction {
     if (function_ != castother.function_) return false;
     if (robot_ != castother.robot_) return false;
     if (cols_.cols() != castother.cols_.cols()) return false;
-    if (J_ != castother.J_) return false;
-    if (J_JT_ != castother.J_JT_) return false;
 
     return true;
   }
-- 
2.43.0


From 3823d202f6636815648e2390c0f6a1a55477d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 24/66] fix: equality of constant functions is inverted

---
 include/hpp/constraints/affine-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/affine-function.hh b/include/hpp/constraints/affine-function.hh
index 616f6a6..04d7968 100644
--- a/include/hpp/constraints/affine-function.hh
+++ b/include/hpp/constraints/affine-function.hh
@@ -183,7 +183,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConstantFunction : public DifferentiableFunction {
         dynamic_cast<const ConstantFunction&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (c_.vector() == castother.c_.vector()) return false;
+    if (c_.vector() != castother.c_.vector()) return false;
 
     return true;
   }
-- 
2.43.0


From 10a099c210a11fb6f01677e0d2aa8f23b726f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 25/66] fix: Jacobian of QPStaticStability

The value is twice the objective of the QP (plus a constant).
---
 src/qp-static-stability.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 7767602..8781552 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -203,8 +203,8 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
   phi_.jacobianTransposeTimes(argument, phi_.value() * primal_, JT_phi_F);
   phi_.jacobianTimes(argument, primal_, J_F);
 
-  jacobian = 0.5 * primal_.transpose() * JT_phi_F +
-             (0.5 * phi_.value() * primal_ + Gravity).transpose() * J_F;
+  jacobian = primal_.transpose() * JT_phi_F +
+             (phi_.value() * primal_ + 2 * Gravity).transpose() * J_F;
 }
 
 inline qpOASES::returnValue QPStaticStability::solveQP(
-- 
2.43.0


From bd282a944ab579330ae16db044b0b239078bf9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 26/66] fix: static stability functions on robots with extra
 degrees of freedom

---
 src/qp-static-stability.cc | 28 ++++++++++++++++++----------
 src/static-stability.cc    | 36 +++++++++++++++++++++++-------------
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 8781552..2915baf 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -37,6 +37,12 @@
 namespace hpp {
 namespace constraints {
 namespace {
+// Number of columns of the Jacobians of joints and of centers of mass: they do
+// not include the extra degrees of freedom.
+size_type nbDof(const DevicePtr_t& robot) {
+  return robot->numberDof() - robot->extraConfigSpace().dimension();
+}
+
 std::size_t forceDatasToNbContacts(
     const std::vector<ConvexShapeContact::ForceData>& fds) {
   std::size_t nb = 0;
@@ -69,7 +75,7 @@ QPStaticStability::QPStaticStability(const std::string& name,
       qp_((qpOASES::int_t)nbContacts_, qpOASES::HST_SEMIDEF),
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6, nbContacts_),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, nbContacts_ * robot->numberDof())),
+               6, nbContacts_ * nbDof(robot))),
       primal_(vector_t::Zero(nbContacts_)),
       dual_(vector_t::Zero(nbContacts_)) {
   VectorMap_t zeros(Zeros, nbContacts_);
@@ -83,9 +89,9 @@ QPStaticStability::QPStaticStability(const std::string& name,
   Traits<PointCom>::Ptr_t OG = PointCom::create(com);
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<PointInJoint>::Ptr_t OP2 = PointInJoint::create(
-        contacts[i].joint, contacts[i].point, robot->numberDof());
+        contacts[i].joint, contacts[i].point, nbDof(robot));
     Traits<VectorInJoint>::Ptr_t n2 = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, nbDof(robot));
 
     phi_(0, i) = n2;
     phi_(1, i) = (OG - OP2) ^ n2;
@@ -107,7 +113,7 @@ QPStaticStability::QPStaticStability(const std::string& name,
       qp_((qpOASES::int_t)nbContacts_, qpOASES::HST_SEMIDEF),
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6, nbContacts_),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, nbContacts_ * robot->numberDof())),
+               6, nbContacts_ * nbDof(robot))),
       primal_(vector_t::Zero(nbContacts_)),
       dual_(vector_t::Zero(nbContacts_)) {
   VectorMap_t zeros(Zeros, nbContacts_);
@@ -122,10 +128,10 @@ QPStaticStability::QPStaticStability(const std::string& name,
   std::size_t col = 0;
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<VectorInJoint>::Ptr_t n = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, nbDof(robot));
     for (std::size_t j = 0; j < contacts[i].points.size(); ++j) {
       Traits<PointInJoint>::Ptr_t OP = PointInJoint::create(
-          contacts[i].joint, contacts[i].points[j], robot->numberDof());
+          contacts[i].joint, contacts[i].points[j], nbDof(robot));
 
       phi_(0, col) = n;
       phi_(1, col) = (OG - OP) ^ n;
@@ -198,13 +204,15 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
   }
 
   // TODO preallocate this.
-  matrix_t JT_phi_F(nbContacts_, robot_->numberDof());
-  matrix_t J_F(6, robot_->numberDof());
+  matrix_t JT_phi_F(nbContacts_, nbDof(robot_));
+  matrix_t J_F(6, nbDof(robot_));
   phi_.jacobianTransposeTimes(argument, phi_.value() * primal_, JT_phi_F);
   phi_.jacobianTimes(argument, primal_, J_F);
 
-  jacobian = primal_.transpose() * JT_phi_F +
-             (phi_.value() * primal_ + 2 * Gravity).transpose() * J_F;
+  jacobian.setZero();
+  jacobian.leftCols(nbDof(robot_)) =
+      primal_.transpose() * JT_phi_F +
+      (phi_.value() * primal_ + 2 * Gravity).transpose() * J_F;
 }
 
 inline qpOASES::returnValue QPStaticStability::solveQP(
diff --git a/src/static-stability.cc b/src/static-stability.cc
index 6f5b5ec..99aa7e1 100644
--- a/src/static-stability.cc
+++ b/src/static-stability.cc
@@ -40,6 +40,14 @@ namespace constraints {
 
 using hpp::pinocchio::LiegroupElement;
 
+namespace {
+// Number of columns of the Jacobians of joints and of centers of mass: they do
+// not include the extra degrees of freedom.
+size_type nbDof(const DevicePtr_t& robot) {
+  return robot->numberDof() - robot->extraConfigSpace().dimension();
+}
+}  // namespace
+
 const value_type StaticStability::G = 9.81;
 const Eigen::Matrix<value_type, 6, 1> StaticStability::Gravity =
     (Eigen::Matrix<value_type, 6, 1>() << 0, 0, -1, 0, 0, 0).finished();
@@ -56,21 +64,21 @@ StaticStability::StaticStability(const std::string& name,
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6,
                                                               contacts.size()),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, contacts.size() * robot->numberDof())),
+               6, contacts.size() * nbDof(robot))),
       u_(contacts.size()),
       uMinus_(contacts.size()),
       v_(contacts.size()),
-      uDot_(contacts.size(), robot->numberDof()),
-      uMinusDot_(contacts.size(), robot->numberDof()),
-      vDot_(contacts.size(), robot->numberDof()),
-      lambdaDot_(robot->numberDof()) {
+      uDot_(contacts.size(), nbDof(robot)),
+      uMinusDot_(contacts.size(), nbDof(robot)),
+      vDot_(contacts.size(), nbDof(robot)),
+      lambdaDot_(nbDof(robot)) {
   phi_.setSize(2, contacts.size());
   Traits<PointCom>::Ptr_t OG = PointCom::create(com);
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<PointInJoint>::Ptr_t OP2 = PointInJoint::create(
-        contacts[i].joint, contacts[i].point, robot->numberDof());
+        contacts[i].joint, contacts[i].point, nbDof(robot));
     Traits<VectorInJoint>::Ptr_t n2 = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, nbDof(robot));
 
     phi_(0, i) = n2;
     phi_(1, i) = (OG - OP2) ^ n2;
@@ -130,7 +138,9 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
   phi_.computePseudoInverseJacobian(argument, G);
   uDot_.noalias() = phi_.pinvJacobian();
 
-  jacobian.block(0, 0, contacts_.size(), robot_->numberDof()).noalias() = uDot_;
+  // Extra degrees of freedom
+  jacobian.rightCols(jacobian.cols() - nbDof(robot_)).setZero();
+  jacobian.block(0, 0, contacts_.size(), nbDof(robot_)).noalias() = uDot_;
 
   if (computeUminusAndV(u_, uMinus_, v_)) {
     matrix_t S = -matrix_t::Identity(u_.size(), u_.size());
@@ -146,18 +156,18 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
 
     // computeLambdaDot (u_, v_, iMin, uDot_, vDot_, lambdaDot_);
 
-    // jacobian.block (0, 0, contacts_.size(), robot_->numberDof()).noalias ()
+    // jacobian.block (0, 0, contacts_.size(), nbDof(robot_)).noalias ()
     // += lambda * vDot_ + v_ * lambdaDot_.transpose ();
 
-    jacobian.block(0, 0, contacts_.size(), robot_->numberDof()).noalias() +=
+    jacobian.block(0, 0, contacts_.size(), nbDof(robot_)).noalias() +=
         lambda * vDot_;
   }
 
   phi_.jacobianTimes(
       argument, u_,
-      jacobian.block(contacts_.size(), 0, 6, robot_->numberDof()));
+      jacobian.block(contacts_.size(), 0, 6, nbDof(robot_)));
   phi_.computePseudoInverseJacobian(argument, Gravity);
-  jacobian.block(contacts_.size(), 0, 6, robot_->numberDof()) +=
+  jacobian.block(contacts_.size(), 0, 6, nbDof(robot_)) +=
       -phi_.value() * phi_.pinvJacobian();
 }
 
@@ -205,7 +215,7 @@ void StaticStability::computeVDot(const ConfigurationIn_t arg,
 
   // TODO: preallocate this matrix
   Eigen::Matrix<value_type, 6, Eigen::Dynamic> JphiTimesUMinus(
-      6, robot_->numberDof());
+      6, nbDof(robot_));
   phi_.jacobianTimes(arg, uMinus, JphiTimesUMinus);
   vDot.noalias() -= phi_.pinv() * JphiTimesUMinus;
 
-- 
2.43.0


From b2cf27b7c433a2d84ef1435bda2cb5c46e15d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 27/66] fix: Jacobian of QPStaticStability used the contacts of
 the last evaluation

---
 src/qp-static-stability.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 2915baf..d9132be 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -187,6 +187,7 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
 
   phi_.invalidate();
   // phi_.computeSVD (argument);
+  phi_.computeValue(argument);
   phi_.computeJacobian(argument);
 
   vector_t res(1);
-- 
2.43.0


From 4a6b6369139d89aa2fd586dc049891863c7ee364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 28/66] fix: set the columns of the extra degrees of freedom in
 the Jacobian of ComBetweenFeet

---
 src/com-between-feet.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/com-between-feet.cc b/src/com-between-feet.cc
index cde152c..ef32d7e 100644
--- a/src/com-between-feet.cc
+++ b/src/com-between-feet.cc
@@ -131,6 +131,8 @@ void ComBetweenFeet::impl_jacobian(matrixOut_t jacobian,
   robot_->currentConfiguration(arg);
   robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
                                    pinocchio::JACOBIAN);
+  // Extra degrees of freedom
+  jacobian.rightCols(jacobian.cols() - jointRef_->jacobian().cols()).setZero();
   size_t index = 0;
   if (mask_[0]) {
     com_->invalidate();
-- 
2.43.0


From cfcbce65189d64e7eec59d05267e458ae84774b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 29/66] fix: QPStaticStability leaks memory and is compared by
 address

Compare the contacts instead of the address of a buffer that was never
released.
---
 include/hpp/constraints/qp-static-stability.hh |  5 +++--
 src/qp-static-stability.cc                     | 18 +++++++++---------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/hpp/constraints/qp-static-stability.hh b/include/hpp/constraints/qp-static-stability.hh
index 882ace6..c5edd6e 100644
--- a/include/hpp/constraints/qp-static-stability.hh
+++ b/include/hpp/constraints/qp-static-stability.hh
@@ -101,7 +101,7 @@ class HPP_CONSTRAINTS_DLLAPI QPStaticStability : public DifferentiableFunction {
     if (robot_ != castother.robot_) return false;
     if (nbContacts_ != castother.nbContacts_) return false;
     if (com_ != castother.com_) return false;
-    if (Zeros != castother.Zeros) return false;
+    if (contacts_ != castother.contacts_) return false;
     if (nWSR != castother.nWSR) return false;
 
     return true;
@@ -110,7 +110,7 @@ class HPP_CONSTRAINTS_DLLAPI QPStaticStability : public DifferentiableFunction {
  private:
   static const Eigen::Matrix<value_type, 6, 1> MinusGravity;
 
-  qpOASES::real_t* Zeros;
+  vector_t zeros_;
   const qpOASES::int_t nWSR;
 
   void impl_compute(LiegroupElementRef result,
@@ -125,6 +125,7 @@ class HPP_CONSTRAINTS_DLLAPI QPStaticStability : public DifferentiableFunction {
 
   DevicePtr_t robot_;
   std::size_t nbContacts_;
+  Contacts_t contacts_;
   CenterOfMassComputationPtr_t com_;
 
   typedef MatrixOfExpressions<eigen::vector3_t, JacobianMatrix> MoE_t;
diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index d9132be..8a0e2a2 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -65,10 +65,11 @@ QPStaticStability::QPStaticStability(const std::string& name,
                                      const CenterOfMassComputationPtr_t& com)
     : DifferentiableFunction(robot->configSize(), robot->numberDof(),
                              LiegroupSpace::R1(), name),
-      Zeros(new qpOASES::real_t[contacts.size()]),
+      zeros_(vector_t::Zero(contacts.size())),
       nWSR(40),
       robot_(robot),
       nbContacts_(contacts.size()),
+      contacts_(contacts),
       com_(com),
       H_(nbContacts_, nbContacts_),
       G_(nbContacts_),
@@ -78,9 +79,6 @@ QPStaticStability::QPStaticStability(const std::string& name,
                6, nbContacts_ * nbDof(robot))),
       primal_(vector_t::Zero(nbContacts_)),
       dual_(vector_t::Zero(nbContacts_)) {
-  VectorMap_t zeros(Zeros, nbContacts_);
-  zeros.setZero();
-
   qpOASES::Options options;
   qp_.setOptions(options);
 
@@ -103,7 +101,7 @@ QPStaticStability::QPStaticStability(const std::string& name,
                                      const std::vector<ForceData>& contacts,
                                      const CenterOfMassComputationPtr_t& com)
     : DifferentiableFunction(robot->configSize(), robot->numberDof(), 1, name),
-      Zeros(new qpOASES::real_t[forceDatasToNbContacts(contacts)]),
+      zeros_(vector_t::Zero(forceDatasToNbContacts(contacts))),
       nWSR(40),
       robot_(robot),
       nbContacts_(forceDatasToNbContacts(contacts)),
@@ -116,9 +114,6 @@ QPStaticStability::QPStaticStability(const std::string& name,
                6, nbContacts_ * nbDof(robot))),
       primal_(vector_t::Zero(nbContacts_)),
       dual_(vector_t::Zero(nbContacts_)) {
-  VectorMap_t zeros(Zeros, nbContacts_);
-  zeros.setZero();
-
   qpOASES::Options options;
   qp_.setOptions(options);
 
@@ -132,6 +127,11 @@ QPStaticStability::QPStaticStability(const std::string& name,
     for (std::size_t j = 0; j < contacts[i].points.size(); ++j) {
       Traits<PointInJoint>::Ptr_t OP = PointInJoint::create(
           contacts[i].joint, contacts[i].points[j], nbDof(robot));
+      Contact_t contact;
+      contact.joint = contacts[i].joint;
+      contact.point = contacts[i].points[j];
+      contact.normal = contacts[i].normal;
+      contacts_.push_back(contact);
 
       phi_(0, col) = n;
       phi_(1, col) = (OG - OP) ^ n;
@@ -229,7 +229,7 @@ inline qpOASES::returnValue QPStaticStability::solveQP(
   qp_.reset();
   qp_.setHessianType(qpOASES::HST_SEMIDEF);
   qpOASES::returnValue ret;
-  ret = qp_.init(H_.data(), G_.data(), Zeros, 0, nwsr, 0);
+  ret = qp_.init(H_.data(), G_.data(), zeros_.data(), 0, nwsr, 0);
   qp_.getPrimalSolution(primal_.data());
   qp_.getDualSolution(dual_.data());
   result[0] = 2 * qp_.getObjVal() + MinusGravity.squaredNorm();
-- 
2.43.0


From 9e4a937bc7c9af2cb0b05ad2c50ffba8814af1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 30/66] fix: equality of explicit relative transformations

The parent joint is a new pointer for each instance: two instances were
never equal.
---
 include/hpp/constraints/explicit/relative-transformation.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/explicit/relative-transformation.hh b/include/hpp/constraints/explicit/relative-transformation.hh
index cc7af61..96af5ab 100644
--- a/include/hpp/constraints/explicit/relative-transformation.hh
+++ b/include/hpp/constraints/explicit/relative-transformation.hh
@@ -143,9 +143,9 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (robot_ != castother.robot_) return false;
-    if (parentJoint_ != castother.parentJoint_) return false;
-    if (joint1_ != castother.joint1_) return false;
-    if (joint2_ != castother.joint2_) return false;
+    // Accessors of joints return new pointers: do not compare addresses.
+    if (Joint::index(joint1_) != Joint::index(castother.joint1_)) return false;
+    if (Joint::index(joint2_) != Joint::index(castother.joint2_)) return false;
     if (frame1_ != castother.frame1_) return false;
     if (frame2_ != castother.frame2_) return false;
     if (inConf_.rows() != castother.inConf_.rows()) return false;
-- 
2.43.0


From fbd603b20ca8a9aae0f4dbb6bfaad1a298add3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 31/66] fix: input variables of explicit constraint sets when
 input segments are unsorted

---
 src/explicit-constraint-set.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/explicit-constraint-set.cc b/src/explicit-constraint-set.cc
index 9fd9d9f..59ad972 100644
--- a/src/explicit-constraint-set.cc
+++ b/src/explicit-constraint-set.cc
@@ -214,6 +214,8 @@ size_type ExplicitConstraintSet::add(const ExplicitPtr_t& constraint) {
   notOutArgs_ = RowBlockIndices(
       BlockIndex::difference(BlockIndex::segment_t(0, nq), outArgs_.indices()));
 
+  // The input segments of the constraint may be in any order.
+  inArg.updateIndices<true, true, true>();
   BlockIndex::add(inArgs_.m_rows, inArg.rows());
   inArgs_ =
       RowBlockIndices(BlockIndex::difference(inArgs_.rows(), outArgs_.rows()));
@@ -225,8 +227,9 @@ size_type ExplicitConstraintSet::add(const ExplicitPtr_t& constraint) {
   notOutDers_ = ColBlockIndices(
       BlockIndex::difference(BlockIndex::segment_t(0, nv), outDers_.indices()));
 
-  BlockIndex::add(inDers_.m_cols,
-                  ColBlockIndices(constraint->inputVelocity()).cols());
+  ColBlockIndices inDer(constraint->inputVelocity());
+  inDer.updateIndices<true, true, true>();
+  BlockIndex::add(inDers_.m_cols, inDer.cols());
   inDers_ =
       ColBlockIndices(BlockIndex::difference(inDers_.cols(), outDers_.rows()));
   // should be sorted already
-- 
2.43.0


From b2b8fbc28db54f9fabd051d5eb06b5fb00f4ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 32/66] fix: partial and extra dof locked joints, printing of
 locked joints

---
 src/locked-joint.cc | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 84ca65a..e720720 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -126,20 +126,19 @@ LockedJoint::LockedJoint(const JointPtr_t& joint, const size_type index,
                          vectorIn_t value)
     : Explicit(joint->robot()->configSpace(),
                ConstantFunction::create(
-                   LiegroupElement(
-                       value, LiegroupSpace::Rn(joint->configSize() - index)),
-                   0, 0, "partial " + joint->name()),
+                   LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
+                   0, "partial " + joint->name()),
                segments_t(),  // input conf
-               segments_t(),  // input vel
-               {segment_t(joint->rankInConfiguration(),
-                          joint->configSize() - index)},  // output conf
-               {segment_t(joint->rankInVelocity(),
-                          joint->numberDof() - index)},  // output vel
-               ComparisonTypes_t(joint->numberDof() - index, Equality),
-               std::vector<bool>(joint->numberDof(), true)),
+               {segment_t(joint->rankInConfiguration() + index,
+                          value.size())},  // output conf
+               segments_t(),               // input vel
+               {segment_t(joint->rankInVelocity() + index,
+                          value.size())},  // output vel
+               ComparisonTypes_t(value.size(), Equality),
+               std::vector<bool>(value.size(), true)),
       jointName_("partial_" + joint->name()),
       joint_(joint),
-      configSpace_(LiegroupSpace::Rn(joint->configSize() - index)) {
+      configSpace_(LiegroupSpace::Rn(value.size())) {
   assert(HPP_DYNAMIC_PTR_CAST(explicit_::ImplicitFunction, functionPtr()));
   assert(joint->numberDof() == joint->configSize());
   // rightHandSide (value);
@@ -153,10 +152,10 @@ LockedJoint::LockedJoint(const DevicePtr_t& dev, const size_type index,
                    LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
                    0, dev->name() + "_extraDof" + numToStr(index)),
                segments_t(),  // input conf
-               segments_t(),  // input vel
                {segment_t(dev->configSize() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output conf
+               segments_t(),               // input vel
                {segment_t(dev->numberDof() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output vel
@@ -178,9 +177,9 @@ void LockedJoint::init(const LockedJointPtr_t& self) {
 }
 
 std::ostream& LockedJoint::print(std::ostream& os) const {
-  LiegroupElement v;
+  LiegroupElement v(explicitFunction()->outputSpace());
   vector_t empty;
-  function().value(v, empty);
+  explicitFunction()->value(v, empty);
   os << "Locked joint " << jointName_
      << ", value = " << pinocchio::displayConfig(v.vector())
      << ": rank in configuration = " << rankInConfiguration()
-- 
2.43.0


From b18b7eb62d1df473933a0fdad401bda409e167da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 33/66] fix: Jacobian of explicit contacts with floors on
 several joints

---
 src/explicit/convex-shape-contact.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/explicit/convex-shape-contact.cc b/src/explicit/convex-shape-contact.cc
index 6c9b57d..0ff2b98 100644
--- a/src/explicit/convex-shape-contact.cc
+++ b/src/explicit/convex-shape-contact.cc
@@ -165,8 +165,15 @@ void ConvexShapeContact::jacobianOutputValue(vectorIn_t qin,
   assert(!qinRelPose.hasNaN());
   LiegroupElement outputRelPose(LiegroupSpace::R3xSO3());
   relativePose->outputValue(outputRelPose, qinRelPose, relativePoseRhs);
+  // The input variables of this constraint are the union of those of the
+  // relative poses with each floor.
+  matrix_t J(jacobian.rows(), Eigen::BlockIndex::cardinal(
+                                  relativePose->inputVelocity()));
   relativePose->jacobianOutputValue(qinRelPose, outputRelPose, relativePoseRhs,
-                                    jacobian);
+                                    J);
+  matrix_t Jq(matrix_t::Zero(jacobian.rows(), f->inputDerivativeSize()));
+  Eigen::ColBlockIndices(relativePose->inputVelocity()).lview(Jq) = J;
+  jacobian = Eigen::ColBlockIndices(inputVelocity()).rview(Jq);
 }
 
 ConvexShapeContact::ConvexShapeContact(const std::string& name,
-- 
2.43.0


From c450005372079c3e42a753ec2296757b22fe8f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 34/66] fix: restore the output indices when loading a
 GenericTransformation

---
 src/generic-transformation.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generic-transformation.cc b/src/generic-transformation.cc
index 2bbdd13..4618878 100644
--- a/src/generic-transformation.cc
+++ b/src/generic-transformation.cc
@@ -287,6 +287,10 @@ void GenericTransformation<_Options>::serialize(Archive& ar,
   ar& BOOST_SERIALIZATION_NVP(m_);
   ar& boost::serialization::make_nvp("mask_",
                                      const_cast<std::vector<bool>&>(mask_));
+  // The indices of the output are computed from the mask.
+  if (!Archive::is_saving::value)
+    Vindices_ = indices<(bool)ComputePosition, (bool)ComputeOrientation,
+                        (bool)OutputR3xSO3>(mask_);
   ar& BOOST_SERIALIZATION_NVP(self_);
 }
 
-- 
2.43.0


From d1eefe03435fb67a246d29c346285f54661204bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 35/66] fix: restore the whole state of a solver when loading
 it from an archive

---
 .../hpp/constraints/solver/hierarchical-iterative.hh  | 11 ++++++++++-
 src/solver/by-substitution.cc                         |  4 +++-
 src/solver/hierarchical-iterative.cc                  |  5 ++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/solver/hierarchical-iterative.hh b/include/hpp/constraints/solver/hierarchical-iterative.hh
index fbf1767..6f07cd2 100644
--- a/include/hpp/constraints/solver/hierarchical-iterative.hh
+++ b/include/hpp/constraints/solver/hierarchical-iterative.hh
@@ -647,7 +647,16 @@ class HPP_CONSTRAINTS_DLLAPI HierarchicalIterative {
   friend struct lineSearch::Backtracking;
 
  protected:
-  HierarchicalIterative() {}
+  HierarchicalIterative()
+      : squaredErrorThreshold_(0),
+        inequalityThreshold_(0),
+        maxIterations_(0),
+        dimension_(0),
+        reducedDimension_(0),
+        lastIsOptional_(false),
+        solveLevelByLevel_(false),
+        sigma_(0),
+        squaredNorm_(0) {}
 
  private:
   HPP_SERIALIZABLE_SPLIT();
diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index b22a43b..8a8a86b 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -381,8 +381,10 @@ void BySubstitution::load(Archive& ar, const unsigned int version) {
   (void)version;
   LiegroupSpacePtr_t space;
   ar& BOOST_SERIALIZATION_NVP(space);
-  explicit_.init(space);
+  explicit_ = ExplicitConstraintSet(space);
+  JeExpanded_.resize(space->nv(), space->nv());
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
+  explicit_.errorThreshold(errorThreshold());
 }
 
 template <class Archive>
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 8915a02..697d9c1 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -928,13 +928,15 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(maxIterations_);
   ar& BOOST_SERIALIZATION_NVP(configSpace_);
   ar& BOOST_SERIALIZATION_NVP(lastIsOptional_);
+  ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
   ar& BOOST_SERIALIZATION_NVP(saturate_);
 
-  saturation_.resize(configSpace_->nq());
+  saturation_.resize(configSpace_->nv());
   qSat_.resize(configSpace_->nq());
   OM_.resize(configSpace_->nv());
   OP_.resize(configSpace_->nv());
   // Initialize freeVariables_ to all indices.
+  freeVariables_ = Indices_t();
   freeVariables_.addRow(0, configSpace_->nv());
 
   NumericalConstraints_t constraints;
@@ -956,6 +958,7 @@ void HierarchicalIterative::save(Archive& ar,
   ar& BOOST_SERIALIZATION_NVP(maxIterations_);
   ar& BOOST_SERIALIZATION_NVP(configSpace_);
   ar& BOOST_SERIALIZATION_NVP(lastIsOptional_);
+  ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
   ar& BOOST_SERIALIZATION_NVP(saturate_);
   ar& BOOST_SERIALIZATION_NVP(constraints_);
   std::vector<std::size_t> priorities(constraints_.size());
-- 
2.43.0


From a35e16402c9b840643bd1c7c466739eac74faded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:08 +0000
Subject: [PATCH 36/66] fix: archive the map of indices of saturation::Bounds

---
 src/solver/hierarchical-iterative.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 697d9c1..bbcc92a 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -1004,6 +1004,7 @@ void serialize(Archive& ar, saturation::Bounds& o, const unsigned int version) {
                                                          version);
   hpp::serialization::remove_duplicate::serialize_vector(ar, "ub", o.ub,
                                                          version);
+  ar& make_nvp("iq2iv", o.iq2iv_);
 }
 }  // namespace serialization
 }  // namespace boost
-- 
2.43.0


From 5c389cc06446e5d2845cf5bb6cf7601868cc2e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 37/66] fix: build sums of expressions of different types

---
 include/hpp/constraints/symbolic-calculus.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 7552cd0..035c838 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -438,8 +438,8 @@ class Sum : public CalculusBase<Sum<LhsValue, RhsValue> > {
   Sum(const CalculusBase<Sum>& other)
       : CalculusBase<Sum>(other), e_(static_cast<const Sum&>(other).e_) {}
 
-  Sum(const typename Traits<RhsValue>::Ptr_t& rhs,
-      const typename Traits<LhsValue>::Ptr_t& lhs)
+  Sum(const typename Traits<LhsValue>::Ptr_t& lhs,
+      const typename Traits<RhsValue>::Ptr_t& rhs)
       : e_(Expression<LhsValue, RhsValue>::create(lhs, rhs)) {}
 
   void impl_value(const ConfigurationIn_t arg) {
-- 
2.43.0


From ce04095885cf048987d446d390c16e1b3e38c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 38/66] fix: initialize validity flags of symbolic expressions

---
 include/hpp/constraints/symbolic-calculus.hh | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 035c838..72af208 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -189,13 +189,27 @@ template <class T, class ValueType = vector3_t,
           class JacobianType = JacobianMatrix, class CrossType = CrossMatrix>
 class CalculusBase : public CalculusBaseAbstract<ValueType, JacobianType> {
  public:
-  CalculusBase() : cross_(CrossMatrix::Zero()) {}
+  CalculusBase()
+      : cross_(CrossMatrix::Zero()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   CalculusBase(const ValueType& value, const JacobianType& jacobian)
-      : value_(value), jacobian_(jacobian), cross_(CrossMatrix::Zero()) {}
+      : value_(value),
+        jacobian_(jacobian),
+        cross_(CrossMatrix::Zero()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   CalculusBase(const CalculusBase& o)
-      : value_(o.value()), jacobian_(o.jacobian_), cross_(o.cross()) {}
+      : value_(o.value()),
+        jacobian_(o.jacobian_),
+        cross_(o.cross()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   inline const ValueType& value() const { return value_; }
   inline const JacobianType& jacobian() const { return jacobian_; }
-- 
2.43.0


From c6aa2f0ec4aa8446e2ed8b6f47f85b81709f6563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 39/66] fix: do not overwrite cross matrix when computing
 Jacobian of PointInJoint

---
 include/hpp/constraints/symbolic-calculus.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 72af208..1d6d299 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -642,23 +642,26 @@ class PointInJoint : public CalculusBase<PointInJoint> {
     this->jacobian_.noalias() = R * J.topRows<3>();
     if (!center_) {
       computeCrossRXl();
-      this->jacobian_.noalias() -= (this->cross_ * R) * J.bottomRows<3>();
+      this->jacobian_.noalias() -= (crossRXl_ * R) * J.bottomRows<3>();
     }
   }
   void computeCrossRXl() {
     if (joint_ == NULL) return;
     if (center_) {
-      this->cross_.setZero();
+      crossRXl_.setZero();
       return;
     }
     computeCrossMatrix(joint_->currentTransformation().rotation() * local_,
-                       this->cross_);
+                       crossRXl_);
   }
 
  protected:
   JointPtr_t joint_;
   vector3_t local_;
   bool center_;
+  // Cross product matrix of the vector from the joint center to the point.
+  // Not to be mistaken for cross_, that is relative to the value of the point.
+  CrossMatrix crossRXl_;
 
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From ef91bdd0ef511287113a34133dfc2a62ff676abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 40/66] fix: Jacobian of a rotated symbolic expression

---
 include/hpp/constraints/symbolic-calculus.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 1d6d299..ed0ff09 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -567,8 +567,8 @@ class RotationMultiply : public CalculusBase<RotationMultiply<RhsValue> > {
           R.transpose() *
           ((e_->rhs_->cross() * R) * J.bottomRows<3>() + e_->rhs_->jacobian());
     else
-      this->jacobian_ = R * ((e_->rhs_->cross() * R) * J.bottomRows<3>() +
-                             e_->rhs_->jacobian());
+      this->jacobian_ = R * (e_->rhs_->jacobian() -
+                             e_->rhs_->cross() * J.bottomRows<3>());
   }
   void invalidate() {
     Parent_t::invalidate();
-- 
2.43.0


From 475b75cfc5def8cf592aefccd44857b45a3e84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 41/66] fix: cross product of the center of mass in symbolic
 expressions

---
 include/hpp/constraints/symbolic-calculus.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index ed0ff09..edf07ec 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -232,7 +232,7 @@ class CalculusBase : public CalculusBaseAbstract<ValueType, JacobianType> {
   void computeCrossValue(const ConfigurationIn_t arg) {
     if (cValid_) return;
     computeValue(arg);
-    computeCrossMatrix(value_, cross_);
+    computeCrossMatrix(static_cast<T*>(this)->value(), cross_);
     cValid_ = true;
   }
 
-- 
2.43.0


From 8bb923ab7637a4f6ce02946ddb0aaae2c608b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 42/66] fix: output size of symbolic functions with a mask

---
 include/hpp/constraints/symbolic-function.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/symbolic-function.hh b/include/hpp/constraints/symbolic-function.hh
index e0ea622..1c6cb3d 100644
--- a/include/hpp/constraints/symbolic-function.hh
+++ b/include/hpp/constraints/symbolic-function.hh
@@ -30,6 +30,7 @@
 #define HPP_CONSTRAINTS_SYMBOLIC_FUNCTION_HH
 
 #include <hpp/constraints/config.hh>
+#include <algorithm>
 #include <hpp/constraints/differentiable-function.hh>
 #include <hpp/constraints/fwd.hh>
 #include <hpp/constraints/symbolic-calculus.hh>
@@ -85,7 +86,9 @@ class HPP_CONSTRAINTS_DLLAPI SymbolicFunction : public DifferentiableFunction {
                    const typename Traits<Expression>::Ptr_t expr,
                    std::vector<bool> mask)
       : DifferentiableFunction(robot->configSize(), robot->numberDof(),
-                               LiegroupSpace::Rn(expr->value().size()), name),
+                               LiegroupSpace::Rn(
+                                   std::count(mask.begin(), mask.end(), true)),
+                               name),
         robot_(robot),
         expr_(expr),
         mask_(mask) {
-- 
2.43.0


From 0f487629ca86766c18cdff6516085cb0c43270fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 43/66] fix: overlap of a segment included in another one

---
 src/matrix-view.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index 21afd39..c571301 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -76,9 +76,7 @@ bool BlockIndex::overlap(const segment_t& a, const segment_t& b) {
   size_type aend = a.first + a.second;
   size_type bend = b.first + b.second;
 
-  if (a.first <= b.first && b.first < aend) return true;
-  if (a.first < bend && bend <= aend) return true;
-  return false;
+  return a.first < bend && b.first < aend;
 }
 
 size_type BlockIndex::cardinal(const segments_t& a) {
-- 
2.43.0


From b9a504358a2b32ab80d0af327a1377935b4c0d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 44/66] fix: extract an empty set of segments

---
 src/matrix-view.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index c571301..6be3a76 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -209,7 +209,7 @@ BlockIndex::segments_t BlockIndex::extract(const segments_t& segments,
                                            size_type cardinal) {
   assert(start >= 0);
   assert(cardinal >= 0);
-  assert(segments[0].first >= 0);
+  assert(segments.empty() || segments[0].first >= 0);
   assert(start + cardinal <= BlockIndex::cardinal(segments));
   segments_t result;
   size_type remainingToStart = start;
@@ -248,8 +248,7 @@ BlockIndex::segments_t BlockIndex::extract(const segments_t& segments,
       }
     }
   }
-  assert(false && "Failed to extract segments_t");
-  // Avoid compilation warning
+  assert(cardinal == 0 && "Failed to extract segments_t");
   return segments_t();
 }
 }  // namespace Eigen
-- 
2.43.0


From 11f4fad1f7cbf68bec18d258569090d41f7284c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 45/66] fix: indices of the right operand in operations between
 matrix views

---
 include/hpp/constraints/impl/matrix-view-operation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/impl/matrix-view-operation.hh b/include/hpp/constraints/impl/matrix-view-operation.hh
index 22553dd..4a66b90 100644
--- a/include/hpp/constraints/impl/matrix-view-operation.hh
+++ b/include/hpp/constraints/impl/matrix-view-operation.hh
@@ -215,7 +215,7 @@ HPP_EIGEN_SPECIALIZE_CwiseBinaryOpImpl(HPP_EIGEN_LHS_TPL, HPP_EIGEN_LHS_TYPE,
   typename Rhs_t::block_iterator rblock(d.rhs());
   while (lblock.valid()) {
     BlockLhs lhs = d.lhs()._block(lblock);
-    BlockRhs rhs = d.rhs()._block(lblock);
+    BlockRhs rhs = d.rhs()._block(rblock);
     assert(lblock.rs() == rblock.rs() && lblock.cs() == rblock.cs());
     assert(lblock.ro() == rblock.ro() && lblock.co() == rblock.co());
     other.derived().block(rblock.ro(), rblock.co(), rblock.rs(), rblock.cs()) =
-- 
2.43.0


From 698b6f3bfbb86a90180dc72e08e55621fa1b0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 46/66] fix: resize and accumulate when assigning an operation
 with a matrix view

---
 .../constraints/impl/matrix-view-operation.hh    | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/impl/matrix-view-operation.hh b/include/hpp/constraints/impl/matrix-view-operation.hh
index 4a66b90..92c214a 100644
--- a/include/hpp/constraints/impl/matrix-view-operation.hh
+++ b/include/hpp/constraints/impl/matrix-view-operation.hh
@@ -76,7 +76,21 @@ namespace Eigen {
                     Functor, Dense2Dense, Scalar> {                          \
     typedef CwiseBinaryOp<BinaryOp, LHS_TYPE, RHS_TYPE> CwiseDerived;        \
     static EIGEN_STRONG_INLINE void run(Derived& dst, const CwiseDerived& o, \
-                                        const Functor&) {                    \
+                                        const Functor& func) {               \
+      /* Compound assignment (+=, -=...) */                                  \
+      const typename CwiseDerived::PlainObject tmp(o);                       \
+      call_assignment_no_alias(dst, tmp, func);                              \
+    }                                                                        \
+  };                                                                         \
+  template <typename Derived, typename BinaryOp, LHS_TPL, RHS_TPL,           \
+            typename DstScalar, typename SrcScalar, typename Scalar>         \
+  struct Assignment<Derived, CwiseBinaryOp<BinaryOp, LHS_TYPE, RHS_TYPE>,    \
+                    assign_op<DstScalar, SrcScalar>, Dense2Dense, Scalar> {  \
+    typedef CwiseBinaryOp<BinaryOp, LHS_TYPE, RHS_TYPE> CwiseDerived;        \
+    static EIGEN_STRONG_INLINE void run(                                     \
+        Derived& dst, const CwiseDerived& o,                                 \
+        const assign_op<DstScalar, SrcScalar>&) {                            \
+      dst.resize(o.rows(), o.cols());                                        \
       o.evalTo(dst);                                                         \
     }                                                                        \
   };
-- 
2.43.0


From 16f38fa225ca3bbca362d03c36868e4af8be512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 47/66] fix: logarithm of rotations of angle close to pi

---
 include/hpp/constraints/tools.hh | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/tools.hh b/include/hpp/constraints/tools.hh
index 45d472b..53378c0 100644
--- a/include/hpp/constraints/tools.hh
+++ b/include/hpp/constraints/tools.hh
@@ -86,9 +86,21 @@ inline void logSO3(const matrix3_t& R, value_type& theta,
     const value_type tmp0 = (R(0, 0) + cphi) * beta;
     const value_type tmp1 = (R(1, 1) + cphi) * beta;
     const value_type tmp2 = (R(2, 2) + cphi) * beta;
-    value(0) = (R(2, 1) > R(1, 2) ? 1 : -1) * (tmp0 > 0 ? sqrt(tmp0) : 0);
-    value(1) = (R(0, 2) > R(2, 0) ? 1 : -1) * (tmp1 > 0 ? sqrt(tmp1) : 0);
-    value(2) = (R(1, 0) > R(0, 1) ? 1 : -1) * (tmp2 > 0 ? sqrt(tmp2) : 0);
+    const vector3_t absr(tmp0 > 0 ? sqrt(tmp0) : 0, tmp1 > 0 ? sqrt(tmp1) : 0,
+                         tmp2 > 0 ? sqrt(tmp2) : 0);
+    // The antisymmetric part of R vanishes when theta tends toward pi. It is
+    // only used to get the sign of the biggest component. The signs of the
+    // others come from the symmetric part: R(i,j) + R(j,i) has the sign of
+    // r(i) r(j).
+    const vector3_t anti(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0),
+                         R(1, 0) - R(0, 1));
+    vector3_t::Index k;
+    absr.maxCoeff(&k);
+    for (vector3_t::Index i = 0; i < 3; ++i) {
+      bool positive = anti(k) > 0;
+      if (i != k && R(i, k) + R(k, i) < 0) positive = !positive;
+      value(i) = positive ? absr(i) : -absr(i);
+    }
   }
 }
 
-- 
2.43.0


From d4403fa459518e05c7208306a04958279fa66c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 48/66] fix: precision of JlogSO3 for small angles

---
 include/hpp/constraints/tools.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/tools.hh b/include/hpp/constraints/tools.hh
index 53378c0..e7052b7 100644
--- a/include/hpp/constraints/tools.hh
+++ b/include/hpp/constraints/tools.hh
@@ -144,8 +144,8 @@ void JlogSO3(const value_type& theta, const Eigen::MatrixBase<Derived>& log,
     Jlog.setIdentity();
   else {
     // Jlog = alpha I
-    const value_type ct = cos(theta), st = sin(theta);
-    const value_type st_1mct = st / (1 - ct);
+    // sin(theta) / (1 - cos(theta)), without cancellation for small angles
+    const value_type st_1mct = 1 / tan(theta / 2);
 
     Jlog.setZero();
     Jlog.diagonal().setConstant(theta * st_1mct);
-- 
2.43.0


From af7a817c57783ba9e88c35b7861966c90ee9e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:36 +0000
Subject: [PATCH 49/66] fix: inequality constraints do not fix the relative
 pose of joints

Implicit::doesConstrainRelPoseBetween ignored the comparison types and
declared that a 6D constraint with inequalities fully constrains the
relative pose of the joints.
---
 src/implicit.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/implicit.cc b/src/implicit.cc
index 16a46fe..087a5af 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -232,8 +232,13 @@ std::pair<JointConstPtr_t, JointConstPtr_t>
 Implicit::doesConstrainRelPoseBetween(DeviceConstPtr_t robot) const {
   std::pair<JointConstPtr_t, JointConstPtr_t> joints =
       function_->dependsOnRelPoseBetween(robot);
-  // check that the constraint fully constrains the relative pose
-  if (function_->outputSpace()->nv() != 6 || !checkAllRowsActive()) {
+  // check that the constraint fully constrains the relative pose: all the
+  // components are active and none of them is only bounded by an inequality.
+  bool onlyEqualities = true;
+  for (const ComparisonType& c : comparison_)
+    if (c != Equality && c != EqualToZero) onlyEqualities = false;
+  if (function_->outputSpace()->nv() != 6 || !checkAllRowsActive() ||
+      !onlyEqualities) {
     hppDout(
         info, "Constraint "
                   << function_->name()
-- 
2.43.0


From 8595b3c31f111588ded6fd84066805e7c5b4238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 50/66] fix: evaluate surface contact functions concurrently

The selected pair of surfaces was stored in a model shared by all the
evaluations of the function. Concurrent evaluations, each with its own
DeviceData, overwrote each other's model.
---
 .../hpp/constraints/convex-shape-contact.hh   |  2 +-
 src/convex-shape-contact.cc                   | 32 +++++++++++--------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/hpp/constraints/convex-shape-contact.hh b/include/hpp/constraints/convex-shape-contact.hh
index d64894b..f599da8 100644
--- a/include/hpp/constraints/convex-shape-contact.hh
+++ b/include/hpp/constraints/convex-shape-contact.hh
@@ -244,7 +244,7 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShapeContact
                           const ConvexShape& floor) const;
 
   DevicePtr_t robot_;
-  mutable GenericTransformationModel<true> relativeTransformationModel_;
+  GenericTransformationModel<true> relativeTransformationModel_;
 
   ConvexShapes_t objectConvexShapes_;
   ConvexShapes_t floorConvexShapes_;
diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index f402dbf..67a4eb4 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -174,7 +174,9 @@ void ConvexShapeContact::computeInternalValue(const ConfigurationIn_t& argument,
                                               vector6_t& value,
                                               std::size_t& iobject,
                                               std::size_t& ifloor) const {
-  GTDataV<true, true, true, false> data(relativeTransformationModel_, robot_);
+  // Local copy since the function may be evaluated by several threads
+  GenericTransformationModel<true> model(relativeTransformationModel_);
+  GTDataV<true, true, true, false> data(model, robot_);
 
   data.device.currentConfiguration(argument);
   data.device.computeForwardKinematics(pinocchio::JOINT_POSITION);
@@ -184,12 +186,12 @@ void ConvexShapeContact::computeInternalValue(const ConfigurationIn_t& argument,
       floor(floorConvexShapes_[ifloor]);
   type = contactType(object, floor);
 
-  relativeTransformationModel_.joint1 = floor.joint_;
-  relativeTransformationModel_.joint2 = object.joint_;
-  relativeTransformationModel_.F1inJ1 = floor.positionInJoint();
-  relativeTransformationModel_.F2inJ2 = object.positionInJoint();
-  relativeTransformationModel_.checkIsIdentity1();
-  relativeTransformationModel_.checkIsIdentity2();
+  model.joint1 = floor.joint_;
+  model.joint2 = object.joint_;
+  model.F1inJ1 = floor.positionInJoint();
+  model.F2inJ2 = object.positionInJoint();
+  model.checkIsIdentity1();
+  model.checkIsIdentity2();
 
   compute<true, true, true, false>::error(data);
   value = data.value;
@@ -233,7 +235,9 @@ void ConvexShapeContact::computeInternalJacobian(
     matrix_t& jacobian) const {
   static std::vector<bool> mask(6, true);
 
-  GTDataJ<true, true, true, false> data(relativeTransformationModel_, robot_);
+  // Local copy since the function may be evaluated by several threads
+  GenericTransformationModel<true> model(relativeTransformationModel_);
+  GTDataJ<true, true, true, false> data(model, robot_);
 
   data.device.currentConfiguration(argument);
   data.device.computeForwardKinematics(pinocchio::JOINT_POSITION |
@@ -245,12 +249,12 @@ void ConvexShapeContact::computeInternalJacobian(
       floor(floorConvexShapes_[ifloor]);
   type = contactType(object, floor);
 
-  relativeTransformationModel_.joint1 = floor.joint_;
-  relativeTransformationModel_.joint2 = object.joint_;
-  relativeTransformationModel_.F1inJ1 = floor.positionInJoint();
-  relativeTransformationModel_.F2inJ2 = object.positionInJoint();
-  relativeTransformationModel_.checkIsIdentity1();
-  relativeTransformationModel_.checkIsIdentity2();
+  model.joint1 = floor.joint_;
+  model.joint2 = object.joint_;
+  model.F1inJ1 = floor.positionInJoint();
+  model.F2inJ2 = object.positionInJoint();
+  model.checkIsIdentity1();
+  model.checkIsIdentity2();
   data.cross2.setZero();
 
   compute<true, true, true, false>::error(data);
-- 
2.43.0


From 907095b9454bce873c565f3c20ed81f9b0fa4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:45 +0000
Subject: [PATCH 51/66] fix: evaluate the Jacobian of RelativeCom concurrently

The intermediate Jacobian was stored in a buffer shared by all the
evaluations of the function.
---
 include/hpp/constraints/relative-com.hh |  1 -
 src/relative-com.cc                     | 12 +++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index f7428b1..0594fd6 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -124,7 +124,6 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
   vector3_t reference_;
   std::vector<bool> mask_;
   bool nominalCase_;
-  mutable ComJacobian_t jacobian_;
 
   RelativeCom() {}
   HPP_SERIALIZABLE();
diff --git a/src/relative-com.cc b/src/relative-com.cc
index 9d55649..de6a9bf 100644
--- a/src/relative-com.cc
+++ b/src/relative-com.cc
@@ -95,10 +95,8 @@ RelativeCom::RelativeCom(const DevicePtr_t& robot,
       joint_(joint),
       reference_(reference),
       mask_(mask),
-      nominalCase_(false),
-      jacobian_(3, robot->numberDof() - robot->extraConfigSpace().dimension()) {
+      nominalCase_(false) {
   if (mask[0] && mask[1] && mask[2]) nominalCase_ = true;
-  jacobian_.setZero();
 }
 
 std::ostream& RelativeCom::print(std::ostream& o) const {
@@ -151,19 +149,19 @@ void RelativeCom::impl_jacobian(matrixOut_t jacobian,
   jacobian.rightCols(jacobian.cols() - Jjoint.cols()).setZero();
   // Left part
   // J = 0RTj ( Jcom + [ x - 0tj ]x 0Rj jJwj - 0Rj jJtj)
-  jacobian_ = R.transpose() * Jcom;
-  jacobian_.noalias() +=
+  ComJacobian_t J(R.transpose() * Jcom);
+  J.noalias() +=
       (R.transpose() * R.colwise().cross(t - x)) * Jjoint.bottomRows<3>();
 
   if (nominalCase_) {
     jacobian.leftCols(Jjoint.cols()).noalias() =
-        jacobian_ - Jjoint.topRows<3>();
+        J - Jjoint.topRows<3>();
   } else {
     size_t index = 0;
     for (size_t i = 0; i < 3; ++i)
       if (mask_[i]) {
         jacobian.row(index).head(Jjoint.cols()) =
-            jacobian_.row(i) - Jjoint.row(i);
+            J.row(i) - Jjoint.row(i);
         index++;
       }
   }
-- 
2.43.0


From 48acccfb5e8d75dd45566ce9173feb3adac5a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 52/66] fix: RelativeCom functions with different references
 differ

---
 include/hpp/constraints/relative-com.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index 0594fd6..f5136c9 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -111,6 +111,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
     if (robot_ != castother.robot_) return false;
     if (comc_ != castother.comc_) return false;
     if (joint_ != castother.joint_) return false;
+    if (reference_ != castother.reference_) return false;
     if (mask_ != castother.mask_) return false;
     if (nominalCase_ != castother.nominalCase_) return false;
 
-- 
2.43.0


From 3fa6ef07c8df405836e0ce9d655278b32231fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 53/66] fix: OfParameterSubset sets all the columns of its
 Jacobian

---
 include/hpp/constraints/function/of-parameter-subset.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/function/of-parameter-subset.hh b/include/hpp/constraints/function/of-parameter-subset.hh
index aac7a98..ce1b9ba 100644
--- a/include/hpp/constraints/function/of-parameter-subset.hh
+++ b/include/hpp/constraints/function/of-parameter-subset.hh
@@ -83,6 +83,8 @@ class HPP_CONSTRAINTS_DLLAPI OfParameterSubset : public DifferentiableFunction {
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.leftCols(sd_.first).setZero();
+    J.rightCols(J.cols() - sd_.first - sd_.second).setZero();
     g_->jacobian(J.middleCols(sd_.first, sd_.second),
                  arg.segment(sa_.first, sa_.second));
   }
-- 
2.43.0


From b443eb3e0a043d3c5a4cdccbfc4adbba1be68b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 54/66] fix: extracted functions with different intervals
 differ

---
 src/extracted-function.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index a119dc7..70e0da3 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -74,6 +74,19 @@ class ExtractedFunction : public DifferentiableFunction {
     }
   }
 
+ protected:
+  bool isEqual(const DifferentiableFunction& other) const {
+    const ExtractedFunction& castother =
+        dynamic_cast<const ExtractedFunction&>(other);
+    if (!DifferentiableFunction::isEqual(other)) return false;
+
+    if (reversed_ != castother.reversed_) return false;
+    if (t1_ != castother.t1_) return false;
+    if (*original_ != *castother.original_) return false;
+
+    return true;
+  }
+
  private:
   ExtractedFunction(const DifferentiableFunctionPtr_t& original,
                     interval_t paramRange)
-- 
2.43.0


From 71292b6c767f9c850041d3937c19829c94f5cbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 55/66] fix: Jacobian and active parameters of
 function::Difference

---
 include/hpp/constraints/function/difference.hh | 18 +++++++++++++-----
 src/function/difference.cc                     |  2 ++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/hpp/constraints/function/difference.hh b/include/hpp/constraints/function/difference.hh
index 1520a8a..2f88c34 100644
--- a/include/hpp/constraints/function/difference.hh
+++ b/include/hpp/constraints/function/difference.hh
@@ -67,11 +67,19 @@ class HPP_CONSTRAINTS_LOCAL Difference
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
-    inner_->jacobian(J.middleCols(lsd_.first, lsd_.second),
-                     arg.segment(lsa_.first, lsa_.second));
-    inner_->jacobian(J.middleCols(rsd_.first, rsd_.second),
-                     arg.segment(rsa_.first, rsa_.second));
-    J.middleCols(rsd_.first, rsd_.second) *= -1;
+    const LiegroupSpacePtr_t& space(inner_->outputSpace());
+    inner_->value(l_, arg.segment(lsa_.first, lsa_.second));
+    inner_->value(r_, arg.segment(rsa_.first, rsa_.second));
+    matrix_t Jl(J.rows(), lsd_.second), Jr(J.rows(), rsd_.second);
+    inner_->jacobian(Jl, arg.segment(lsa_.first, lsa_.second));
+    inner_->jacobian(Jr, arg.segment(rsa_.first, rsa_.second));
+    space->dDifference_dq1<pinocchio::DerivativeTimesInput>(
+        r_.vector(), l_.vector(), Jl);
+    space->dDifference_dq0<pinocchio::DerivativeTimesInput>(
+        r_.vector(), l_.vector(), Jr);
+    J.setZero();
+    J.middleCols(lsd_.first, lsd_.second) += Jl;
+    J.middleCols(rsd_.first, rsd_.second) += Jr;
   }
 
   bool isEqual(const DifferentiableFunction& other) const {
diff --git a/src/function/difference.cc b/src/function/difference.cc
index 460b1da..75dc958 100644
--- a/src/function/difference.cc
+++ b/src/function/difference.cc
@@ -58,12 +58,14 @@ Difference::Difference(const DifferentiableFunctionPtr_t& inner,
   activeParameters_.segment(lsa_.first, lsa_.second) =
       inner_->activeParameters();
   activeParameters_.segment(rsa_.first, rsa_.second) =
+      activeParameters_.segment(rsa_.first, rsa_.second) ||
       inner_->activeParameters();
 
   activeDerivativeParameters_.setConstant(false);
   activeDerivativeParameters_.segment(lsd_.first, lsd_.second) =
       inner_->activeDerivativeParameters();
   activeDerivativeParameters_.segment(rsd_.first, rsd_.second) =
+      activeDerivativeParameters_.segment(rsd_.first, rsd_.second) ||
       inner_->activeDerivativeParameters();
 }
 
-- 
2.43.0


From 4ac2674f4b763172ce021128534a9db26b116539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 56/66] fix: finite differences at coordinates close to zero

---
 src/differentiable-function.cc | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/differentiable-function.cc b/src/differentiable-function.cc
index 28f3b9b..e945792 100644
--- a/src/differentiable-function.cc
+++ b/src/differentiable-function.cc
@@ -54,12 +54,8 @@ struct FiniteDiffRobotOp {
 
   inline value_type step(const size_type& i, const vector_t& x) const {
     assert(i >= 0);
-    value_type r = std::abs(x[i]);
-
-    if (r == 0)
-      return epsilon;
-    else
-      return epsilon * r;
+    // Steps proportional to a very small coordinate are lost in rounding errors
+    return epsilon * std::max(value_type(1), std::abs(x[i]));
   }
 
   template <bool forward>
@@ -95,12 +91,8 @@ struct FiniteDiffVectorSpaceOp {
   FiniteDiffVectorSpaceOp(const value_type& epsilon) : epsilon(epsilon) {}
 
   inline value_type step(const size_type i, const vector_t& x) const {
-    const value_type r = std::abs(x[i]);
-
-    if (r == 0)
-      return epsilon;
-    else
-      return epsilon * r;
+    // Steps proportional to a very small coordinate are lost in rounding errors
+    return epsilon * std::max(value_type(1), std::abs(x[i]));
   }
 
   template <bool forward>
-- 
2.43.0


From 1c0b72d0a513bd56b1788ca5b4ea2286441c87cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 57/66] fix: symbolic expressions do not own themselves

---
 include/hpp/constraints/symbolic-calculus.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index edf07ec..285136a 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -30,7 +30,7 @@
 #define HPP_CONSTRAINTS_SYMBOLIC_CALCULUS_HH
 
 #define HPP_CONSTRAINTS_CB_REF shared_ptr
-#define HPP_CONSTRAINTS_CB_WKREF shared_ptr
+#define HPP_CONSTRAINTS_CB_WKREF weak_ptr
 
 #define HPP_CONSTRAINTS_CB_DEFINE_OPERATOR1(op, InType, OutType)       \
   template <typename RhsType>                                          \
-- 
2.43.0


From af09c6419e04b66e44bebe9690bae9d796feb7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 58/66] fix: constraints with different masks differ

---
 src/implicit.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index 087a5af..3b9918b 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -181,6 +181,7 @@ Implicit::Implicit(const Implicit& other)
 bool Implicit::isEqual(const Implicit& other, bool swapAndTest) const {
   if (comparison_ != other.comparison_) return false;
   if (rhs_.size() != other.rhs_.size()) return false;
+  if (mask_ != other.mask_) return false;
   if (function_ != other.function_ && *function_ != *other.function_)
     return false;
   if (swapAndTest) return other.isEqual(*this, false);
-- 
2.43.0


From 457c2d5ac97b88cc3c33312ef08d829400aede53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 59/66] fix: parameter size of sets of constraints

---
 include/hpp/constraints/implicit-constraint-set.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/implicit-constraint-set.hh b/include/hpp/constraints/implicit-constraint-set.hh
index 553c7d3..60b59e4 100644
--- a/include/hpp/constraints/implicit-constraint-set.hh
+++ b/include/hpp/constraints/implicit-constraint-set.hh
@@ -72,6 +72,7 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
     // Handle mask
     mask_.insert(mask_.end(), constraint->mask_.begin(),
                  constraint->mask_.end());
+    parameterSize_ += constraint->parameterSize();
     // Recompute active rows
     computeActiveRows();
     computeIndices();
-- 
2.43.0


From 3e72e1eb361b6612819e9a129b37161fa45b198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 60/66] fix: copy of sets of constraints

---
 .../hpp/constraints/implicit-constraint-set.hh   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/implicit-constraint-set.hh b/include/hpp/constraints/implicit-constraint-set.hh
index 60b59e4..bf5cd64 100644
--- a/include/hpp/constraints/implicit-constraint-set.hh
+++ b/include/hpp/constraints/implicit-constraint-set.hh
@@ -50,7 +50,21 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
   ///
   /// \param name the name of the constraints,
   static ImplicitConstraintSetPtr_t create(const std::string& name) {
-    return ImplicitConstraintSetPtr_t(new ImplicitConstraintSet(name));
+    ImplicitConstraintSetPtr_t shPtr(new ImplicitConstraintSet(name));
+    shPtr->init(shPtr);
+    return shPtr;
+  }
+
+  /// Copy object and return shared pointer to copy
+  ///
+  /// The constraints of the set are copied as well.
+  virtual ImplicitPtr_t copy() const {
+    ImplicitConstraintSetPtr_t shPtr(create(function_->name()));
+    for (const ImplicitPtr_t& constraint : constraints_)
+      shPtr->add(constraint->copy());
+    shPtr->comparisonType(comparisonType());
+    shPtr->rightHandSideFunction(rightHandSideFunction());
+    return shPtr;
   }
 
   virtual ~ImplicitConstraintSet() {}
-- 
2.43.0


From c86fd111e44a861227387e008e5a4e8bc446a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 61/66] fix: closest point of a segment

---
 include/hpp/constraints/convex-shape.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index f74bd65..18a25ef 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -50,7 +50,7 @@ namespace constraints {
 /// closest point
 inline void closestPointToSegment(const vector3_t& P, const vector3_t& A,
                                   const vector3_t& v, vector3_t& B) {
-  vector3_t w = A - P;
+  vector3_t w = P - A;
   value_type c1, c2;
   c1 = v.dot(w);
   c2 = v.dot(v);
-- 
2.43.0


From 565c9834a216c9eff40b019bae70ecbc74a2e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 62/66] fix: aligned position of convex shapes is a rigid
 transformation

---
 include/hpp/constraints/convex-shape.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index 18a25ef..c9dae74 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -363,7 +363,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConvexShapeData {
                                             vector3_t yaxis) const {
     assert(cs.shapeDimension_ > 2);
     // Project vector onto the plane
-    yaxis = oMj_.actInv(yaxis);
+    yaxis = oMj_.rotation().transpose() * yaxis;
     vector3_t yproj = yaxis - yaxis.dot(cs.N_) * cs.N_;
     if (yproj.isZero())
       return cs.MinJoint_;
@@ -371,8 +371,9 @@ struct HPP_CONSTRAINTS_DLLAPI ConvexShapeData {
       Transform3s M;
       M.translation() = cs.C_;
       M.rotation().col(0) = cs.N_;
-      M.rotation().col(1) = yaxis;
-      M.rotation().col(2) = cs.N_.cross(yaxis);
+      yproj.normalize();
+      M.rotation().col(1) = yproj;
+      M.rotation().col(2) = cs.N_.cross(yproj);
       return M;
     }
   }
-- 
2.43.0


From 0019841661243c6205507c2e6ec1dc8152284e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 63/66] fix: distance to convex shapes with two points

---
 include/hpp/constraints/convex-shape.hh | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index c9dae74..3c3cd49 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -133,6 +133,12 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
   ///        and expressed in the local frame.
   inline value_type distanceLocal(const vector3_t& a) const {
     assert(shapeDimension_ > 1);
+    if (shapeDimension_ == 2) {
+      // A segment has no interior.
+      vector3_t b;
+      closestPointToSegment(a, Pts_[0], Pts_[1] - Pts_[0], b);
+      return (a - b).norm();
+    }
     const value_type inf = std::numeric_limits<value_type>::infinity();
     value_type minPosDist = inf, maxNegDist = -inf;
     bool outside = false;
@@ -241,15 +247,15 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
         // The transformation will be (N_, Ns_[0], Us_[0])
         // Fill vectors so as to be consistent
         N_ = vector3_t(1, 0, 0);
-        Ns_.push_back(vector3_t(0, 1, 0));
-        Us_.push_back(vector3_t(0, 0, 1));
+        Ns_.assign(1, vector3_t(0, 1, 0));
+        Us_.assign(1, vector3_t(0, 0, 1));
         break;
       case 2:
         Ls_ = vector_t(1);
         C_ = (Pts_[0] + Pts_[1]) / 2;
         // The transformation will be (N_, Ns_[0], Us_[0])
         // Fill vectors so as to be consistent
-        Us_.push_back(Pts_[1] - Pts_[0]);
+        Us_.assign(1, Pts_[1] - Pts_[0]);
         Ls_[0] = Us_[0].norm();
         Us_[0].normalize();
         if (Us_[0][0] != 0)
@@ -257,7 +263,7 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
         else
           N_ = vector3_t(0, -Us_[0][2], Us_[0][1]);
         N_.normalize();
-        Ns_.push_back(Us_[0].cross(N_));
+        Ns_.assign(1, Us_[0].cross(N_));
         Ns_[0].normalize();  // Should be unnecessary
         break;
       default:
-- 
2.43.0


From 229783e484397dbc5b39db7ddfe2abf574bad41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 64/66] fix: assignment of constraints

---
 include/hpp/constraints/implicit.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/implicit.hh b/include/hpp/constraints/implicit.hh
index 5d0d821..3c0bc7d 100644
--- a/include/hpp/constraints/implicit.hh
+++ b/include/hpp/constraints/implicit.hh
@@ -132,6 +132,8 @@ class HPP_CONSTRAINTS_DLLAPI Implicit {
     inactiveRows_ = other.inactiveRows_;
     inequalityIndices_ = other.inequalityIndices_;
     equalityIndices_ = other.equalityIndices_;
+    output_ = other.output_;
+    logOutput_ = other.logOutput_;
     return *this;
   }
   /// Copy object and return shared pointer to copy
-- 
2.43.0


From 0dcef064fb8a02078e81b8df95c85e25f2cd87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 65/66] fix: explicit variables follow projected velocities

---
 src/solver/by-substitution.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 8a8a86b..bcd8ed9 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -252,33 +252,35 @@ void BySubstitution::computeActiveRowsOfJ(std::size_t iStack) {
 void BySubstitution::projectVectorOnKernel(ConfigurationIn_t arg,
                                            vectorIn_t darg,
                                            vectorOut_t result) const {
-  if (constraints_.empty() || reducedDimension() == 0) {
-    result = darg;
-    return;
-  }
   computeValue<true>(arg);
   updateJacobian(arg);
-  getReducedJacobian(reducedJ_);
-
-  svd_.compute(reducedJ_);
 
-  // TODO the output of explicit solver should be set to zero ?
   dqSmall_ = freeVariables_.rview(darg);
 
-  size_type rank = svd_.rank();
-  vector_t tmp(getV1(svd_, rank).adjoint() * dqSmall_);
-  dqSmall_.noalias() -= getV1(svd_, rank) * tmp;
+  if (reducedDimension() > 0) {
+    getReducedJacobian(reducedJ_);
+
+    svd_.compute(reducedJ_);
+
+    size_type rank = svd_.rank();
+    vector_t tmp(getV1(svd_, rank).adjoint() * dqSmall_);
+    dqSmall_.noalias() -= getV1(svd_, rank) * tmp;
+  }
 
-  // Otherwise two uninitialized values may sum up to NaN
+  // Variables that are neither free nor output of an explicit constraint do not
+  // move.
   result.setZero();
   freeVariables_.lview(result) = dqSmall_;
+  // The output variables of the explicit constraints follow the free variables.
+  if (explicit_.inDers().nbCols() > 0)
+    explicit_.outDers().lview(result) = Je_ * dqSmall_;
 }
 
 void BySubstitution::projectOnKernel(ConfigurationIn_t from,
                                      ConfigurationIn_t to,
                                      ConfigurationOut_t result) {
-  // TODO equivalent
-  if (constraints_.empty()) {
+  if (constraints_.empty() &&
+      freeVariables_.nbIndices() == configSpace_->nv()) {
     result = to;
     return;
   }
-- 
2.43.0


From 6ab8b862033bc7cc7f7d0b846678a5711fd5652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 66/66] fix: reference of transformation functions

---
 include/hpp/constraints/generic-transformation.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/generic-transformation.hh b/include/hpp/constraints/generic-transformation.hh
index 3b4124b..d9054e6 100644
--- a/include/hpp/constraints/generic-transformation.hh
+++ b/include/hpp/constraints/generic-transformation.hh
@@ -259,8 +259,10 @@ class HPP_CONSTRAINTS_DLLAPI GenericTransformation
     m_.checkIsIdentity2();
   }
 
-  /// Get desired relative orientation
-  inline Transform3s reference() const { return m_.F1inJ1.actInv(m_.F2inJ2); }
+  /// Get desired relative transformation of joint2 in joint1
+  inline Transform3s reference() const {
+    return m_.F1inJ1 * m_.F2inJ2.inverse();
+  }
 
   /// Set joint 1
   inline void joint1(const JointConstPtr_t& joint) {
-- 
2.43.0

