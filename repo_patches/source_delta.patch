From 9d0f00af8ac4b16b9c3470eaf8b17f31c6210182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 01/36] fix: refresh the LQR derivatives of every data object

The terms that are constant for a given set of parameters were copied
only the first time calcDiff was called after set_LQR (the flag lived in
the model), so a second data object, or a running call after a terminal
one, kept the derivatives of the previous parameters.
---
 include/crocoddyl/core/actions/diff-lqr.hpp |  1 -
 include/crocoddyl/core/actions/diff-lqr.hxx | 48 ++++++++-------------
 include/crocoddyl/core/actions/lqr.hpp      |  1 -
 include/crocoddyl/core/actions/lqr.hxx      | 43 +++++++-----------
 4 files changed, 34 insertions(+), 59 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hpp b/include/crocoddyl/core/actions/diff-lqr.hpp
index 0c53759..7e4dd3a 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hpp
+++ b/include/crocoddyl/core/actions/diff-lqr.hpp
@@ -312,7 +312,6 @@ class DifferentialActionModelLQRTpl
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index d99cf5a..dbb7101 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -14,8 +14,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Aq, const MatrixXs& Av, const MatrixXs& B,
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, 2 * nq + nu_);
@@ -33,8 +32,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const MatrixXs& Q, const MatrixXs& R, const MatrixXs& N, const VectorXs& f,
     const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nq = state_->get_nq();
   MatrixXs G = MatrixXs::Zero(ng_, 2 * nq + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, 2 * nq + nu_);
@@ -51,8 +49,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(2 * Aq.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(Aq, Av, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -73,8 +70,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
       r_(VectorXs::Ones(nu)),
       g_(VectorXs::Zero(0)),
       h_(VectorXs::Zero(0)),
-      drift_free_(drift_free),
-      updated_lqr_(false) {}
+      drift_free_(drift_free) {}
 
 template <typename Scalar>
 DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
@@ -82,8 +78,7 @@ DifferentialActionModelLQRTpl<Scalar>::DifferentialActionModelLQRTpl(
     : Base(std::make_shared<StateVector>(2 * copy.get_Aq().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_Aq(), copy.get_Av(), copy.get_B(), copy.get_Q(),
           copy.get_R(), copy.get_N(), copy.get_G(), copy.get_H(), copy.get_f(),
           copy.get_q(), copy.get_r(), copy.get_g(), copy.get_h());
@@ -177,19 +172,16 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Fx.leftCols(nq) = Aq_;
-    data->Fx.rightCols(nq) = Av_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(2 * nq);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx.leftCols(nq) = Aq_;
+  data->Fx.rightCols(nq) = Av_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(2 * nq);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -209,12 +201,9 @@ void DifferentialActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nq = state_->get_nq();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(2 * nq);
-    data->Hx = H_.leftCols(2 * nq);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(2 * nq);
+  data->Hx = H_.leftCols(2 * nq);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -463,7 +452,6 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 6595974..0efea1d 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -286,7 +286,6 @@ class ActionModelLQRTpl : public ActionModelAbstractTpl<_Scalar> {
   VectorXs h_;
   MatrixXs L_;
   bool drift_free_;
-  bool updated_lqr_;
 };
 
 template <typename _Scalar>
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index 13f5d00..c8bcba7 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -16,8 +16,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const MatrixXs& A,
                                              const MatrixXs& R,
                                              const MatrixXs& N)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(true),
-      updated_lqr_(false) {
+      drift_free_(true) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(nh_, nx + nu_);
@@ -34,8 +33,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const MatrixXs& A, const MatrixXs& B, const MatrixXs& Q, const MatrixXs& R,
     const MatrixXs& N, const VectorXs& f, const VectorXs& q, const VectorXs& r)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   const std::size_t nx = state_->get_nx();
   MatrixXs G = MatrixXs::Zero(ng_, nx + nu_);
   MatrixXs H = MatrixXs::Zero(ng_, nx + nu_);
@@ -51,8 +49,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(
     const VectorXs& q, const VectorXs& r, const VectorXs& g, const VectorXs& h)
     : Base(std::make_shared<StateVector>(A.cols()), B.cols(), 0, G.rows(),
            H.rows(), G.rows(), H.rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(A, B, Q, R, N, G, H, f, q, r, g, h);
 }
 
@@ -80,8 +77,7 @@ ActionModelLQRTpl<Scalar>::ActionModelLQRTpl(const ActionModelLQRTpl& copy)
     : Base(std::make_shared<StateVector>(copy.get_A().cols()),
            copy.get_B().cols(), 0, copy.get_G().rows(), copy.get_H().rows(),
            copy.get_G().rows(), copy.get_H().rows()),
-      drift_free_(false),
-      updated_lqr_(false) {
+      drift_free_(false) {
   set_LQR(copy.get_A(), copy.get_B(), copy.get_Q(), copy.get_R(), copy.get_N(),
           copy.get_G(), copy.get_H(), copy.get_f(), copy.get_q(), copy.get_r(),
           copy.get_g(), copy.get_h());
@@ -170,18 +166,15 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Fx = A_;
-    data->Fu = B_;
-    data->Lxx = Q_;
-    data->Luu = R_;
-    data->Lxu = N_;
-    data->Gx = G_.leftCols(nx);
-    data->Gu = G_.rightCols(nu_);
-    data->Hx = H_.leftCols(nx);
-    data->Hu = H_.rightCols(nu_);
-    updated_lqr_ = true;
-  }
+  data->Fx = A_;
+  data->Fu = B_;
+  data->Lxx = Q_;
+  data->Luu = R_;
+  data->Lxu = N_;
+  data->Gx = G_.leftCols(nx);
+  data->Gu = G_.rightCols(nu_);
+  data->Hx = H_.leftCols(nx);
+  data->Hu = H_.rightCols(nu_);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
   data->Lx.noalias() += N_ * u;
@@ -201,12 +194,9 @@ void ActionModelLQRTpl<Scalar>::calcDiff(
   }
 
   const std::size_t nx = state_->get_nx();
-  if (!updated_lqr_) {
-    data->Lxx = Q_;
-    data->Gx = G_.leftCols(nx);
-    data->Hx = H_.leftCols(nx);
-    updated_lqr_ = true;
-  }
+  data->Lxx = Q_;
+  data->Gx = G_.leftCols(nx);
+  data->Hx = H_.leftCols(nx);
   data->Lx = q_;
   data->Lx.noalias() += Q_ * x;
 }
@@ -435,7 +425,6 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
   r_ = r;
   g_ = g;
   h_ = h;
-  updated_lqr_ = false;
 }
 
 }  // namespace crocoddyl
-- 
2.43.0


From c91d43dd77df5def86e0cd746a8b47f26f4e45a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 02/36] fix: size the LQR constraint Jacobians with the state
 dimension

For an odd state dimension 2 * nq differs from nx.
---
 include/crocoddyl/core/actions/lqr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/actions/lqr.hpp b/include/crocoddyl/core/actions/lqr.hpp
index 0efea1d..7cf0d52 100644
--- a/include/crocoddyl/core/actions/lqr.hpp
+++ b/include/crocoddyl/core/actions/lqr.hpp
@@ -302,16 +302,16 @@ struct ActionDataLQRTpl : public ActionDataAbstractTpl<_Scalar> {
         Q_x_tmp(VectorXs::Zero(
             static_cast<Eigen::Index>(model->get_state()->get_ndx()))) {
     // Setting the linear model and quadratic cost as they are constant
-    const std::size_t nq = model->get_state()->get_nq();
+    const std::size_t nx = model->get_state()->get_nx();
     const std::size_t nu = model->get_nu();
     Fx = model->get_A();
     Fu = model->get_B();
     Lxx = model->get_Q();
     Luu = model->get_R();
     Lxu = model->get_N();
-    Gx = model->get_G().leftCols(2 * nq);
+    Gx = model->get_G().leftCols(nx);
     Gu = model->get_G().rightCols(nu);
-    Hx = model->get_H().leftCols(2 * nq);
+    Hx = model->get_H().leftCols(nx);
     Hu = model->get_H().rightCols(nu);
   }
   virtual ~ActionDataLQRTpl() = default;
-- 
2.43.0


From bcde9b1957e887edba89b31673d83baa40bfb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 03/36] fix: BoxDDP forward pass ends at the rolled-out
 terminal state

---
 src/core/solvers/box-ddp.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index b25a38d..39bc580 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -153,12 +153,7 @@ void SolverBoxDDP::forwardPass(double steplength) {
 
   const std::shared_ptr<ActionModelAbstract>& m = problem_->get_terminalModel();
   const std::shared_ptr<ActionDataAbstract>& d = problem_->get_terminalData();
-  if ((is_feasible_) || (steplength == 1)) {
-    xs_try_.back() = xnext_;
-  } else {
-    m->get_state()->integrate(xnext_, fs_.back() * (steplength - 1),
-                              xs_try_.back());
-  }
+  xs_try_.back() = xnext_;
   m->calc(d, xs_try_.back());
   cost_try_ += d->cost;
 
-- 
2.43.0


From 1972f67f85143ef88213c28bca92461b3b00e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:01 +0000
Subject: [PATCH 04/36] fix: inequality feasibility is the chosen norm over
 running and terminal nodes

---
 src/core/solver-base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/solver-base.cpp b/src/core/solver-base.cpp
index 2bdb394..6b6cfe7 100644
--- a/src/core/solver-base.cpp
+++ b/src/core/solver-base.cpp
@@ -147,8 +147,9 @@ double SolverAbstract::computeInequalityFeasibility() {
             problem_->get_terminalData()
                 ->g.cwiseMax(problem_->get_terminalModel()->get_g_lb())
                 .cwiseMin(problem_->get_terminalModel()->get_g_ub());
-        tmp_feas_ += (problem_->get_terminalData()->g - g_adj_.back())
-                         .lpNorm<Eigen::Infinity>();
+        tmp_feas_ =
+            std::max(tmp_feas_, (problem_->get_terminalData()->g - g_adj_.back())
+                                    .lpNorm<Eigen::Infinity>());
       }
       break;
     case L1:
@@ -157,8 +158,7 @@ double SolverAbstract::computeInequalityFeasibility() {
           g_adj_[t] = datas[t]
                           ->g.cwiseMax(models[t]->get_g_lb())
                           .cwiseMin(models[t]->get_g_ub());
-          tmp_feas_ =
-              std::max(tmp_feas_, (datas[t]->g - g_adj_[t]).lpNorm<1>());
+          tmp_feas_ += (datas[t]->g - g_adj_[t]).lpNorm<1>();
         }
       }
       if (problem_->get_terminalModel()->get_ng_T() > 0) {
-- 
2.43.0


From b4e60419174033b2961c196b9d10d1684f42bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 05/36] fix: reject empty and non-positive sets of step lengths

---
 src/core/solvers/box-qp.cpp | 3 +++
 src/core/solvers/ddp.cpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 17b4160..34c00fb 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -239,6 +239,9 @@ void BoxQP::set_reg(const double reg) {
 }
 
 void BoxQP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty() || 0. >= alphas[0]) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   double prev_alpha = alphas[0];
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index d0327f1..c1d9d5b 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -564,6 +564,9 @@ void SolverDDP::set_regmax(const double regmax) {
 }
 
 void SolverDDP::set_alphas(const std::vector<double>& alphas) {
+  if (alphas.empty() || 0. >= alphas[0]) {
+    throw_pretty("Invalid argument: " << "alpha values has to be positive.");
+  }
   double prev_alpha = alphas[0];
   if (prev_alpha != 1.) {
     std::cerr << "Warning: alpha[0] should be 1" << std::endl;
-- 
2.43.0


From 188af8959f80f2038fa4dc0970f74aa227df6fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 06/36] fix: reject BoxQP acceptance thresholds outside (0,
 0.5)

---
 src/core/solvers/box-qp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/solvers/box-qp.cpp b/src/core/solvers/box-qp.cpp
index 34c00fb..f295805 100644
--- a/src/core/solvers/box-qp.cpp
+++ b/src/core/solvers/box-qp.cpp
@@ -28,7 +28,7 @@ BoxQP::BoxQP(const std::size_t nx, const std::size_t maxiter,
       qo_(nx),
       Ho_(nx, nx) {
   // Check if values have a proper range
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     std::cerr << "Warning: th_acceptstep value should between 0 and 0.5"
               << std::endl;
   }
@@ -217,7 +217,7 @@ void BoxQP::set_nx(const std::size_t nx) {
 void BoxQP::set_maxiter(const std::size_t maxiter) { maxiter_ = maxiter; }
 
 void BoxQP::set_th_acceptstep(const double th_acceptstep) {
-  if (0. >= th_acceptstep && th_acceptstep >= 0.5) {
+  if (0. >= th_acceptstep || th_acceptstep >= 0.5) {
     throw_pretty(
         "Invalid argument: " << "th_acceptstep value should between 0 and 0.5");
   }
-- 
2.43.0


From d490da9754a6248f58c6c1b96c02f664638f37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 07/36] fix: let the regularization grow from zero so that
 failed directions end the solve

---
 src/core/solvers/ddp.cpp | 9 +++++++++
 src/core/solvers/kkt.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/core/solvers/ddp.cpp b/src/core/solvers/ddp.cpp
index c1d9d5b..104f424 100644
--- a/src/core/solvers/ddp.cpp
+++ b/src/core/solvers/ddp.cpp
@@ -9,6 +9,9 @@
 
 #include "crocoddyl/core/solvers/ddp.hpp"
 
+#include <algorithm>
+#include <limits>
+
 namespace crocoddyl {
 
 SolverDDP::SolverDDP(std::shared_ptr<ShootingProblem> problem)
@@ -397,6 +400,12 @@ void SolverDDP::computeGains(const std::size_t t) {
 
 void SolverDDP::increaseRegularization() {
   preg_ *= reg_incfactor_;
+  // a vanishing regularization cannot grow by a factor
+  const double reg_floor =
+      std::max(reg_min_, std::numeric_limits<double>::epsilon());
+  if (preg_ < reg_floor) {
+    preg_ = reg_floor;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index d922f4b..caa330b 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -10,6 +10,9 @@
 
 #include "crocoddyl/core/solvers/kkt.hpp"
 
+#include <algorithm>
+#include <limits>
+
 namespace crocoddyl {
 
 SolverKKT::SolverKKT(std::shared_ptr<ShootingProblem> problem)
@@ -253,6 +256,12 @@ void SolverKKT::computePrimalDual() {
 
 void SolverKKT::increaseRegularization() {
   preg_ *= reg_incfactor_;
+  // a vanishing regularization cannot grow by a factor
+  const double reg_floor =
+      std::max(reg_min_, std::numeric_limits<double>::epsilon());
+  if (preg_ < reg_floor) {
+    preg_ = reg_floor;
+  }
   if (preg_ > reg_max_) {
     preg_ = reg_max_;
   }
-- 
2.43.0


From 2885e1e1a4b1644ee12135e21e82049b718fd9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 08/36] fix: KKT solver gives up after repeated failures
 instead of reusing stale derivatives

---
 src/core/solvers/kkt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index caa330b..e1f4c6d 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -47,7 +47,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
       try {
         computeDirection(recalc);
       } catch (std::exception& e) {
-        recalc = false;
+        increaseRegularization();
         if (preg_ == reg_max_) {
           return false;
         } else {
-- 
2.43.0


From 3f02a0780cb3dadfc212ffcdbd6f6e46b7c6c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 09/36] fix: KKT solver forgets the feasibility of an earlier
 solve

---
 src/core/solvers/kkt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/kkt.cpp b/src/core/solvers/kkt.cpp
index e1f4c6d..0fab8c3 100644
--- a/src/core/solvers/kkt.cpp
+++ b/src/core/solvers/kkt.cpp
@@ -41,6 +41,7 @@ bool SolverKKT::solve(const std::vector<Eigen::VectorXd>& init_xs,
                       const std::size_t maxiter, const bool is_feasible,
                       const double) {
   setCandidate(init_xs, init_us, is_feasible);
+  was_feasible_ = false;
   bool recalc = true;
   for (iter_ = 0; iter_ < maxiter; ++iter_) {
     while (true) {
-- 
2.43.0


From 2c4a7d7b29ac39090d7cf3bc7cca1fb1161b62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:54 +0000
Subject: [PATCH 10/36] fix: set_runningModels stores the models it is given

---
 include/crocoddyl/core/optctrl/shooting.hxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index bb33d35..49a2c40 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -459,7 +459,7 @@ void ShootingProblemTpl<Scalar>::set_x0(const VectorXs& x0_in) {
 template <typename Scalar>
 void ShootingProblemTpl<Scalar>::set_runningModels(
     const std::vector<std::shared_ptr<ActionModelAbstract> >& models) {
-  for (std::size_t i = 0; i < T_; ++i) {
+  for (std::size_t i = 0; i < models.size(); ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = models[i];
     if (model->get_state()->get_nx() != nx_) {
       throw_pretty("Invalid argument: "
@@ -474,11 +474,10 @@ void ShootingProblemTpl<Scalar>::set_runningModels(
   }
   is_updated_ = true;
   T_ = models.size();
-  running_models_.clear();
+  running_models_ = models;
   running_datas_.clear();
   for (std::size_t i = 0; i < T_; ++i) {
     const std::shared_ptr<ActionModelAbstract>& model = running_models_[i];
-    running_models_.push_back(model);
     running_datas_.push_back(model->createData());
   }
 }
-- 
2.43.0


From 06a8571bf6017c12a5e236f019be59cca062d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 11/36] fix: shooting problem constructors initialise every
 member and check the terminal node

---
 include/crocoddyl/core/optctrl/shooting.hxx | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/optctrl/shooting.hxx b/include/crocoddyl/core/optctrl/shooting.hxx
index 49a2c40..5a86907 100644
--- a/include/crocoddyl/core/optctrl/shooting.hxx
+++ b/include/crocoddyl/core/optctrl/shooting.hxx
@@ -78,7 +78,8 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_datas_(running_datas),
       nx_(running_models[0]->get_state()->get_nx()),
       ndx_(running_models[0]->get_state()->get_ndx()),
-      nthreads_(1) {
+      nthreads_(1),
+      is_updated_(false) {
   if (static_cast<std::size_t>(x0.size()) != nx_) {
     throw_pretty(
         "Invalid argument: " << "x0 has wrong dimension (it should be " +
@@ -110,6 +111,16 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
                    << " node is not consistent with the action model")
     }
   }
+  if (terminal_model_->get_state()->get_nx() != nx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "nx in terminal node is not consistent with the other nodes")
+  }
+  if (terminal_model_->get_state()->get_ndx() != ndx_) {
+    throw_pretty(
+        "Invalid argument: "
+        << "ndx in terminal node is not consistent with the other nodes")
+  }
   if (!terminal_model->checkData(terminal_data)) {
     throw_pretty("Invalid argument: "
                  << "terminal action data is not consistent with the terminal "
@@ -134,7 +145,9 @@ ShootingProblemTpl<Scalar>::ShootingProblemTpl(
       running_models_(problem.get_runningModels()),
       running_datas_(problem.get_runningDatas()),
       nx_(problem.get_nx()),
-      ndx_(problem.get_ndx()) {}
+      ndx_(problem.get_ndx()),
+      nthreads_(problem.nthreads_),
+      is_updated_(false) {}
 
 template <typename Scalar>
 ShootingProblemTpl<Scalar>::~ShootingProblemTpl() {}
-- 
2.43.0


From 657b10111f826a679cf2492195c1fded62de584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 12/36] fix: vector state sets the whole integration Jacobian
 when asked to set it

---
 include/crocoddyl/core/states/euclidean.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/states/euclidean.hxx b/include/crocoddyl/core/states/euclidean.hxx
index b1ca3e7..9c503a6 100644
--- a/include/crocoddyl/core/states/euclidean.hxx
+++ b/include/crocoddyl/core/states/euclidean.hxx
@@ -125,6 +125,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jfirst.setZero();
         Jfirst.diagonal().array() = Scalar(1.);
         break;
       case addto:
@@ -149,6 +150,7 @@ void StateVectorTpl<Scalar>::Jintegrate(const Eigen::Ref<const VectorXs>&,
     }
     switch (op) {
       case setto:
+        Jsecond.setZero();
         Jsecond.diagonal().array() = Scalar(1.);
         break;
       case addto:
-- 
2.43.0


From 209e0cb2537e9a46b6cb0810170dda76cfe16b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 13/36] fix: value-returning Jacobian products of the control
 parametrization start from zero

---
 include/crocoddyl/core/control-base.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crocoddyl/core/control-base.hxx b/include/crocoddyl/core/control-base.hxx
index 14b1a46..63b79a5 100644
--- a/include/crocoddyl/core/control-base.hxx
+++ b/include/crocoddyl/core/control-base.hxx
@@ -34,6 +34,7 @@ ControlParametrizationModelAbstractTpl<Scalar>::multiplyByJacobian_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
   MatrixXs AJ(A.rows(), nu_);
+  AJ.setZero();
   multiplyByJacobian(data, A, AJ, op);
   return AJ;
 }
@@ -44,6 +45,7 @@ ControlParametrizationModelAbstractTpl<Scalar>::multiplyJacobianTransposeBy_J(
     const std::shared_ptr<ControlParametrizationDataAbstract>& data,
     const Eigen::Ref<const MatrixXs>& A, const AssignmentOp op) const {
   MatrixXs JTA(nu_, A.cols());
+  JTA.setZero();
   multiplyJacobianTransposeBy(data, A, JTA, op);
   return JTA;
 }
-- 
2.43.0


From ea9f5c6de5b6e8d0014dea0a68d7c263ecb27642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:40 +0000
Subject: [PATCH 14/36] fix: weighted quadratic activation refreshes the
 Hessian of every data object

---
 .../core/activations/weighted-quadratic.hpp   | 21 ++-----------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic.hpp b/include/crocoddyl/core/activations/weighted-quadratic.hpp
index 81c2654..3ee7b72 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic.hpp
@@ -30,7 +30,7 @@ class ActivationModelWeightedQuadTpl
   typedef typename MathBase::MatrixXs MatrixXs;
 
   explicit ActivationModelWeightedQuadTpl(const VectorXs& weights)
-      : Base(weights.size()), weights_(weights), new_weights_(false) {};
+      : Base(weights.size()), weights_(weights) {};
   virtual ~ActivationModelWeightedQuadTpl() = default;
 
   virtual void calc(const std::shared_ptr<ActivationDataAbstract>& data,
@@ -56,14 +56,7 @@ class ActivationModelWeightedQuadTpl
 
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = d->Wr;
-    if (new_weights_) {
-      data->Arr.diagonal() = weights_;
-      new_weights_ = false;
-    }
-    // The Hessian has constant values which were set in createData.
-#ifndef NDEBUG
-    assert_pretty(MatrixXs(data->Arr).isApprox(Arr_), "Arr has wrong value");
-#endif
+    data->Arr.diagonal() = weights_;
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
@@ -71,10 +64,6 @@ class ActivationModelWeightedQuadTpl
         std::allocate_shared<Data>(Eigen::aligned_allocator<Data>(), this);
     data->Arr.diagonal() = weights_;
 
-#ifndef NDEBUG
-    Arr_ = data->Arr;
-#endif
-
     return data;
   };
 
@@ -94,7 +83,6 @@ class ActivationModelWeightedQuadTpl
     }
 
     weights_ = weights;
-    new_weights_ = true;
   };
 
   /**
@@ -111,11 +99,6 @@ class ActivationModelWeightedQuadTpl
 
  private:
   VectorXs weights_;
-  bool new_weights_;
-
-#ifndef NDEBUG
-  MatrixXs Arr_;
-#endif
 };
 
 template <typename _Scalar>
-- 
2.43.0


From 0346ee12abce5efeeec7c9e2eff7b4f9a4daa0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:40 +0000
Subject: [PATCH 15/36] fix: smooth one-norm curvature scales with the
 smoothing factor

---
 include/crocoddyl/core/activations/smooth-1norm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/smooth-1norm.hpp b/include/crocoddyl/core/activations/smooth-1norm.hpp
index 9ccb0ff..c2843ea 100644
--- a/include/crocoddyl/core/activations/smooth-1norm.hpp
+++ b/include/crocoddyl/core/activations/smooth-1norm.hpp
@@ -103,7 +103,7 @@ class ActivationModelSmooth1NormTpl
     std::shared_ptr<Data> d = std::static_pointer_cast<Data>(data);
     data->Ar = r.cwiseProduct(d->a.cwiseInverse());
     data->Arr.diagonal() =
-        d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
+        eps_ * d->a.cwiseProduct(d->a).cwiseProduct(d->a).cwiseInverse();
   };
 
   /**
-- 
2.43.0


From 98138a5df28d3b199782b6a9ce81c9daa7030d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:54 +0000
Subject: [PATCH 16/36] fix: squashed actuation reports the state Jacobian of
 the wrapped actuation

---
 include/crocoddyl/core/actuation/actuation-squashing.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/actuation/actuation-squashing.hpp b/include/crocoddyl/core/actuation/actuation-squashing.hpp
index d8ce15e..0955d5d 100644
--- a/include/crocoddyl/core/actuation/actuation-squashing.hpp
+++ b/include/crocoddyl/core/actuation/actuation-squashing.hpp
@@ -58,6 +58,7 @@ class ActuationSquashingModelTpl : public ActuationModelAbstractTpl<_Scalar> {
 
     squashing_->calcDiff(d->squashing, u);
     actuation_->calcDiff(d->actuation, x, d->squashing->u);
+    data->dtau_dx = d->actuation->dtau_dx;
     data->dtau_du.noalias() = d->actuation->dtau_du * d->squashing->du_ds;
   };
 
-- 
2.43.0


From fae0495168d5d8852db31cafa58cdc458d62cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:49 +0000
Subject: [PATCH 17/36] fix: joint-effort residual built without a reference
 initialises its dynamics flag

---
 include/crocoddyl/core/residuals/joint-effort.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/residuals/joint-effort.hxx b/include/crocoddyl/core/residuals/joint-effort.hxx
index 2cbd71c..29c0824 100644
--- a/include/crocoddyl/core/residuals/joint-effort.hxx
+++ b/include/crocoddyl/core/residuals/joint-effort.hxx
@@ -57,7 +57,8 @@ ResidualModelJointEffortTpl<Scalar>::ResidualModelJointEffortTpl(
     std::shared_ptr<ActuationModelAbstract> actuation)
     : Base(state, actuation->get_nu(), state->get_nv(), true, true, true),
       actuation_(actuation),
-      uref_(VectorXs::Zero(actuation->get_nu())) {}
+      uref_(VectorXs::Zero(actuation->get_nu())),
+      fwddyn_(false) {}
 
 template <typename Scalar>
 void ResidualModelJointEffortTpl<Scalar>::calc(
-- 
2.43.0


From fc4fc8b3973e2262b98478bdd65a9e5ee78ea410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:20 +0000
Subject: [PATCH 18/36] fix: adding a cost item under a taken name leaves the
 totals unchanged

---
 include/crocoddyl/core/costs/cost-sum.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index e05dc1c..b42811a 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -56,8 +56,12 @@ void CostModelSumTpl<Scalar>::addCost(
         << " cost item doesn't have the same control dimension (it should be " +
                std::to_string(nu_) + ")");
   }
-  costs_.insert(std::make_pair(cost_item->name, cost_item));
-  if (cost_item->active) {
+  std::pair<typename CostModelContainer::iterator, bool> ret =
+      costs_.insert(std::make_pair(cost_item->name, cost_item));
+  if (ret.second == false) {
+    std::cerr << "Warning: we couldn't add the " << cost_item->name
+              << " cost item, it already existed." << std::endl;
+  } else if (cost_item->active) {
     nr_ += cost_item->cost->get_activation()->get_nr();
     nr_total_ += cost_item->cost->get_activation()->get_nr();
     active_set_.insert(cost_item->name);
-- 
2.43.0


From 7e9e19dfae1083fe4cc60b39439d13aca7c6fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:21 +0000
Subject: [PATCH 19/36] fix: removing an inactive cost keeps the active
 residual dimension

---
 include/crocoddyl/core/costs/cost-sum.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/costs/cost-sum.hxx b/include/crocoddyl/core/costs/cost-sum.hxx
index b42811a..c6522fe 100644
--- a/include/crocoddyl/core/costs/cost-sum.hxx
+++ b/include/crocoddyl/core/costs/cost-sum.hxx
@@ -75,7 +75,9 @@ template <typename Scalar>
 void CostModelSumTpl<Scalar>::removeCost(const std::string& name) {
   typename CostModelContainer::iterator it = costs_.find(name);
   if (it != costs_.end()) {
-    nr_ -= it->second->cost->get_activation()->get_nr();
+    if (it->second->active) {
+      nr_ -= it->second->cost->get_activation()->get_nr();
+    }
     nr_total_ -= it->second->cost->get_activation()->get_nr();
     costs_.erase(it);
     active_set_.erase(name);
-- 
2.43.0


From 642cfe4fc3c1d4d6c127848693a50dbb2ec2902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:43 +0000
Subject: [PATCH 20/36] fix: update_bounds validates the new bounds instead of
 the ones in place

---
 include/crocoddyl/core/constraint-base.hxx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index 5e39a77..b56de25 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -114,20 +114,21 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
         "Invalid argument: the dimension of the lower/upper bound is not the "
         "same to ng.")
   }
-  if (((upper - lower).array() <= Scalar(0.)).any()) {
+  if (!(lower.array() <= upper.array()).all()) {
     throw_pretty(
-        "Invalid argument: the upper bound is not higher than the lower bound.")
+        "Invalid argument: the upper bound is not equal to / higher than the "
+        "lower bound.")
   }
-  if ((lb_.array() == std::numeric_limits<Scalar>::infinity()).any() ||
-      (lb_.array() == std::numeric_limits<Scalar>::max()).any()) {
+  if ((lower.array() == std::numeric_limits<Scalar>::infinity()).any() ||
+      (lower.array() == std::numeric_limits<Scalar>::max()).any()) {
     throw_pretty(
         "Invalid argument: the lower bound cannot contain a positive "
         "infinity/max value");
   }
-  if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
+  if ((upper.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
+      (upper.array() == std::numeric_limits<Scalar>::lowest()).any()) {
     throw_pretty(
-        "Invalid argument: the lower bound cannot contain a negative "
+        "Invalid argument: the upper bound cannot contain a negative "
         "infinity/min value");
   }
   ng_ = ng_internal_;
-- 
2.43.0


From 8384128789c363fda0e2cbaae98fda56bc0fd351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:43 +0000
Subject: [PATCH 21/36] fix: update_bounds keeps the kind of a constraint
 without inequalities

---
 include/crocoddyl/core/constraint-base.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/constraint-base.hxx b/include/crocoddyl/core/constraint-base.hxx
index b56de25..f4c7cfa 100644
--- a/include/crocoddyl/core/constraint-base.hxx
+++ b/include/crocoddyl/core/constraint-base.hxx
@@ -135,7 +135,9 @@ void ConstraintModelAbstractTpl<Scalar>::update_bounds(const VectorXs& lower,
   nh_ = nh_internal_;
   lb_ = lower;
   ub_ = upper;
-  if (nh_ == 0) {
+  if (ng_ == 0) {
+    type_ = ConstraintType::Equality;
+  } else if (nh_ == 0) {
     type_ = ConstraintType::Inequality;
   } else {
     type_ = ConstraintType::Both;
-- 
2.43.0


From 7278e43e72efc1585514c6484c567fbea79667a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 22/36] fix: bounded residual constraint rejects wrong sizes
 and undefined bounds

---
 .../crocoddyl/core/constraints/residual.hxx   | 24 +------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/include/crocoddyl/core/constraints/residual.hxx b/include/crocoddyl/core/constraints/residual.hxx
index a5574c4..7fd9941 100644
--- a/include/crocoddyl/core/constraints/residual.hxx
+++ b/include/crocoddyl/core/constraints/residual.hxx
@@ -14,29 +14,7 @@ ConstraintModelResidualTpl<Scalar>::ConstraintModelResidualTpl(
     std::shared_ptr<ResidualModelAbstract> residual, const VectorXs& lower,
     const VectorXs& upper, const bool T_act)
     : Base(state, residual, residual->get_nr(), 0) {
-  lb_ = lower;
-  ub_ = upper;
-  for (std::size_t i = 0; i < residual_->get_nr(); ++i) {
-    if (isfinite(lb_(i)) && isfinite(ub_(i))) {
-      if (lb_(i) - ub_(i) > Scalar(0.)) {
-        throw_pretty(
-            "Invalid argument: the upper bound is not equal to / higher than "
-            "the lower bound.")
-      }
-    }
-  }
-  if ((lb_.array() == std::numeric_limits<Scalar>::infinity()).any() ||
-      (lb_.array() == std::numeric_limits<Scalar>::max()).any()) {
-    throw_pretty(
-        "Invalid argument: the lower bound cannot contain a positive "
-        "infinity/max value");
-  }
-  if ((ub_.array() == -std::numeric_limits<Scalar>::infinity()).any() ||
-      (ub_.array() == -std::numeric_limits<Scalar>::infinity()).any()) {
-    throw_pretty(
-        "Invalid argument: the lower bound cannot contain a negative "
-        "infinity/max value");
-  }
+  this->update_bounds(lower, upper);
   if (!T_act) {
     T_constraint_ = false;
   }
-- 
2.43.0


From 9c8d2c2b88d4096c113d98cfdfa3968b7606ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 23/36] fix: collecting the bounds of a constraint whose bounds
 were removed

---
 include/crocoddyl/core/constraints/constraint-manager.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crocoddyl/core/constraints/constraint-manager.hxx b/include/crocoddyl/core/constraints/constraint-manager.hxx
index fde4255..0165d85 100644
--- a/include/crocoddyl/core/constraints/constraint-manager.hxx
+++ b/include/crocoddyl/core/constraints/constraint-manager.hxx
@@ -170,8 +170,8 @@ void ConstraintModelManagerTpl<Scalar>::calc(
       const std::size_t nh = m_i->constraint->get_nh();
       data->g.segment(ng_i, ng) = d_i->g;
       data->h.segment(nh_i, nh) = d_i->h;
-      lb_.segment(ng_i, ng) = m_i->constraint->get_lb();
-      ub_.segment(ng_i, ng) = m_i->constraint->get_ub();
+      lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
       ng_i += ng;
       nh_i += nh;
     }
@@ -217,8 +217,8 @@ void ConstraintModelManagerTpl<Scalar>::calc(
       const std::size_t nh = m_i->constraint->get_nh();
       data->g.segment(ng_i, ng) = d_i->g;
       data->h.segment(nh_i, nh) = d_i->h;
-      lb_.segment(ng_i, ng) = m_i->constraint->get_lb();
-      ub_.segment(ng_i, ng) = m_i->constraint->get_ub();
+      lb_.segment(ng_i, ng) = m_i->constraint->get_lb().head(ng);
+      ub_.segment(ng_i, ng) = m_i->constraint->get_ub().head(ng);
       ng_i += ng;
       nh_i += nh;
     }
-- 
2.43.0


From 07ffd177723b07b255b9f619c3cab766c446a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 24/36] fix: numerical differentiation of a terminal residual
 sets its own step

---
 include/crocoddyl/core/numdiff/residual.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/crocoddyl/core/numdiff/residual.hxx b/include/crocoddyl/core/numdiff/residual.hxx
index 84af121..c79f54c 100644
--- a/include/crocoddyl/core/numdiff/residual.hxx
+++ b/include/crocoddyl/core/numdiff/residual.hxx
@@ -89,7 +89,10 @@ void ResidualModelNumDiffTpl<Scalar>::calcDiff(
   assertStableStateFD(x);
 
   // Computing the d residual(x,u) / dx
+  model_->get_state()->diff(model_->get_state()->zero(), x, d->dx);
+  d->x_norm = d->dx.norm();
   d->dx.setZero();
+  d->xh_jac = e_jac_ * std::max(Scalar(1.), d->x_norm);
   for (std::size_t ix = 0; ix < state_->get_ndx(); ++ix) {
     d->dx(ix) = d->xh_jac;
     model_->get_state()->integrate(x, d->dx, d->xp);
-- 
2.43.0


From f19d67e36c2ed84513c5bec4d3d072ad616fc727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 25/36] fix: numdiff control parametrization returns the
 control in its data

---
 include/crocoddyl/core/numdiff/control.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crocoddyl/core/numdiff/control.hxx b/include/crocoddyl/core/numdiff/control.hxx
index bf3d9fd..d0a9f4c 100644
--- a/include/crocoddyl/core/numdiff/control.hxx
+++ b/include/crocoddyl/core/numdiff/control.hxx
@@ -23,6 +23,7 @@ void ControlParametrizationModelNumDiffTpl<Scalar>::calc(
     const Scalar t, const Eigen::Ref<const VectorXs>& u) const {
   std::shared_ptr<Data> data_nd = std::static_pointer_cast<Data>(data);
   model_->calc(data_nd->data_0, t, u);
+  data->w = data_nd->data_0->w;
 }
 
 template <typename Scalar>
-- 
2.43.0


From c3ae685981d55d185b11f248d720cd74a864bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:08 +0000
Subject: [PATCH 26/36] fix: RK derivatives used a fixed half-step coupling in
 the second stage

The velocity block of the second stage's derivative assumed the 1/2 node and
a flat configuration space; it is wrong for the third-order scheme (node 1/3)
and on manifolds. Use the propagated stage Jacobian, as for later stages.
---
 include/crocoddyl/core/integrator/rk.hxx | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 3145433..188695e 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -206,11 +206,7 @@ void IntegratedActionModelRKTpl<Scalar>::calcDiff(
     //   is ki_data.Fx
     d->dki_dx[i].topRows(nv) = d->dyi_dx[i].bottomRows(nv);
     dkvi_dq.noalias() = dki_dqi * dqi_dq;
-    if (i == 1) {
-      dkvi_dv = time_step_ / Scalar(2.) * dki_dqi;
-    } else {
-      dkvi_dv.noalias() = dki_dqi * dqi_dv;
-    }
+    dkvi_dv.noalias() = dki_dqi * dqi_dv;
     dkvi_dq.noalias() += dki_dvi * dvi_dq;
     dkvi_dv.noalias() += dki_dvi * dvi_dv;
     //  ii. d->dki_du[i].noalias() = d->dki_dy[i] * d->dyi_du[i], where dki_dy
-- 
2.43.0


From 37876e3b808ed0b707a3d54e3f9a46b423d577c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:24 +0000
Subject: [PATCH 27/36] fix: weighted quadratic barrier reported the weights
 instead of their squares as curvature

---
 .../crocoddyl/core/activations/weighted-quadratic-barrier.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
index 01eb433..2f06f04 100644
--- a/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
+++ b/include/crocoddyl/core/activations/weighted-quadratic-barrier.hpp
@@ -75,7 +75,7 @@ class ActivationModelWeightedQuadraticBarrierTpl
                        Scalar(0.), Scalar(1.), Scalar(0.)));
     }
 
-    data->Arr.diagonal().array() *= weights_.array();
+    data->Arr.diagonal().array() *= weights_.array().square();
   };
 
   virtual std::shared_ptr<ActivationDataAbstract> createData() override {
-- 
2.43.0


From b287ce531abdae8c3995cbe2e1e948fa2e03ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:00 +0000
Subject: [PATCH 28/36] fix: size the box QP for the control dimension of the
 node being solved

---
 src/core/solvers/box-ddp.cpp  | 3 +++
 src/core/solvers/box-fddp.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core/solvers/box-ddp.cpp b/src/core/solvers/box-ddp.cpp
index 39bc580..dd0fa5c 100644
--- a/src/core/solvers/box-ddp.cpp
+++ b/src/core/solvers/box-ddp.cpp
@@ -78,6 +78,9 @@ void SolverBoxDDP::computeGains(const std::size_t t) {
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     START_PROFILER("SolverBoxDDP::boxQP");
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
diff --git a/src/core/solvers/box-fddp.cpp b/src/core/solvers/box-fddp.cpp
index 06f7dcf..753ca13 100644
--- a/src/core/solvers/box-fddp.cpp
+++ b/src/core/solvers/box-fddp.cpp
@@ -77,6 +77,9 @@ void SolverBoxFDDP::computeGains(const std::size_t t) {
     du_lb_[t] = problem_->get_runningModels()[t]->get_u_lb() - us_[t];
     du_ub_[t] = problem_->get_runningModels()[t]->get_u_ub() - us_[t];
 
+    if (qp_.get_nx() != nu) {
+      qp_.set_nx(nu);
+    }
     const BoxQPSolution& boxqp_sol =
         qp_.solve(Quu_[t], Qu_[t], du_lb_[t], du_ub_[t], k_[t]);
 
-- 
2.43.0


From f276d1005b50a730d5c48e79b6b75d59ee91b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 29/36] fix: do not copy the kernel of a control Jacobian with
 trivial nullspace

---
 src/core/solvers/intro.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index dcb2f20..f15fbe3 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -245,7 +245,10 @@ double SolverIntro::calcDiff() {
           Hu_rank_[t] = Hu_lu_[t].rank();
           YZ_[t].leftCols(Hu_rank_[t]).noalias() =
               (Hu_lu_[t].permutationP() * data->Hu).transpose();
-          YZ_[t].rightCols(model->get_nu() - Hu_rank_[t]) = Hu_lu_[t].kernel();
+          if (Hu_rank_[t] < model->get_nu()) {
+            YZ_[t].rightCols(model->get_nu() - Hu_rank_[t]) =
+                Hu_lu_[t].kernel();
+          }
           const Eigen::Block<Eigen::MatrixXd, Eigen::Dynamic, Eigen::Dynamic,
                              Eigen::RowMajor>
               Y = YZ_[t].leftCols(Hu_lu_[t].rank());
-- 
2.43.0


From 0f1f7ccd9d8f791eeb4845e50edf150b58ac46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:06 +0000
Subject: [PATCH 30/36] fix: keep the equality constraints of the candidate for
 the Schur gains

---
 include/crocoddyl/core/solvers/intro.hpp |  2 ++
 src/core/solvers/intro.cpp               | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/crocoddyl/core/solvers/intro.hpp b/include/crocoddyl/core/solvers/intro.hpp
index 7f446a7..8c1978a 100644
--- a/include/crocoddyl/core/solvers/intro.hpp
+++ b/include/crocoddyl/core/solvers/intro.hpp
@@ -190,6 +190,8 @@ class SolverIntro : public SolverFDDP {
       kz_;  //!< Feedforward term in the nullspace of \f$\mathbf{H_u}\f$
   std::vector<Eigen::MatrixXd>
       Kz_;  //!< Feedback gain in the nullspace of \f$\mathbf{H_u}\f$
+  std::vector<Eigen::VectorXd>
+      hs_;  //!< Equality-constraint values at the current candidate
   std::vector<Eigen::VectorXd>
       ks_;  //!< Feedforward term related to the equality constraints
   std::vector<Eigen::MatrixXd>
diff --git a/src/core/solvers/intro.cpp b/src/core/solvers/intro.cpp
index f15fbe3..d9982ec 100644
--- a/src/core/solvers/intro.cpp
+++ b/src/core/solvers/intro.cpp
@@ -30,6 +30,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
   Quz_.resize(T);
   kz_.resize(T);
   Kz_.resize(T);
+  hs_.resize(T);
   ks_.resize(T);
   Ks_.resize(T);
   QuuinvHuT_.resize(T);
@@ -55,6 +56,7 @@ SolverIntro::SolverIntro(std::shared_ptr<ShootingProblem> problem)
     Quz_[t] = Eigen::MatrixXd::Zero(nu, nh);
     kz_[t] = Eigen::VectorXd::Zero(nu);
     Kz_[t] = Eigen::MatrixXd::Zero(nu, ndx);
+    hs_[t] = Eigen::VectorXd::Zero(nh);
     ks_[t] = Eigen::VectorXd::Zero(nh);
     Ks_[t] = Eigen::MatrixXd::Zero(nh, ndx);
     QuuinvHuT_[t] = Eigen::MatrixXd::Zero(nu, nh);
@@ -216,6 +218,7 @@ void SolverIntro::resizeData() {
     Quz_[t].conservativeResize(nu, nh);
     kz_[t].conservativeResize(nu);
     Kz_[t].conservativeResize(nu, ndx);
+    hs_[t].conservativeResize(nh);
     ks_[t].conservativeResize(nh);
     Ks_[t].conservativeResize(nh, ndx);
     QuuinvHuT_[t].conservativeResize(nu, nh);
@@ -290,6 +293,12 @@ double SolverIntro::calcDiff() {
       }
       break;
     case Schur:
+      // Trial steps overwrite the constraint values stored in the action data
+      for (std::size_t t = 0; t < T; ++t) {
+        if (models[t]->get_nu() > 0 && models[t]->get_nh() > 0) {
+          hs_[t] = datas[t]->h;
+        }
+      }
       break;
   }
 
@@ -389,7 +398,7 @@ void SolverIntro::computeGains(const std::size_t t) {
         }
         Eigen::Transpose<Eigen::MatrixXd> HuQuuinv = QuuinvHuT_[t].transpose();
         Qzz_llt_[t].solveInPlace(HuQuuinv);
-        ks_[t] = data->h;
+        ks_[t] = hs_[t];
         ks_[t].noalias() -= data->Hu * k_[t];
         Ks_[t] = data->Hx;
         Ks_[t].noalias() -= data->Hu * K_[t];
-- 
2.43.0


From 3e758ca14b131a23e4a71c38b2d3bdeb681c368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 31/36] fix: count the constraints of the NLP from zero when
 the Ipopt interface is resized

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 33797f2..44cb6c0 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -52,6 +52,7 @@ IpoptInterface::IpoptInterface(const std::shared_ptr<ShootingProblem>& problem)
 
 void IpoptInterface::resizeData() {
   const std::size_t T = problem_->get_T();
+  nconst_ = 0;
   nvar_ = 0;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
-- 
2.43.0


From 160576779b94a5f15fc0c56a0257908143e09ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 32/36] fix: scale the terminal Hessian block of the Ipopt
 interface by the objective factor

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 44cb6c0..66d481e 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -702,7 +702,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
         if (idx_col > idx_row) {
           break;
         }
-        values[idx] = datas_[T]->Ldxdx(idx_row, idx_col);
+        values[idx] = obj_factor * datas_[T]->Ldxdx(idx_row, idx_col);
         idx++;
       }
     }
-- 
2.43.0


From 4c7d205b83c959068245da748eb0fcae90ad396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 33/36] fix: evaluate the nodes before their derivatives in the
 Jacobian and Hessian of the Ipopt interface

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 66d481e..00726fa 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -495,6 +495,7 @@ bool IpoptInterface::eval_jac_g(Ipopt::Index, const Ipopt::Number* x, bool,
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
       model_next->get_state()->integrate(xs_[t + 1], datas_[t]->dxnext,
                                          datas_[t]->xnext);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x, datas_[t]->u);
       model_next->get_state()->Jintegrate(
           xs_[t + 1], datas_[t]->dxnext, datas_[t]->Jint_dxnext,
@@ -641,6 +642,7 @@ bool IpoptInterface::eval_h(Ipopt::Index, const Ipopt::Number* x, bool,
       datas_[t]->u = Eigen::VectorXd::Map(x + ixu_[t] + ndxi, nui);
 
       model->get_state()->integrate(xs_[t], datas_[t]->dx, datas_[t]->x);
+      model->calc(data, datas_[t]->x, datas_[t]->u);
       model->calcDiff(data, datas_[t]->x,
                       datas_[t]->u);  // this might be removed
       model->get_state()->Jintegrate(xs_[t], datas_[t]->dx, datas_[t]->Jint_dx,
-- 
2.43.0


From 63c8cffbfca959a10b19f710337622946e7382db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:15 +0000
Subject: [PATCH 34/36] fix: initialise the objective returned by the Ipopt
 interface

---
 src/core/solvers/ipopt/ipopt-iface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/solvers/ipopt/ipopt-iface.cpp b/src/core/solvers/ipopt/ipopt-iface.cpp
index 00726fa..3a48127 100644
--- a/src/core/solvers/ipopt/ipopt-iface.cpp
+++ b/src/core/solvers/ipopt/ipopt-iface.cpp
@@ -243,6 +243,7 @@ bool IpoptInterface::eval_f(Ipopt::Index, const Ipopt::Number* x, bool,
                 "Inconsistent number of decision variables");
 
   // Running costs
+  obj_value = 0.;
   const std::vector<std::shared_ptr<ActionModelAbstract> >& models =
       problem_->get_runningModels();
   const std::vector<std::shared_ptr<ActionDataAbstract> >& datas =
-- 
2.43.0


From 16e8dfa3adba3e6a07e45d801bccca9b61ca824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:59 +0000
Subject: [PATCH 35/36] fix: integrated actions refuse data of another kind
 instead of dereferencing null

---
 include/crocoddyl/core/integrator/euler.hxx | 2 +-
 include/crocoddyl/core/integrator/rk.hxx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crocoddyl/core/integrator/euler.hxx b/include/crocoddyl/core/integrator/euler.hxx
index 9c65e4e..fd538f0 100644
--- a/include/crocoddyl/core/integrator/euler.hxx
+++ b/include/crocoddyl/core/integrator/euler.hxx
@@ -177,7 +177,7 @@ template <typename Scalar>
 bool IntegratedActionModelEulerTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     return differential_->checkData(d->differential);
   } else {
     return false;
diff --git a/include/crocoddyl/core/integrator/rk.hxx b/include/crocoddyl/core/integrator/rk.hxx
index 188695e..26306a1 100644
--- a/include/crocoddyl/core/integrator/rk.hxx
+++ b/include/crocoddyl/core/integrator/rk.hxx
@@ -353,7 +353,7 @@ template <typename Scalar>
 bool IntegratedActionModelRKTpl<Scalar>::checkData(
     const std::shared_ptr<ActionDataAbstract>& data) {
   std::shared_ptr<Data> d = std::dynamic_pointer_cast<Data>(data);
-  if (data != NULL) {
+  if (d != NULL) {
     for (std::size_t i = 0; i < ni_; ++i) {
       if (!differential_->checkData(d->differential[i])) {
         return false;
-- 
2.43.0


From c381e3534f95a97a27ba9aa31cbf310c879e4297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:33 +0000
Subject: [PATCH 36/36] fix: set_LQR rejects transition and control matrices
 with a wrong number of columns

---
 include/crocoddyl/core/actions/diff-lqr.hxx | 15 +++++++++------
 include/crocoddyl/core/actions/lqr.hxx      | 12 +++++++-----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/crocoddyl/core/actions/diff-lqr.hxx b/include/crocoddyl/core/actions/diff-lqr.hxx
index dbb7101..5bee72c 100644
--- a/include/crocoddyl/core/actions/diff-lqr.hxx
+++ b/include/crocoddyl/core/actions/diff-lqr.hxx
@@ -357,20 +357,23 @@ void DifferentialActionModelLQRTpl<Scalar>::set_LQR(
     const MatrixXs& H, const VectorXs& f, const VectorXs& q, const VectorXs& r,
     const VectorXs& g, const VectorXs& h) {
   const std::size_t nq = state_->get_nq();
-  if (static_cast<std::size_t>(Aq.rows()) != nq) {
+  if (static_cast<std::size_t>(Aq.rows()) != nq ||
+      static_cast<std::size_t>(Aq.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Aq should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(Av.rows()) != nq) {
+  if (static_cast<std::size_t>(Av.rows()) != nq ||
+      static_cast<std::size_t>(Av.cols()) != nq) {
     throw_pretty(
         "Invalid argument: " << "Av should be a squared matrix with size " +
                                     std::to_string(nq));
   }
-  if (static_cast<std::size_t>(B.rows()) != nq) {
-    throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nq) + " rows)");
+  if (static_cast<std::size_t>(B.rows()) != nq ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
+    throw_pretty("Invalid argument: "
+                 << "B has wrong dimension (it should be " +
+                        std::to_string(nq) + " x " + std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != 2 * nq ||
       static_cast<std::size_t>(Q.cols()) != 2 * nq) {
diff --git a/include/crocoddyl/core/actions/lqr.hxx b/include/crocoddyl/core/actions/lqr.hxx
index c8bcba7..78bca51 100644
--- a/include/crocoddyl/core/actions/lqr.hxx
+++ b/include/crocoddyl/core/actions/lqr.hxx
@@ -339,15 +339,17 @@ void ActionModelLQRTpl<Scalar>::set_LQR(const MatrixXs& A, const MatrixXs& B,
                                         const VectorXs& q, const VectorXs& r,
                                         const VectorXs& g, const VectorXs& h) {
   const std::size_t nx = state_->get_nx();
-  if (static_cast<std::size_t>(A.rows()) != nx) {
+  if (static_cast<std::size_t>(A.rows()) != nx ||
+      static_cast<std::size_t>(A.cols()) != nx) {
     throw_pretty(
         "Invalid argument: " << "A should be a squared matrix with size " +
                                     std::to_string(nx));
   }
-  if (static_cast<std::size_t>(B.rows()) != nx) {
-    throw_pretty(
-        "Invalid argument: " << "B has wrong dimension (it should have " +
-                                    std::to_string(nx) + " rows)");
+  if (static_cast<std::size_t>(B.rows()) != nx ||
+      static_cast<std::size_t>(B.cols()) != nu_) {
+    throw_pretty("Invalid argument: "
+                 << "B has wrong dimension (it should be " +
+                        std::to_string(nx) + " x " + std::to_string(nu_) + ")");
   }
   if (static_cast<std::size_t>(Q.rows()) != nx ||
       static_cast<std::size_t>(Q.cols()) != nx) {
-- 
2.43.0

