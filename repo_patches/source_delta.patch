From c57f6f601041bde0e39aca1f4a4f903c684b0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 01/21] fix: impose input limits on the DDP rollouts

The forward pass applied the feedback gains to the clamped feedforward term without
clamping the result, and the initial guess was never projected, so the plan returned
with with_input_constraint could violate the limits.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.h   |  6 ++++++
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.h b/nmpc_ddp/include/nmpc_ddp/DDPSolver.h
index da59986..5a8fc8e 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.h
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.h
@@ -324,6 +324,12 @@ protected:
   */
   void forwardPass(double alpha);
 
+  /** \brief Impose the input limits (does nothing when with_input_constraint in configuration is false).
+      \param t time [sec]
+      \param u input
+  */
+  void imposeInputLimits(double t, InputDimVector & u) const;
+
 protected:
   //! Configuration
   Configuration config_;
diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index a34bc82..1e8d990 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -87,6 +87,7 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
   for(int i = 0; i < config_.horizon_steps; i++)
   {
     double t = current_t_ + i * problem_->dt();
+    imposeInputLimits(t, control_data_.u_list[i]);
     control_data_.x_list[i + 1] = problem_->stateEq(t, control_data_.x_list[i], control_data_.u_list[i]);
     control_data_.cost_list[i] = problem_->runningCost(t, control_data_.x_list[i], control_data_.u_list[i]);
   }
@@ -545,10 +546,11 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
     candidate_control_data_.u_list[i] = control_data_.u_list[i] + alpha * k_list_[i]
                                         + K_list_[i] * (candidate_control_data_.x_list[i] - control_data_.x_list[i]);
 
-    // \todo Impose constraints on input
+    // Impose constraints on input
+    double t = current_t_ + i * problem_->dt();
+    imposeInputLimits(t, candidate_control_data_.u_list[i]);
 
     // Calculate next state and cost
-    double t = current_t_ + i * problem_->dt();
     candidate_control_data_.x_list[i + 1] =
         problem_->stateEq(t, candidate_control_data_.x_list[i], candidate_control_data_.u_list[i]);
     candidate_control_data_.cost_list[i] =
@@ -559,6 +561,16 @@ void DDPSolver<StateDim, InputDim>::forwardPass(double alpha)
       problem_->terminalCost(terminal_t, candidate_control_data_.x_list[config_.horizon_steps]);
 }
 
+template<int StateDim, int InputDim>
+void DDPSolver<StateDim, InputDim>::imposeInputLimits(double t, InputDimVector & u) const
+{
+  if(config_.with_input_constraint && u.size() > 0)
+  {
+    const auto & u_limits = input_limits_func_(t);
+    u = u.cwiseMin(u_limits[1]).cwiseMax(u_limits[0]).eval();
+  }
+}
+
 template<int StateDim, int InputDim>
 void DDPSolver<StateDim, InputDim>::dumpTraceDataList(const std::string & file_path) const
 {
-- 
2.43.0


From 08b7a550ea386122ed0fcb453378235ed6341f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 02/21] fix: record cost and regularization in the DDP trace of
 a terminal iteration

The trace entry of an iteration that ends by the gradient test or by a failed backward
pass reported zero cost, lambda and dlambda.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 1e8d990..1583a47 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -153,6 +153,9 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
   trace_data_list_.push_back(TraceData());
   auto & trace_data = trace_data_list_.back();
   trace_data.iter = iter;
+  trace_data.cost = control_data_.cost_list.sum();
+  trace_data.lambda = lambda_;
+  trace_data.dlambda = dlambda_;
 
   // Step 1: differentiate dynamics and cost along new trajectory
   {
@@ -194,6 +197,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       // Increase lambda
       dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);
       lambda_ = std::max(lambda_ * dlambda_, config_.lambda_min);
+      trace_data.lambda = lambda_;
+      trace_data.dlambda = dlambda_;
       if(lambda_ > config_.lambda_max)
       {
         if(config_.print_level >= 1)
-- 
2.43.0


From 06f86430034df0e95ff37334a536270d4ea69a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 03/21] fix: treat non-finite DDP gains as a failed backward
 pass

NaN gains were dropped by std::max in the gradient test, so solve() could report success
although the derivatives of the problem were not finite.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 1583a47..86b1575 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -522,6 +522,15 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
       K.setZero(0, problem_->stateDim());
     }
 
+    if(!k.allFinite() || !K.allFinite())
+    {
+      if(config_.print_level >= 1)
+      {
+        std::cout << "[DDP/Backward] Gains contain NaN or infinity." << std::endl;
+      }
+      return false;
+    }
+
     computation_duration_.gain += calcDuration(start_time_gain, std::chrono::system_clock::now());
 
     // Update cost-to-go approximation
-- 
2.43.0


From d82fd5350cc5a206dab7ff622f0593f2202a74a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:32 +0000
Subject: [PATCH 04/21] fix: accept a zero DDP step when no cost change is
 expected

Starting at an exactly stationary plan the cost update ratio was 0/0, every step was
rejected and solve() reported failure.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 86b1575..9a47a89 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -254,10 +254,11 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
       cost_update_actual = control_data_.cost_list.sum() - candidate_control_data_.cost_list.sum();
       cost_update_expected = -1 * alpha * (dV_[0] + alpha * dV_[1]);
       cost_update_ratio = cost_update_actual / cost_update_expected;
-      if(cost_update_expected < 0)
+      if(cost_update_expected <= 0)
       {
-        if((!config_.with_input_constraint && config_.print_level >= 0)
-           || (config_.with_input_constraint && config_.print_level >= 2))
+        if(cost_update_expected < 0
+           && ((!config_.with_input_constraint && config_.print_level >= 0)
+               || (config_.with_input_constraint && config_.print_level >= 2)))
         {
           std::cout << "[DDP/Forward] Value is not expected to decrease." << std::endl;
         }
-- 
2.43.0


From 47dc3d1629d8a30d4adb498e674df8ba2f79cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 05/21] fix: make the FMPC solver compile with dynamic
 inequality dimension

Eigen's static Identity() is only available for fixed-size matrices.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 42503b1..0787fee 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -886,7 +886,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
       merit_func_const += const_func.template lpNorm<1>();
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.C, delta_x);
       merit_deriv_const += l1NormDirectionalDeriv(const_func, coeff.D, delta_u);
-      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity().eval(), delta_s);
+      merit_deriv_const += l1NormDirectionalDeriv(const_func, IneqIneqDimMatrix::Identity(s.size(), s.size()).eval(), delta_s);
     }
   }
 
-- 
2.43.0


From 82626e661f567f15cfb9349b7929adb40d6010c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:48 +0000
Subject: [PATCH 06/21] fix: support FMPC steps without inequality constraints

minCoeff()/maxCoeff() were called on empty vectors, and the barrier parameter became NaN
when no step of the horizon has an inequality constraint.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 0787fee..810d4b3 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -383,11 +383,18 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
     int total_ineq_dim = 0;
     for(int i = 0; i < config_.horizon_steps; i++)
     {
+      if(variable_.s_list[i].size() == 0)
+      {
+        continue;
+      }
       s_nu_ave += variable_.s_list[i].dot(variable_.nu_list[i]);
       s_nu_min = std::min(s_nu_min, variable_.s_list[i].cwiseProduct(variable_.nu_list[i]).minCoeff());
       total_ineq_dim += static_cast<int>(variable_.s_list[i].size());
     }
-    s_nu_ave /= total_ineq_dim;
+    if(total_ineq_dim > 0)
+    {
+      s_nu_ave /= total_ineq_dim;
+    }
 
     double sigma = 0.5;
     // The following equations follow (19.20) in "Nocedal, Wright. Numerical optimization" but does not work
@@ -909,7 +916,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::setupMeritFunc()
     {
       merit_const_scale_ = std::max(merit_const_scale_, variable_.lambda_list[i].cwiseAbs().maxCoeff());
 
-      if(i < config_.horizon_steps)
+      if(i < config_.horizon_steps && variable_.nu_list[i].size() > 0)
       {
         merit_const_scale_ = std::max(merit_const_scale_, variable_.nu_list[i].cwiseAbs().maxCoeff());
       }
-- 
2.43.0


From cfa06bd6f87461ced7b357df68375bffa14a647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:25 +0000
Subject: [PATCH 07/21] fix: initialize the unused members of the FMPC terminal
 coefficient

The NaN check of the backward pass reads every member of the terminal coefficient, but with
fixed dimensions most of them were never written, so that solve() could fail depending on
the previous content of the memory.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 810d4b3..5ec3458 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -122,6 +122,23 @@ FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim,
 template<int StateDim, int InputDim, int IneqDim>
 FmpcSolver<StateDim, InputDim, IneqDim>::Coefficient::Coefficient(int state_dim)
 {
+  // The members that are not used in the terminal step are also initialized because they are checked in containsNaN()
+  A.setZero();
+  B.setZero();
+  C.setZero();
+  D.setZero();
+
+  Lu.setZero();
+  Luu.setZero();
+  Lxu.setZero();
+
+  x_bar.setZero();
+  g_bar.setZero();
+  Lu_bar.setZero();
+
+  k.setZero();
+  K.setZero();
+
   Lx.resize(state_dim);
   Lxx.resize(state_dim, state_dim);
   Lx_bar.resize(state_dim);
-- 
2.43.0


From a066e19ff8de29d125b269a3e8dbf94a5e51e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:25 +0000
Subject: [PATCH 08/21] fix: check the FMPC initial variable before
 initializing its complementarity variables

With init_complementary_variable the lists were indexed before their length was checked, so a
guess of the wrong length was accessed out of bounds instead of being rejected.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h   |  6 ++++--
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
index e529562..fdc775c 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h
@@ -345,8 +345,10 @@ public:
   void dumpTraceDataList(const std::string & file_path) const;
 
 protected:
-  /** \brief Check optimization variables. */
-  void checkVariable() const;
+  /** \brief Check optimization variables.
+      \param check_complementary_variable whether to check the elements of complementarity variables
+  */
+  void checkVariable(bool check_complementary_variable = true) const;
 
   /** \brief Process one iteration.
       \param iter current iteration
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 5ec3458..d526930 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -188,6 +188,8 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   // Initialize complementarity variables
   if(config_.init_complementary_variable)
   {
+    checkVariable(false);
+
     constexpr double initial_barrier_eps = 1e-4;
     constexpr double complementary_variable_margin_rate = 1e-2;
     constexpr double complementary_variable_min = 1e-2;
@@ -299,7 +301,7 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::dumpTraceDataList(const std::strin
   }
 }
 template<int StateDim, int InputDim, int IneqDim>
-void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
+void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable(bool check_complementary_variable) const
 {
   // Check sequence length
   if(static_cast<int>(variable_.x_list.size()) != config_.horizon_steps + 1)
@@ -344,6 +346,10 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
     }
     if constexpr(IneqDim == Eigen::Dynamic)
     {
+      if(!check_complementary_variable)
+      {
+        continue;
+      }
       double t = current_t_ + i * problem_->dt();
       int ineq_dim = problem_->ineqDim(t);
       if(variable_.s_list[i].size() != ineq_dim)
@@ -361,6 +367,11 @@ void FmpcSolver<StateDim, InputDim, IneqDim>::checkVariable() const
     }
   }
 
+  if(!check_complementary_variable)
+  {
+    return;
+  }
+
   // Check non-negative
   for(int i = 0; i < config_.horizon_steps; i++)
   {
-- 
2.43.0


From 574816c3ee9f2567850ca6bdcce8a9b93ad194a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:03 +0000
Subject: [PATCH 09/21] fix: do not let BoxQP stop at a point where only the
 limits shortened the step

---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index 0b42fa5..ed72260 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -163,6 +163,7 @@ public:
     VarDimVector grad = VarDimVector::Zero(var_dim_);
     VarDimArray clamped_flag = VarDimArray::Zero(var_dim_);
     VarDimArray old_clamped_flag = clamped_flag;
+    bool step_shortened = false;
     int iter = 1;
     free_idxs_.clear();
     for(;; iter++)
@@ -172,8 +173,8 @@ public:
       auto & trace_data = trace_data_list_.back();
       trace_data.iter = iter;
 
-      // Check relative improvement
-      if(iter > 1 && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
+      // Check relative improvement (a step shortened by linesearch may be short only because of the limits)
+      if(iter > 1 && !step_shortened && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
       {
         retval_ = 4;
         break;
@@ -325,6 +326,7 @@ public:
       trace_data.step_num = step_num;
 
       // Accept candidate
+      step_shortened = (step_num > 0 && step >= config_.min_step);
       x = x_candidate;
       obj = obj_candidate;
 
-- 
2.43.0


From e75a9778734fcc02b0aa43972c0f6313e9cfabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:26 +0000
Subject: [PATCH 10/21] fix: do not report DDP convergence on a plan whose cost
 is not finite

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 9a47a89..f85dedb 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -1,6 +1,7 @@
 /* Author: Masaki Murooka */
 
 #include <chrono>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 
@@ -226,7 +227,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
     k_rel_norm = std::max(k_rel_norm, k_list_[i].norm() / (control_data_.u_list[i].norm() + 1.0));
   }
   trace_data.k_rel_norm = k_rel_norm;
-  if(k_rel_norm < config_.k_rel_norm_thre && lambda_ < config_.lambda_thre)
+  if(k_rel_norm < config_.k_rel_norm_thre && lambda_ < config_.lambda_thre
+     && std::isfinite(control_data_.cost_list.sum()))
   {
     if(config_.print_level >= 2)
     {
-- 
2.43.0


From 1c7bd49dcc586fb7b1dd3b693c19a4b7a81e64fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:52 +0000
Subject: [PATCH 11/21] fix: report a CGMRES setup that ended in non-finite
 values

Newton's method on a non-convex Hamiltonian can end in NaN, for which
norm() > tol is false, so setup() returned as if it had converged.
---
 nmpc_cgmres/src/CgmresSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_cgmres/src/CgmresSolver.cpp b/nmpc_cgmres/src/CgmresSolver.cpp
index a72e0f5..0714161 100644
--- a/nmpc_cgmres/src/CgmresSolver.cpp
+++ b/nmpc_cgmres/src/CgmresSolver.cpp
@@ -39,7 +39,7 @@ void CgmresSolver::setup()
     gmres.solve(Amul_func, -DhDu, delta_u, problem_->dim_uc_, 1e-10);
     u_ += delta_u;
   }
-  if(DhDu.norm() > DhDu_tol)
+  if(!(DhDu.norm() <= DhDu_tol))
   {
     std::cout << "failed to converge u in setup." << std::endl;
   }
-- 
2.43.0


From 699d659838687a54a9874fd376cdf98df02ed00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:55 +0000
Subject: [PATCH 12/21] fix: do not let BoxQP jam at a negligible distance from
 its limits

A variable pushed against a limit from a distance of about 1e-12 blocked the
linesearch, and the solver reported success far from the minimum.
---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index ed72260..d5160e2 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -179,11 +179,23 @@ public:
         retval_ = 4;
         break;
       }
-      old_obj = obj;
 
       // Calculate gradient
       grad = g + H * x;
 
+      // Snap to the limits the variables that are pushed against them from a negligible distance, because they would
+      // block the linesearch
+      VarDimVector snap_dist = 1e-10 * (1 + x.array().abs());
+      VarDimVector x_snapped = (grad.array() > 0 && (x - lower).array() <= snap_dist.array()).select(lower, x);
+      x_snapped = (grad.array() < 0 && (upper - x).array() <= snap_dist.array()).select(upper, x_snapped);
+      if(x_snapped != x)
+      {
+        x = x_snapped;
+        obj = x.dot(g) + 0.5 * x.dot(H * x);
+        grad = g + H * x;
+      }
+      old_obj = obj;
+
       // Find clamped dimensions
       old_clamped_flag = clamped_flag;
       clamped_flag.setConstant(false);
-- 
2.43.0


From 8d8579186889e5bbed06b1983ed6c0172f5ca7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:57 +0000
Subject: [PATCH 13/21] fix: support fixed zero inequality dimension in
 l1NormDirectionalDeriv

FmpcProblem accepts IneqDim = 0, but the solver did not compile with it because a row of an Eigen matrix with zero rows
is not a vector expression.
---
 nmpc_fmpc/include/nmpc_fmpc/MathUtils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h b/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
index 36b0946..f5e2a5e 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
+++ b/nmpc_fmpc/include/nmpc_fmpc/MathUtils.h
@@ -18,20 +18,21 @@ double l1NormDirectionalDeriv(const Eigen::Matrix<double, OutputDim, 1> & func,
                               const Eigen::Matrix<double, OutputDim, InputDim> & jac,
                               const Eigen::Matrix<double, InputDim, 1> & dir)
 {
+  const Eigen::Matrix<double, OutputDim, 1> func_deriv = jac * dir;
   double deriv = 0.0;
   for(int i = 0; i < func.size(); i++)
   {
     if(func(i) > 0)
     {
-      deriv += jac.row(i).transpose().dot(dir);
+      deriv += func_deriv(i);
     }
     else if(func(i) < 0)
     {
-      deriv += -1 * jac.row(i).transpose().dot(dir);
+      deriv += -1 * func_deriv(i);
     }
     else
     {
-      deriv += std::abs(jac.row(i).transpose().dot(dir));
+      deriv += std::abs(func_deriv(i));
     }
   }
   return deriv;
-- 
2.43.0


From 74d5621140cb88a6cb288af4716e7be3517bd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:18 +0000
Subject: [PATCH 14/21] fix: make the DDP and FMPC solvers compile with fixed
 zero input dimension

The problem classes accept InputDim = 0, but the Cholesky decompositions of the gain calculation cannot be instantiated
with it.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp    | 6 +++++-
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index f85dedb..5bc99f0 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -454,7 +454,11 @@ bool DDPSolver<StateDim, InputDim>::backwardPass()
     // Calculate gains
     auto start_time_gain = std::chrono::system_clock::now();
 
-    if(input_dim > 0)
+    if constexpr(InputDim == 0)
+    {
+      // There is no gain to be calculated
+    }
+    else if(input_dim > 0)
     {
       if(config_.with_input_constraint)
       {
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index d526930..cc9395d 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -625,7 +625,11 @@ bool FmpcSolver<StateDim, InputDim, IneqDim>::backwardPass()
       auto start_time_gain_solve = std::chrono::system_clock::now();
 
       int input_dim = static_cast<int>(B.cols());
-      if(input_dim > 0)
+      if constexpr(InputDim == 0)
+      {
+        // There is no gain to be calculated
+      }
+      else if(input_dim > 0)
       {
         // In numerically difficult cases, LLT may diverge and LDLT may work.
         Eigen::LDLT<InputInputDimMatrix> llt_G(G);
-- 
2.43.0


From bd937a76df1085c1155825b316aedf749fa76d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:50 +0000
Subject: [PATCH 15/21] fix: resize the DDP tensors when
 use_state_eq_second_derivative is changed between solves

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 5bc99f0..9eaad1f 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -75,6 +75,10 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
   else
   {
     // This assumes that the dimension is fixed, but it is efficient because it preserves existing elements
+    if(!derivative_list_.empty() && static_cast<int>(derivative_list_[0].Fxx.size()) != outer_dim)
+    {
+      derivative_list_.clear();
+    }
     derivative_list_.resize(config_.horizon_steps, Derivative(problem_->stateDim(), problem_->inputDim(), outer_dim));
   }
   k_list_.resize(config_.horizon_steps);
-- 
2.43.0


From 4493b2d830fe5ba59acff6301d4b68cb3d99779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:37 +0000
Subject: [PATCH 16/21] fix: account for the duration of passes that fail in
 DDP and FMPC

---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp    | 10 ++++++--
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 30 +++++++++++++---------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 9eaad1f..74bc40c 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -197,7 +197,8 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
   {
     auto start_time = std::chrono::system_clock::now();
 
-    while(!backwardPass())
+    bool backward_pass_success = false;
+    while(!(backward_pass_success = backwardPass()))
     {
       // Increase lambda
       dlambda_ = std::max(dlambda_ * config_.lambda_factor, config_.lambda_factor);
@@ -211,7 +212,7 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
           std::cout << "[DDP/Backward] Failure due to large lambda. (time: " << current_t_ << ", iter: " << iter << ")"
                     << std::endl;
         }
-        return -1; // Failure
+        break;
       }
       if(config_.print_level >= 3)
       {
@@ -222,6 +223,11 @@ int DDPSolver<StateDim, InputDim>::procOnce(int iter)
     double duration_backward = calcDuration(start_time, std::chrono::system_clock::now());
     trace_data.duration_backward = duration_backward;
     computation_duration_.backward += duration_backward;
+
+    if(!backward_pass_success)
+    {
+      return -1; // Failure
+    }
   }
 
   // Check for termination due to small gradient
diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index cc9395d..3159982 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -486,42 +486,48 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   {
     auto start_time = std::chrono::system_clock::now();
 
-    if(!backwardPass())
-    {
-      return Status::ErrorInBackward;
-    }
+    bool success = backwardPass();
 
     double duration = calcDuration(start_time, std::chrono::system_clock::now());
     trace_data.duration_backward = duration;
     computation_duration_.backward += duration;
+
+    if(!success)
+    {
+      return Status::ErrorInBackward;
+    }
   }
 
   // Step 3: forward pass
   {
     auto start_time = std::chrono::system_clock::now();
 
-    if(!forwardPass())
-    {
-      return Status::ErrorInForward;
-    }
+    bool success = forwardPass();
 
     double duration = calcDuration(start_time, std::chrono::system_clock::now());
     trace_data.duration_forward = duration;
     computation_duration_.forward += duration;
+
+    if(!success)
+    {
+      return Status::ErrorInForward;
+    }
   }
 
   // Step 4: update variables
   {
     auto start_time = std::chrono::system_clock::now();
 
-    if(!updateVariables())
-    {
-      return Status::ErrorInUpdate;
-    }
+    bool success = updateVariables();
 
     double duration = calcDuration(start_time, std::chrono::system_clock::now());
     trace_data.duration_update = duration;
     computation_duration_.update += duration;
+
+    if(!success)
+    {
+      return Status::ErrorInUpdate;
+    }
   }
 
   return Status::IterationContinued;
-- 
2.43.0


From dc24f168d45586dc638a91cc63205132550027df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:37 +0000
Subject: [PATCH 17/21] fix: record the last iteration of BoxQP in its trace

---
 nmpc_ddp/include/nmpc_ddp/BoxQP.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/BoxQP.h b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
index d5160e2..b8695a4 100644
--- a/nmpc_ddp/include/nmpc_ddp/BoxQP.h
+++ b/nmpc_ddp/include/nmpc_ddp/BoxQP.h
@@ -172,6 +172,10 @@ public:
       trace_data_list_.push_back(TraceData(var_dim_));
       auto & trace_data = trace_data_list_.back();
       trace_data.iter = iter;
+      trace_data.x = x;
+      trace_data.obj = obj;
+      trace_data.clamped_flag = clamped_flag;
+      trace_data.factorization_num = factorization_num;
 
       // Check relative improvement (a step shortened by linesearch may be short only because of the limits)
       if(iter > 1 && !step_shortened && (old_obj - obj) < config_.rel_improve_thre * std::abs(old_obj))
@@ -193,6 +197,8 @@ public:
         x = x_snapped;
         obj = x.dot(g) + 0.5 * x.dot(H * x);
         grad = g + H * x;
+        trace_data.x = x;
+        trace_data.obj = obj;
       }
       old_obj = obj;
 
@@ -202,6 +208,7 @@ public:
       clamped_flag =
           ((x.array() == lower.array() && grad.array() > 0) || (x.array() == upper.array() && grad.array() < 0))
               .select(true, clamped_flag);
+      trace_data.clamped_flag = clamped_flag;
 
       // Set clamped and free indices
       std::vector<int> clamped_idxs;
@@ -251,6 +258,7 @@ public:
         }
 
         factorization_num++;
+        trace_data.factorization_num = factorization_num;
       }
 
       // Check gradient norm
@@ -330,11 +338,7 @@ public:
       }
 
       // Set trace data
-      trace_data.x = x;
-      trace_data.obj = obj;
       trace_data.search_dir = search_dir;
-      trace_data.clamped_flag = clamped_flag;
-      trace_data.factorization_num = factorization_num;
       trace_data.step_num = step_num;
 
       // Accept candidate
-- 
2.43.0


From ad2245989f2b425a15f4ca7a30fc9d96bc5cfa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:37 +0000
Subject: [PATCH 18/21] fix: plot CGMRES logs with a single row

---
 nmpc_cgmres/scripts/plotCgmresData.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nmpc_cgmres/scripts/plotCgmresData.py b/nmpc_cgmres/scripts/plotCgmresData.py
index f89fdd3..8921f5b 100755
--- a/nmpc_cgmres/scripts/plotCgmresData.py
+++ b/nmpc_cgmres/scripts/plotCgmresData.py
@@ -13,9 +13,9 @@ class CgmresDataPlotter(object):
         print("load temporary files in " + file_dir + " directory")
 
         # set traj
-        self.x_traj = np.genfromtxt(file_dir+"/cgmres_x.dat", delimiter=",")
-        self.u_traj = np.genfromtxt(file_dir+"/cgmres_u.dat", delimiter=",")
-        self.err_traj = np.genfromtxt(file_dir+"/cgmres_err.dat", delimiter=",")
+        self.x_traj = np.atleast_2d(np.genfromtxt(file_dir+"/cgmres_x.dat", delimiter=","))
+        self.u_traj = np.atleast_2d(np.genfromtxt(file_dir+"/cgmres_u.dat", delimiter=","))
+        self.err_traj = np.atleast_2d(np.genfromtxt(file_dir+"/cgmres_err.dat", delimiter=","))
 
     def setupPlot(self):
         self.fig = plt.figure(figsize=plt.figaspect(1))
-- 
2.43.0


From cf7baaf2344660aed621ea43667016099f755143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:29 +0000
Subject: [PATCH 19/21] fix: clamp negative slacks and multipliers of FMPC to a
 positive value

std::numeric_limits<double>::lowest() is the most negative double, so the
clamp that restores positivity after the update did nothing.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 3159982..6ff2588 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -855,7 +855,7 @@ bool FmpcSolver<StateDim, InputDim, IneqDim>::updateVariables()
       variable_.s_list[i] += alpha_s * delta_variable_.s_list[i];
       variable_.nu_list[i] += alpha_nu * delta_variable_.nu_list[i];
 
-      constexpr double min_positive_value = std::numeric_limits<double>::lowest();
+      constexpr double min_positive_value = std::numeric_limits<double>::min();
       if((variable_.s_list[i].array() < 0).any())
       {
         if(config_.print_level >= 1)
-- 
2.43.0


From 9ebc8e6deb5e6aea709f90cc41497c2991b6d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:39 +0000
Subject: [PATCH 20/21] fix: DDP start state given by reference into the
 previous plan

Resizing the state sequence for a longer horizon invalidated the reference
before the state was copied.
---
 nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
index 74bc40c..8e82694 100644
--- a/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
+++ b/nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp
@@ -86,9 +86,10 @@ bool DDPSolver<StateDim, InputDim>::solve(double current_t,
 
   // Initialize state and cost sequence
   control_data_.u_list = initial_u_list;
+  const StateDimVector initial_x = current_x; // current_x may refer to an element of x_list, which is resized
   control_data_.x_list.resize(config_.horizon_steps + 1);
   control_data_.cost_list.resize(config_.horizon_steps + 1);
-  control_data_.x_list[0] = current_x;
+  control_data_.x_list[0] = initial_x;
   for(int i = 0; i < config_.horizon_steps; i++)
   {
     double t = current_t_ + i * problem_->dt();
-- 
2.43.0


From 4b2c515975f7e9b3a924adad82b3870a230df9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:55 +0000
Subject: [PATCH 21/21] fix: verbose FMPC solve without an iteration

With max_iter = 0 and print level 3 the last element of an empty trace was
printed.
---
 nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
index 6ff2588..648b228 100644
--- a/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
+++ b/nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp
@@ -269,7 +269,7 @@ typename FmpcSolver<StateDim, InputDim, IneqDim>::Status FmpcSolver<StateDim, In
   if(config_.print_level >= 3)
   {
     std::cout << "[FMPC] Solve finised. status: " << static_cast<int>(status)
-              << ", iter: " << trace_data_list_.back().iter << std::endl;
+              << ", iter: " << (trace_data_list_.empty() ? 0 : trace_data_list_.back().iter) << std::endl;
   }
 
   return status;
-- 
2.43.0

