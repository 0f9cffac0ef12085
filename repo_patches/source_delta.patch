From 7a5b083570fcf3d9d5dcb3f0ec822b46daf47912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 01/45] fix: keep the cross terms between sparsity intervals in
 the QP Hessian

With use_sparsity (the default), a soft equality involving non-contiguous
columns only contributed the diagonal blocks of A^T A, so that e.g. the soft
constraint x0 + x2 == 1 gave x0 = x2 = 1.
---
 src/placo/problem/problem.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index ff53c15..929cb70 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -229,14 +229,19 @@ void Problem::solve()
 
         int constraints = expression_A.rows();
 
-        for (auto interval : sparsity.intervals)
+        for (auto row_interval : sparsity.intervals)
         {
-          int size = 1 + interval.end - interval.start;
+          int row_size = 1 + row_interval.end - row_interval.start;
+          Eigen::MatrixXd row_block = expression_A.block(0, row_interval.start, constraints, row_size);
 
-          Eigen::MatrixXd block = expression_A.block(0, interval.start, constraints, size);
+          for (auto col_interval : sparsity.intervals)
+          {
+            int col_size = 1 + col_interval.end - col_interval.start;
 
-          P.block(interval.start, interval.start, size, size).noalias() +=
-              constraint->weight * block.transpose() * block;
+            P.block(row_interval.start, col_interval.start, row_size, col_size).noalias() +=
+                constraint->weight * row_block.transpose() *
+                expression_A.block(0, col_interval.start, constraints, col_size);
+          }
         }
 
         q.block(0, 0, expression_A.cols(), 1).noalias() +=
-- 
2.43.0


From 217887a11536bad5046eab14b592fa6a1f906e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 02/45] fix: check the constraint sizes before writing them in
 the QP

The hard equalities were copied in the constraint matrix (out of its bounds)
before the size of the expressions was checked.
---
 src/placo/problem/problem.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 929cb70..f091be2 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -112,6 +112,23 @@ void Problem::get_constraint_expressions(ProblemConstraint* constraint, Eigen::M
 
 void Problem::solve()
 {
+  // Checking the sizes before any use of the expressions
+  for (auto constraint : constraints)
+  {
+    if (constraint->expression.cols() > n_variables)
+    {
+      throw QPError("Problem: Inconsistent problem size");
+    }
+    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
+    {
+      throw QPError("Problem: A or b is empty");
+    }
+    if (constraint->expression.A.rows() != constraint->expression.b.rows())
+    {
+      throw QPError("Problem: A.rows() != b.rows()");
+    }
+  }
+
   n_equalities = 0;
   n_inequalities = 0;
   slack_variables = 0;
@@ -197,19 +214,6 @@ void Problem::solve()
   // Scanning the constraints (counting inequalities and equalities, building objectif function)
   for (auto constraint : constraints)
   {
-    if (constraint->expression.cols() > n_variables)
-    {
-      throw QPError("Problem: Inconsistent problem size");
-    }
-    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
-    {
-      throw QPError("Problem: A or b is empty");
-    }
-    if (constraint->expression.A.rows() != constraint->expression.b.rows())
-    {
-      throw QPError("Problem: A.rows() != b.rows()");
-    }
-
     if (constraint->type == ProblemConstraint::Inequality)
     {
       // If the constraint is hard, this will be the true inequality, else, this will be the inequality
-- 
2.43.0


From fd82aec3a12d358841280a3c878e0f24f8d60ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:43 +0000
Subject: [PATCH 03/45] fix: keep the last solution in Problem::x when solve()
 fails

---
 src/placo/problem/problem.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index f091be2..e4f3be3 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -332,6 +332,9 @@ void Problem::solve()
   double result =
       eiquadprog::solvers::solve_quadprog(P, q, A.transpose(), b, G.transpose(), h, qp_x, active_set, active_set_size);
 
+  // The last solution is only replaced when the resolution succeeds
+  Eigen::VectorXd solution;
+
   if (determined_variables)
   {
     Eigen::VectorXd u(n_variables, 1);
@@ -339,11 +342,11 @@ void Problem::solve()
     u.topRows(determined_variables) = y;
     u.bottomRows(free_variables) = qp_x.topRows(free_variables);
     QR.matrixQ().applyThisOnTheLeft(u);
-    x = u;
+    solution = u;
   }
   else
   {
-    x = qp_x;
+    solution = qp_x;
   }
 
   // Checking that the problem is indeed feasible
@@ -355,7 +358,7 @@ void Problem::solve()
   // Checking that equality constraints were enforced, since this is not covered by above result
   if (A.rows() > 0)
   {
-    Eigen::VectorXd equality_constraints = A * x.topRows(A.cols()) + b;
+    Eigen::VectorXd equality_constraints = A * solution.topRows(A.cols()) + b;
     for (int k = 0; k < A.rows(); k++)
     {
       if (fabs(equality_constraints[k]) > 1e-6)
@@ -366,11 +369,13 @@ void Problem::solve()
   }
 
   // Checking for NaNs in solution
-  if (x.hasNaN())
+  if (solution.hasNaN())
   {
     throw QPError("Problem: NaN in the QP solution");
   }
 
+  x = solution;
+
   // Reporting on the active constraints
   for (int k = 0; k < active_set_size; k++)
   {
-- 
2.43.0


From fdd40f25c282c4778100c238c94caa7d69d4458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:19 +0000
Subject: [PATCH 04/45] fix: size the equality constraints with the slack
 variables

Without rewrite_equalities, hard equalities used along with soft inequalities
gave the QP solver an equality matrix smaller than the decision vector, which it
read out of bounds.
---
 src/placo/problem/problem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index e4f3be3..0af0b09 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -200,6 +200,12 @@ void Problem::solve()
     A.resize(0, 0);
     b.resize(0);
   }
+  else if (A.rows() > 0)
+  {
+    // Slack variables don't appear in the equality constraints
+    A.conservativeResize(Eigen::NoChange, n_variables + slack_variables);
+    A.rightCols(slack_variables).setZero();
+  }
 
   Eigen::MatrixXd P(free_variables + slack_variables, free_variables + slack_variables);
   Eigen::VectorXd q(free_variables + slack_variables);
-- 
2.43.0


From 4f819aaa05563dd9cf6cd57d555f47964f35a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:16 +0000
Subject: [PATCH 05/45] fix: reject QP solutions that don't enforce the hard
 inequalities

On contradictory hard inequalities, eiquadprog can numerically miss the
infeasibility and return a finite cost with a meaningless solution (or, with
redundant equalities, return before handling inequalities).
---
 src/placo/problem/problem.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 0af0b09..dbecfa3 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -374,6 +374,21 @@ void Problem::solve()
     }
   }
 
+  // Same for the inequality constraints: with contradictory constraints, the solver can end with a meaningless result
+  for (auto constraint : constraints)
+  {
+    if (constraint->type == ProblemConstraint::Inequality && constraint->priority == ProblemConstraint::Hard)
+    {
+      Eigen::VectorXd inequality_constraints =
+          constraint->expression.A * solution.topRows(constraint->expression.cols()) + constraint->expression.b;
+
+      if (inequality_constraints.minCoeff() < -1e-3)
+      {
+        throw QPError("Problem: Infeasible QP (inequality constraints were not enforced)");
+      }
+    }
+  }
+
   // Checking for NaNs in solution
   if (solution.hasNaN())
   {
-- 
2.43.0


From b5acecb58c9787fa6fb8dba067362b16c211d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:31 +0000
Subject: [PATCH 06/45] fix: check the hard equalities of a rewritten QP on its
 solution

With rewrite_equalities, the equality constraints are removed from the QP, and the
check that they were enforced was skipped: with nearly dependent hard equalities, solve()
could report success with a solution that satisfies none of them.
---
 src/placo/problem/problem.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index dbecfa3..0b39240 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -171,6 +171,10 @@ void Problem::solve()
     }
   }
 
+  // Equality constraints are checked on the solution (A and b are emptied if the problem is rewritten)
+  const Eigen::MatrixXd A_equalities = A;
+  const Eigen::VectorXd b_equalities = b;
+
   free_variables = n_variables;
   determined_variables = 0;
 
@@ -362,10 +366,10 @@ void Problem::solve()
   }
 
   // Checking that equality constraints were enforced, since this is not covered by above result
-  if (A.rows() > 0)
+  if (A_equalities.rows() > 0)
   {
-    Eigen::VectorXd equality_constraints = A * solution.topRows(A.cols()) + b;
-    for (int k = 0; k < A.rows(); k++)
+    Eigen::VectorXd equality_constraints = A_equalities * solution.topRows(n_variables) + b_equalities;
+    for (int k = 0; k < A_equalities.rows(); k++)
     {
       if (fabs(equality_constraints[k]) > 1e-6)
       {
-- 
2.43.0


From 7b7bbefb087c47133c345010926fba8734bd4c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:08 +0000
Subject: [PATCH 07/45] fix: keep AxisAlignTask defined when the axis is
 aligned with its target

The rotation axis was the normalized cross product of the two axes: once they are exactly
aligned (or opposite), the task's matrices were NaN and KinematicsSolver::solve() failed.
---
 src/placo/kinematics/axis_align_task.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/axis_align_task.cpp b/src/placo/kinematics/axis_align_task.cpp
index 561f28e..1f59fda 100644
--- a/src/placo/kinematics/axis_align_task.cpp
+++ b/src/placo/kinematics/axis_align_task.cpp
@@ -20,7 +20,13 @@ void AxisAlignTask::update()
   // the rotation about z to be the error, and about y to be zero.
   Eigen::Matrix3d R_world_axisframe;
   R_world_axisframe.col(0) = (T_world_frame.rotation() * axis_frame).normalized();
-  R_world_axisframe.col(2) = R_world_axisframe.col(0).cross(targetAxis_world_normalized).normalized();
+  Eigen::Vector3d rotation_axis = R_world_axisframe.col(0).cross(targetAxis_world_normalized);
+  if (rotation_axis.norm() < 1e-12)
+  {
+    // The axes are aligned (or opposite): any orthogonal axis is suitable
+    rotation_axis = R_world_axisframe.col(0).unitOrthogonal();
+  }
+  R_world_axisframe.col(2) = rotation_axis.normalized();
   R_world_axisframe.col(1) = R_world_axisframe.col(2).cross(R_world_axisframe.col(0));
 
   // Computing the error angle we want to compensate
-- 
2.43.0


From 9de4f87e9c1a4873f3c5b3e3b34d8e70cda25e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:07 +0000
Subject: [PATCH 08/45] fix: account for the tilt of the x axis in the yaw
 constraint's Jacobian

The yaw is the angle of the projection of frame_b's x axis in the xy plane of frame_a. Its
derivative was the one of the axis itself: with a tilted axis, a step that the constraint
allowed could exceed the maximum yaw, and the correction diverged for strong tilts.
---
 src/placo/kinematics/yaw_constraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/yaw_constraint.cpp b/src/placo/kinematics/yaw_constraint.cpp
index f4d84fd..d858c1a 100644
--- a/src/placo/kinematics/yaw_constraint.cpp
+++ b/src/placo/kinematics/yaw_constraint.cpp
@@ -30,7 +30,8 @@ void YawConstraint::add_constraint(placo::problem::Problem& problem)
   Eigen::Vector3d perp_axis = Eigen::Vector3d::UnitZ().cross(x_axis).normalized();
   Eigen::Vector3d yaw_axis = x_axis.cross(perp_axis).normalized();
 
-  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative;
+  // The yaw is the angle of the projection of the x axis in the plane, which turns faster than the axis if it's tilted
+  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative / fmax(1e-6, x_axis.head<2>().norm());
 
   // Expression for the angle
   problem::Expression e;
-- 
2.43.0


From fbf1c00bc4ca3dbbc5b025116c39d17044d24019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:10 +0000
Subject: [PATCH 09/45] fix: correct the bias acceleration of the dynamics
 relative position task

---
 src/placo/dynamics/relative_position_task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/relative_position_task.cpp b/src/placo/dynamics/relative_position_task.cpp
index 9b35bfc..79e2abc 100644
--- a/src/placo/dynamics/relative_position_task.cpp
+++ b/src/placo/dynamics/relative_position_task.cpp
@@ -50,8 +50,8 @@ void RelativePositionTask::update()
   J += a_R_w * (Jb.block(0, 0, 3, solver->N) - Ja.block(0, 0, 3, solver->N));
 
   Eigen::Vector3d e = 2 * pinocchio::skew(a_omega_w) * a_R_w * w_dAB;
-  e += 2 * pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
-  e += a_R_w * (dJb.block(3, 0, 3, solver->N) - dJa.block(3, 0, 3, solver->N)) * solver->robot.state.qd;
+  e += pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
+  e += a_R_w * (dJb.block(0, 0, 3, solver->N) - dJa.block(0, 0, 3, solver->N)) * solver->robot.state.qd;
   e += pinocchio::skew(a_AB) * a_R_w * dJa.block(3, 0, 3, solver->N) * solver->robot.state.qd;
 
   A = mask.apply(J);
-- 
2.43.0


From 450b711ccf4bf33d22422875bb6d0a8e2ad3aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:10 +0000
Subject: [PATCH 10/45] fix: keep the gears of the other joints in the dynamics
 set_gear

---
 src/placo/dynamics/gear_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/dynamics/gear_task.cpp b/src/placo/dynamics/gear_task.cpp
index d5af82b..2a498ad 100644
--- a/src/placo/dynamics/gear_task.cpp
+++ b/src/placo/dynamics/gear_task.cpp
@@ -9,7 +9,7 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
-  gears.clear();
+  gears[solver->robot.get_joint_v_offset(target)].clear();
   add_gear(target, source, ratio);
 }
 
-- 
2.43.0


From d6e3a252017667774da289f9700a8e1c8c697a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:10 +0000
Subject: [PATCH 11/45] fix: penalize the tangential forces, not the normal
 one, with weight_tangentials

---
 src/placo/dynamics/contacts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 2062cd3..f76f84d 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -138,7 +138,7 @@ void Contact6D::add_constraints(Problem& problem)
   }
   if (weight_tangentials > 0)
   {
-    problem.add_constraint(f.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
@@ -212,7 +212,7 @@ void LineContact::add_constraints(Problem& problem)
   if (weight_tangentials > 0)
   {
     Expression f_surface = R_world_surface.transpose() * f;
-    problem.add_constraint(f_surface.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
-- 
2.43.0


From 8a795c9f9ba14c3d677ff674bdd4522c669849e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:10 +0000
Subject: [PATCH 12/45] fix: use the five rows of the line contact wrench
 consistently

---
 src/placo/dynamics/contacts.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index f76f84d..2d50ab2 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -184,7 +184,7 @@ void LineContact::add_constraints(Problem& problem)
     }
 
     // Expressing the force in the surface frame
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
 
     // The contact is unilateral
     problem.add_constraint(f_surface.slice(F_Z, 1) >= 0);
@@ -192,8 +192,10 @@ void LineContact::add_constraints(Problem& problem)
     // We want the ZMPs to remain in the contacts
     // We add constraints in the form of:
     // -l_1 f_x <= m_y <= l_1 f_x
-    problem.add_constraint(f_surface.slice(M_Y, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
-    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f_surface.slice(M_Y, 1));
+    // In a line contact, there are only two moments (M_Y and M_Z), M_Y is then the row 3
+    Expression m_y = f.slice(3, 1);
+    problem.add_constraint(m_y <= ((length / 2) * f_surface.slice(F_Z, 1)));
+    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= m_y);
 
     // We don't slip
     problem.add_constraint(f_surface.slice(F_X, 1) <= mu * f_surface.slice(F_Z, 1));
@@ -206,12 +208,12 @@ void LineContact::add_constraints(Problem& problem)
   // Objective
   if (weight_forces > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);
   }
   if (weight_tangentials > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
@@ -223,7 +225,7 @@ void LineContact::add_constraints(Problem& problem)
 
 Eigen::Vector3d LineContact::zmp()
 {
-  return Eigen::Vector3d(-wrench(M_Y, 0) / wrench(F_Z, 0), 0, 0);
+  return Eigen::Vector3d(-wrench(3, 0) / wrench(F_Z, 0), 0, 0);
 }
 
 ExternalWrenchContact::ExternalWrenchContact(model::RobotWrapper::FrameIndex frame_index,
-- 
2.43.0


From f7db6c0e3518b0376cbf9b04cb7b4dc4d346a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 13/45] fix: answer the foot velocities of a walk trajectory in
 double support

---
 src/placo/humanoid/walk_pattern_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2df25ab..2d92f82 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -124,7 +124,7 @@ Eigen::Affine3d WalkPatternGenerator::Trajectory::get_T_world_foot(HumanoidRobot
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Right)
+  if (is_flying(HumanoidRobot::Left, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
@@ -134,7 +134,7 @@ Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_right(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Left)
+  if (is_flying(HumanoidRobot::Right, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
-- 
2.43.0


From 9df5d7eb466c3f23d1a38df7a258944ddce44b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 14/45] fix: transform the target DCM with the support

---
 src/placo/humanoid/footsteps_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index a9262bd..d96f055 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -206,6 +206,9 @@ FootstepsPlanner::Support operator*(Eigen::Affine3d T, const FootstepsPlanner::S
   }
   new_support.computed_polygon = false;
 
+  Eigen::Vector3d target_dcm(support.target_world_dcm.x(), support.target_world_dcm.y(), 0.);
+  new_support.target_world_dcm = (T * target_dcm).head(2);
+
   return new_support;
 }
 
-- 
2.43.0


From 9a9e58a57270f85405cf99fada3e221d41b16f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 15/45] fix: keep the target DCM of the current support in
 replan_supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2d92f82..5a377a9 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -639,6 +639,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::replan_supports(Foo
       current_support.elapsed_ratio +
       elapsed_duration / (support_default_duration(current_support) * current_support.time_ratio);
   supports[0].time_ratio = current_support.time_ratio;
+  supports[0].target_world_dcm = current_support.target_world_dcm;
   return supports;
 }
 
-- 
2.43.0


From 9db752448cab4a4bd1a69d71f8fecd1d47206450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 16/45] fix: don't overwrite the trajectory's parts in
 get_prev_support

---
 src/placo/humanoid/walk_pattern_generator.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 5a377a9..2e4e878 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -280,12 +280,9 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
-  TrajectoryPart& part = _findPart(parts, t);
-  for (int i = 0; i < n; i++)
-  {
-    part = _findPart(parts, part.t_start - 1e-4);
-  }
-  return T * part.support;
+  int index;
+  _findPart(parts, t, &index);
+  return T * parts[std::max(0, index - n)].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From ab5139b25382b456f2d7e310a244d0327971f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 17/45] fix: recompute the polygon of the support moved by
 update_supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2e4e878..a52a309 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -772,6 +772,8 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
   Eigen::Vector2d world_next_zmp_val = p_world_support + R_world_support * support_next_zmp->value;
   supports[1].footsteps[0].frame.translation().x() = world_next_zmp_val(0);
   supports[1].footsteps[0].frame.translation().y() = world_next_zmp_val(1);
+  supports[1].footsteps[0].computed_polygon = false;
+  supports[1].computed_polygon = false;
 
   // Updating current support remaining duration
   double support_remaining_time = std::max(1e-3, log(tau->value(0)) / omega - elapsed_time);
-- 
2.43.0


From 1dc4ca1b619ac3d64df19a8a2aecf89997ab49e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 18/45] fix: use the mirrored DCM offset polygon on right
 supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index a52a309..38c0eb5 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -737,7 +737,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
       point(0) = -point(0);
       point(1) = -point(1);
     }
-    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), parameters.dcm_offset_polygon))
+    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), dcm_offset_polygon))
         .configure(ProblemConstraint::Soft, w_viability);
   }
   else
-- 
2.43.0


From 571b07bb96ca8269cec8272565e7bf87db089100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:42 +0000
Subject: [PATCH 19/45] fix: don't stop the naive planner before the feet
 reached their targets

---
 src/placo/humanoid/footsteps_planner_naive.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/placo/humanoid/footsteps_planner_naive.cpp b/src/placo/humanoid/footsteps_planner_naive.cpp
index 14bbb3c..a82fb1e 100644
--- a/src/placo/humanoid/footsteps_planner_naive.cpp
+++ b/src/placo/humanoid/footsteps_planner_naive.cpp
@@ -130,7 +130,12 @@ void FootstepsPlannerNaive::plan_impl(std::vector<FootstepsPlanner::Footstep>& f
 
     // Ellipsoid clipping
     Eigen::Vector3d step(error.x(), error.y(), error_yaw);
-    step = parameters.ellipsoid_clip(step);
+    Eigen::Vector3d clipped_step = parameters.ellipsoid_clip(step);
+    if (dist > place_threshold || !clipped_step.isApprox(step))
+    {
+      arrived = false;
+    }
+    step = clipped_step;
 
     // Computing new frame
     Eigen::Affine3d new_step;
-- 
2.43.0


From b1c259cb0a085b9803442f2f43ba6845eff78cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:20 +0000
Subject: [PATCH 20/45] fix: move the adapted footstep in the double support
 that follows too

---
 src/placo/humanoid/walk_pattern_generator.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 38c0eb5..0aaf81b 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -770,10 +770,21 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
 
   // Updating next support position
   Eigen::Vector2d world_next_zmp_val = p_world_support + R_world_support * support_next_zmp->value;
-  supports[1].footsteps[0].frame.translation().x() = world_next_zmp_val(0);
-  supports[1].footsteps[0].frame.translation().y() = world_next_zmp_val(1);
-  supports[1].footsteps[0].computed_polygon = false;
-  supports[1].computed_polygon = false;
+  const FootstepsPlanner::Footstep next_footstep = supports[1].footsteps[0];
+  for (int k = 1; k < std::min<int>(3, supports.size()); k++)
+  {
+    // The footstep also belongs to the double support that might follow
+    for (auto& footstep : supports[k].footsteps)
+    {
+      if (footstep == next_footstep)
+      {
+        footstep.frame.translation().x() = world_next_zmp_val(0);
+        footstep.frame.translation().y() = world_next_zmp_val(1);
+        footstep.computed_polygon = false;
+        supports[k].computed_polygon = false;
+      }
+    }
+  }
 
   // Updating current support remaining duration
   double support_remaining_time = std::max(1e-3, log(tau->value(0)) / omega - elapsed_time);
-- 
2.43.0


From 176142492c4610199414a3f478ce40275b38a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 21/45] fix: don't assume 20 actuated joints in
 get_com_velocity

---
 src/placo/humanoid/humanoid_robot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index cd38c52..c55b0fb 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -140,7 +140,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   // CoM Jacobians
   Eigen::Matrix3Xd J_C = com_jacobian();
   Eigen::Matrix3Xd J_u_C = J_C.leftCols(6);
-  Eigen::Matrix3Xd J_a_C = J_C.rightCols(20);
+  Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
   Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
@@ -151,7 +151,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::MatrixXd J(6, J_contact.cols());
   J << J_contact.topRows(3), J_IMU.bottomRows(3);
   Eigen::MatrixXd J_u = J.leftCols(6);
-  Eigen::MatrixXd J_a = J.rightCols(20);
+  Eigen::MatrixXd J_a = J.rightCols(model.nv - 6);
 
   Eigen::MatrixXd J_u_inv = J_u.inverse();
 
-- 
2.43.0


From b8ef02e19894eeb03dd264928b742601feb54805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 22/45] fix: honour the support side given to get_com_velocity

---
 src/placo/humanoid/humanoid_robot.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index c55b0fb..17bca21 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -143,7 +143,8 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
-  Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
+  FrameIndex contact_frame = (support == support_side) ? support_frame : ((support == Left) ? left_foot : right_foot);
+  Eigen::MatrixXd J_contact = frame_jacobian(contact_frame, pinocchio::ReferenceFrame::LOCAL);
 
   // IMU body Jacobian
   Eigen::MatrixXd J_IMU = frame_jacobian("trunk", "local");
-- 
2.43.0


From 0c46bfdbbc89cd5628ea419693d5338bef0d2af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 23/45] fix: aim the camera from the tilt axis in
 camera_look_at

---
 src/placo/humanoid/humanoid_robot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index 17bca21..4fde229 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -223,7 +223,7 @@ bool HumanoidRobot::camera_look_at(double& pan, double& tilt, const Eigen::Vecto
   double theta = M_PI / 2 - atan2(P_headPitchPlane_target.y(), P_headPitchPlane_target.x());
 
   // We just use beta = cos(opposed / hypothenus) to watch it with camera
-  double ratio = dist_z_pan_camera / P_headPitchPlane_target.norm();
+  double ratio = (dist_z_pan_camera - dist_z_pan_tilt) / P_headPitchPlane_target.norm();
   if (ratio > 1 || ratio < -1)
   {
     return false;
-- 
2.43.0


From 696440aadf26e7ead5b99b57e8df85a599c7231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 24/45] fix: report the feet position errors of the walk tasks
 under their own names

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 8f46098..9ccc3ec 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -150,8 +150,8 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   std::map<std::string, Eigen::Vector3d> error;
   error["left_foot_orientation"] = left_foot_task.orientation->error();
   error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_orientation"] = left_foot_task.position->error();
-  error["right_foot_orientation"] = right_foot_task.position->error();
+  error["left_foot_position"] = left_foot_task.position->error();
+  error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
   if (trunk_mode)
   {
-- 
2.43.0


From 3aef0f9632e867792c2bf0ebb32adc6180ca6004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 25/45] fix: don't read a walk task that does not exist yet in
 get_tasks_error

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 9ccc3ec..1e7f2b4 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -153,11 +153,11 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   error["left_foot_position"] = left_foot_task.position->error();
   error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
-  if (trunk_mode)
+  if (trunk_task != nullptr)
   {
     error["trunk_position"] = trunk_task->error();
   }
-  else
+  if (com_task != nullptr)
   {
     error["com_position"] = com_task->error();
   }
-- 
2.43.0


From 1a63a44066799ed9648056ec142b42890f80cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 26/45] fix: initialize the DCM error PID of the walk tasks

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 1e7f2b4..a93164a 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -12,6 +12,10 @@ void WalkTasks::initialize_tasks(KinematicsSolver* solver_, HumanoidRobot* robot
   robot = robot_;
   solver = solver_;
 
+  // Resetting the DCM error PID
+  integral.setZero();
+  last_error.setZero();
+
   left_foot_task = solver->add_frame_task("left_foot", robot->get_T_world_left());
   left_foot_task.configure("left_foot", scaled ? "scaled" : "soft", 1., 1.);
 
-- 
2.43.0


From 18b606ef53c9f854cf23c08ade7850b9344b4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:22 +0000
Subject: [PATCH 27/45] fix: update the kinematics before placing the support
 of the dummy walk

---
 src/placo/humanoid/dummy_walk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/placo/humanoid/dummy_walk.cpp b/src/placo/humanoid/dummy_walk.cpp
index ebb7718..9c442a6 100644
--- a/src/placo/humanoid/dummy_walk.cpp
+++ b/src/placo/humanoid/dummy_walk.cpp
@@ -94,6 +94,9 @@ void DummyWalk::update_T_world_support(Eigen::Affine3d T_world_support)
   T_world_right = tools::flatten_on_floor(T * T_world_right);
   T_world_next = tools::flatten_on_floor(T * T_world_next);
 
+  // The frames are outdated since the last solve
+  robot.update_kinematics();
+
   if (support_left)
   {
     robot.set_T_world_frame("left_foot", T_world_left);
-- 
2.43.0


From 23be53fd9ab5ac56f5819bba7bded50bc186ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:13 +0000
Subject: [PATCH 28/45] fix: refuse unknown joint names in the joint accessors

---
 src/placo/model/robot_wrapper.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 152501c..c06b222 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -193,7 +193,7 @@ double RobotWrapper::get_joint(const std::string& name)
   return state.q[get_joint_offset(name)];
 }
 
-int RobotWrapper::get_joint_offset(const std::string& name)
+static pinocchio::JointIndex get_joint_index(const pinocchio::Model& model, const std::string& name)
 {
   if (!model.existJointName(name))
   {
@@ -202,25 +202,30 @@ int RobotWrapper::get_joint_offset(const std::string& name)
     throw std::runtime_error(oss.str());
   }
 
-  auto index = model.getJointId(name);
+  return model.getJointId(name);
+}
+
+int RobotWrapper::get_joint_offset(const std::string& name)
+{
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_q();
 }
 
 int RobotWrapper::get_joint_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nq();
 }
 
 int RobotWrapper::get_joint_v_offset(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_v();
 }
 
 int RobotWrapper::get_joint_v_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nv();
 }
 
@@ -585,7 +590,7 @@ Eigen::MatrixXd RobotWrapper::frame_jacobian_time_variation(pinocchio::FrameInde
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From b383ce11cb6dbd23eb25ec58d8f4d8a155fff7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:13 +0000
Subject: [PATCH 29/45] fix: joint_jacobian_time_variation by name returned the
 Jacobian itself

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index c06b222..8df11f5 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -604,7 +604,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian_time_variation(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From d00548bb832a00b549dbff8e73fe3fb5c6fb9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:13 +0000
Subject: [PATCH 30/45] fix: account for the base acceleration when computing
 torques with a fixed frame

---
 src/placo/model/robot_wrapper.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 8df11f5..0a99bcb 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -741,15 +741,20 @@ Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::
   auto h = non_linear_effects();
   auto M = mass_matrix();
 
-  // Compute f the forces fixing the frame
+  // Since the frame is fixed (J * qdd + dJ * qd = 0), the acceleration of the floating base follows from the one of
+  // the actuated DOFs
   Eigen::MatrixXd J = frame_jacobian(frameIndex);
-  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * h.block(0, 0, 6, 1);
+  Eigen::MatrixXd dJ = frame_jacobian_time_variation(frameIndex);
+  Eigen::VectorXd qdd(model.nv);
+  qdd.bottomRows(model.nv - 6) = qdd_a;
+  qdd.topRows(6) = -J.leftCols(6).inverse() * (J.rightCols(model.nv - 6) * qdd_a + dJ * state.qd);
 
-  auto h_a = h.bottomRows(model.nv - 6);
-  auto M_a = M.bottomRightCorner(model.nv - 6, model.nv - 6);
+  // Compute f the forces fixing the frame
+  Eigen::VectorXd tau = M * qdd + h;
+  Eigen::VectorXd f = J.leftCols(6).transpose().inverse() * tau.topRows(6);
 
   // Compute the torques
-  return M_a * qdd_a + h_a - (J.transpose() * f).bottomRows(model.nv - 6);
+  return (tau - J.transpose() * f).bottomRows(model.nv - 6);
 }
 
 Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::VectorXd qdd_a, std::string frame)
-- 
2.43.0


From d986d5f58bedb91056df20b2da67f441eea2a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:13 +0000
Subject: [PATCH 31/45] fix: keep the collision pairs when loading new ones
 fails

---
 src/placo/model/robot_wrapper.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 0a99bcb..248423e 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -372,7 +372,8 @@ void RobotWrapper::load_collision_pairs(const std::string& filename)
     }
   }
 
-  collision_model.removeAllCollisionPairs();
+  // The pairs are only replaced once they are all known, so that a failure leaves the robot unchanged
+  std::vector<pinocchio::CollisionPair> pairs;
 
   std::ifstream f(filename);
   if (!f.is_open())
@@ -392,7 +393,12 @@ void RobotWrapper::load_collision_pairs(const std::string& filename)
         size_t k1 = entry[0].asInt();
         size_t k2 = entry[1].asInt();
 
-        collision_model.addCollisionPair(pinocchio::CollisionPair(k1, k2));
+        if (k1 >= collision_model.ngeoms || k2 >= collision_model.ngeoms)
+        {
+          throw std::runtime_error("Collision pair offset is out of range");
+        }
+
+        pairs.push_back(pinocchio::CollisionPair(k1, k2));
       }
       else if (entry[0].isString() && entry[1].isString())
       {
@@ -411,7 +417,7 @@ void RobotWrapper::load_collision_pairs(const std::string& filename)
         {
           for (size_t k2 : name_to_objects[obj2])
           {
-            collision_model.addCollisionPair(pinocchio::CollisionPair(k1, k2));
+            pairs.push_back(pinocchio::CollisionPair(k1, k2));
           }
         }
       }
@@ -421,6 +427,12 @@ void RobotWrapper::load_collision_pairs(const std::string& filename)
       }
     }
   }
+
+  collision_model.removeAllCollisionPairs();
+  for (auto& pair : pairs)
+  {
+    collision_model.addCollisionPair(pair);
+  }
 }
 
 Eigen::Affine3d RobotWrapper::get_T_world_frame(const std::string& frame)
-- 
2.43.0


From 3caed6218ce3188bc9eddfb183153d20daba5fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:13 +0000
Subject: [PATCH 32/45] fix: leave the floating base out of joint_names
 whatever its name

---
 src/placo/model/robot_wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 248423e..731c56d 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -779,8 +779,8 @@ std::vector<std::string> RobotWrapper::joint_names(bool include_floating_base)
   std::vector<std::string> joints = model.names;
   if (!include_floating_base)
   {
-    joints.erase(std::remove(joints.begin(), joints.end(), "universe"), joints.end());
-    joints.erase(std::remove(joints.begin(), joints.end(), "root_joint"), joints.end());
+    // The first joints are the universe and the floating base (which MJCF files can name as they want)
+    joints.erase(joints.begin(), joints.begin() + 2);
   }
   return joints;
 }
-- 
2.43.0


From 824e2d15b1c8ac9b3ed15f3d9a7af964fdd85845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:06 +0000
Subject: [PATCH 33/45] fix: do not delete the user's tasks when removing them
 from the dynamics solver

---
 src/placo/dynamics/dynamics_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index e112249..1edcd73 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -566,7 +566,10 @@ void DynamicsSolver::remove_task(Task& task)
 {
   tasks.erase(&task);
 
-  delete &task;
+  if (task.solver_memory)
+  {
+    delete &task;
+  }
 }
 
 void DynamicsSolver::remove_task(FrameTask& task)
-- 
2.43.0


From 452133e7e8ede4901b9475a95877024ab66eaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:37 +0000
Subject: [PATCH 34/45] fix: the mean of an expression is over its rows

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index ad96bb3..4c83c0e 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -253,8 +253,8 @@ Expression Expression::sum()
 Expression Expression::mean()
 {
   Expression e = sum();
-  e.A /= (double)cols();
-  e.b /= (double)cols();
+  e.A /= (double)rows();
+  e.b /= (double)rows();
 
   return e;
 }
-- 
2.43.0


From cea623c9f64bd2384d311d140edacd4caa5965c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:37 +0000
Subject: [PATCH 35/45] fix: vector minus expression

---
 src/placo/problem/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 4c83c0e..9e17eb9 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -190,7 +190,7 @@ Expression Expression::operator-(const Eigen::VectorXd v) const
 
 Expression operator-(const Eigen::VectorXd v, const Expression& e)
 {
-  return e - v;
+  return (-e) + v;
 }
 
 Expression Expression::operator+(const double f) const
-- 
2.43.0


From ce931967e79b0519b2f4d7ca48cbaaae3c80390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 36/45] fix: subtracting a number from an expression of several
 rows

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 9e17eb9..2fbee34 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -208,8 +208,8 @@ Expression operator+(double f, const Expression& e)
 
 Expression Expression::operator-(const double f) const
 {
-  Eigen::VectorXd fv(1);
-  fv(0, 0) = f;
+  Eigen::VectorXd fv(rows());
+  fv.setConstant(f);
 
   return (*this) - fv;
 }
-- 
2.43.0


From 882e2f017a1de42266c8f98727883fbc7e1cad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 37/45] fix: Integrator::expr at the last step and highest
 order

---
 src/placo/problem/integrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 809ddf9..4584bb2 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -140,8 +140,8 @@ Expression Integrator::expr(int step, int diff)
 
   if (diff == order)
   {
-    // At order, we just select the relevant variable
-    return variable->expr(step, 1);
+    // At order, we just select the relevant variable (the last one still applies at the end)
+    return variable->expr(std::min<int>(step, variable->size() - 1), 1);
   }
   else
   {
-- 
2.43.0


From 59ab712659725d7064209c12537022516194ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 38/45] fix: Integrator::expr_t rejects invalid differentiation
 orders

---
 src/placo/problem/integrator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 4584bb2..48ccd5a 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -169,6 +169,8 @@ Expression Integrator::expr(int step, int diff)
 
 Expression Integrator::expr_t(double t, int diff)
 {
+  check_diff(order, diff, true);
+
   t -= t_start;
 
   int step = std::max<int>(std::min<int>(variable->size() - 1, t / dt), 0);
-- 
2.43.0


From c25e90ea5e76923f5d936db7b198d94274c7fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 39/45] fix: duration of an integrator trajectory

---
 src/placo/problem/integrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 48ccd5a..fbefbec 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -40,7 +40,7 @@ double Integrator::Trajectory::value(double t, int diff)
 
 double Integrator::Trajectory::duration()
 {
-  return keyframes.size() * dt;
+  return variable_value.size() * dt;
 }
 
 Integrator::Integrator()
-- 
2.43.0


From dc72b279baf02c00bcd459439efe64e92354d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 40/45] fix: Integrator t_start changed after the trajectory
 was computed

---
 src/placo/problem/integrator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index fbefbec..827cf4b 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -226,7 +226,6 @@ void Integrator::update_trajectory()
     trajectory.M = M;
     trajectory.dt = dt;
     trajectory.order = order;
-    trajectory.t_start = t_start;
     trajectory.variable_value = variable->value;
 
     // Updating keyframes
@@ -241,6 +240,9 @@ void Integrator::update_trajectory()
 
     version = variable->version;
   }
+
+  // t_start can be changed at any time, and doesn't affect keyframes
+  trajectory.t_start = t_start;
 }
 
 }  // namespace placo::problem
\ No newline at end of file
-- 
2.43.0


From 946e8e21baddf8c33ead979d770460176c4f2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 41/45] fix: sign of the ZMP velocity in LIPM trajectories

---
 src/placo/humanoid/lipm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/lipm.cpp b/src/placo/humanoid/lipm.cpp
index 3e9ca1b..1e95559 100644
--- a/src/placo/humanoid/lipm.cpp
+++ b/src/placo/humanoid/lipm.cpp
@@ -37,7 +37,7 @@ Eigen::VectorXd LIPM::Trajectory::zmp(double t, double omega_2)
 
 Eigen::VectorXd LIPM::Trajectory::dzmp(double t, double omega_2)
 {
-  return vel(t) + (1 / omega_2) * jerk(t);
+  return vel(t) - (1 / omega_2) * jerk(t);
 }
 
 LIPM::LIPM()
-- 
2.43.0


From bd6429708252045215ba96cbdd7b5b748013cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 42/45] fix: CubicSpline::duration before the first
 interpolation

---
 src/placo/tools/cubic_spline.cpp | 375 ++++++++++++++++---------------
 1 file changed, 190 insertions(+), 185 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e7aa5d7..d5ae89f 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,185 +1,190 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  return _splines[_splines.size() - 1].t_end - _splines[0].t_start;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  if (_points.size() < 2)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else
+    {
+      return _points.front().dx;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 3b457c8c329f7fc8a743f3a8b8cce13652967499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 43/45] fix: Variable::expr out of range

---
 src/placo/problem/variable.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/problem/variable.cpp b/src/placo/problem/variable.cpp
index 7f86dfe..33e6183 100644
--- a/src/placo/problem/variable.cpp
+++ b/src/placo/problem/variable.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include "placo/problem/variable.h"
 
 namespace placo::problem
@@ -13,6 +14,11 @@ Expression Variable::expr(int start, int rows)
     rows = size() - start;
   }
 
+  if (start < 0 || rows < 0 || start + rows > size())
+  {
+    throw std::runtime_error("Variable: asked expression is out of the variable's range");
+  }
+
   Expression e;
   e.A = Eigen::MatrixXd(rows, k_end);
   e.A.setZero();
-- 
2.43.0


From 82d6214a2e7e74b00f48aaa2744fee9dab4bf9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:38 +0000
Subject: [PATCH 44/45] fix: Expression::slice out of range

---
 src/placo/problem/expression.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 2fbee34..bad2972 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -56,6 +56,11 @@ Expression Expression::slice(int start, int rows) const
     rows = this->rows() - start;
   }
 
+  if (start < 0 || rows < 0 || start + rows > this->rows())
+  {
+    throw std::runtime_error("Expression: asked slice is out of the expression's rows");
+  }
+
   e.A = A.block(start, 0, rows, cols());
   e.b = b.block(start, 0, rows, 1);
 
-- 
2.43.0


From da5ecb5776d54db7e12ce5c649be073474949020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:13 +0000
Subject: [PATCH 45/45] fix: keep the CRLF line endings of cubic_spline.cpp

---
 src/placo/tools/cubic_spline.cpp | 380 +++++++++++++++----------------
 1 file changed, 190 insertions(+), 190 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index d5ae89f..7ce4734 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,190 +1,190 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  if (_points.size() < 2)
-  {
-    return 0.0;
-  }
-
-  return _points.back().t - _points.front().t;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  if (_points.size() < 2)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else
+    {
+      return _points.front().dx;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0

