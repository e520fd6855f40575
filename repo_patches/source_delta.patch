From 5589eeeb73abfbc9ac76ae736df8b0df82958167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 01/48] fix: keep the cross terms between column blocks when
 Problem uses sparsity

---
 src/placo/problem/problem.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index ff53c15..84e26c3 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -235,8 +235,14 @@ void Problem::solve()
 
           Eigen::MatrixXd block = expression_A.block(0, interval.start, constraints, size);
 
-          P.block(interval.start, interval.start, size, size).noalias() +=
-              constraint->weight * block.transpose() * block;
+          // Cross-terms between the different intervals are part of the objective function
+          for (auto other : sparsity.intervals)
+          {
+            int other_size = 1 + other.end - other.start;
+
+            P.block(interval.start, other.start, size, other_size).noalias() +=
+                constraint->weight * block.transpose() * expression_A.block(0, other.start, constraints, other_size);
+          }
         }
 
         q.block(0, 0, expression_A.cols(), 1).noalias() +=
-- 
2.43.0


From 20f92df61571d80905250fbff2d1b9cffb31ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 02/48] fix: check constraint sizes before copying the hard
 equalities in Problem::solve

---
 src/placo/problem/problem.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 84e26c3..f10fed5 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -116,6 +116,23 @@ void Problem::solve()
   n_inequalities = 0;
   slack_variables = 0;
 
+  // Checking the constraints sizes before using them
+  for (auto constraint : constraints)
+  {
+    if (constraint->expression.cols() > n_variables)
+    {
+      throw QPError("Problem: Inconsistent problem size");
+    }
+    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
+    {
+      throw QPError("Problem: A or b is empty");
+    }
+    if (constraint->expression.A.rows() != constraint->expression.b.rows())
+    {
+      throw QPError("Problem: A.rows() != b.rows()");
+    }
+  }
+
   for (auto constraint : constraints)
   {
     if (constraint->type == ProblemConstraint::Inequality)
@@ -197,19 +214,6 @@ void Problem::solve()
   // Scanning the constraints (counting inequalities and equalities, building objectif function)
   for (auto constraint : constraints)
   {
-    if (constraint->expression.cols() > n_variables)
-    {
-      throw QPError("Problem: Inconsistent problem size");
-    }
-    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
-    {
-      throw QPError("Problem: A or b is empty");
-    }
-    if (constraint->expression.A.rows() != constraint->expression.b.rows())
-    {
-      throw QPError("Problem: A.rows() != b.rows()");
-    }
-
     if (constraint->type == ProblemConstraint::Inequality)
     {
       // If the constraint is hard, this will be the true inequality, else, this will be the inequality
-- 
2.43.0


From af8712ec88014e990191f2b86665d88e32bfd1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 03/48] fix: do not publish the solution of a failed solve in
 Problem::x

---
 src/placo/problem/problem.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index f10fed5..0d89cf8 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -333,6 +333,7 @@ void Problem::solve()
   double result =
       eiquadprog::solvers::solve_quadprog(P, q, A.transpose(), b, G.transpose(), h, qp_x, active_set, active_set_size);
 
+  Eigen::VectorXd solution;
   if (determined_variables)
   {
     Eigen::VectorXd u(n_variables, 1);
@@ -340,11 +341,11 @@ void Problem::solve()
     u.topRows(determined_variables) = y;
     u.bottomRows(free_variables) = qp_x.topRows(free_variables);
     QR.matrixQ().applyThisOnTheLeft(u);
-    x = u;
+    solution = u;
   }
   else
   {
-    x = qp_x;
+    solution = qp_x;
   }
 
   // Checking that the problem is indeed feasible
@@ -356,7 +357,7 @@ void Problem::solve()
   // Checking that equality constraints were enforced, since this is not covered by above result
   if (A.rows() > 0)
   {
-    Eigen::VectorXd equality_constraints = A * x.topRows(A.cols()) + b;
+    Eigen::VectorXd equality_constraints = A * solution.topRows(A.cols()) + b;
     for (int k = 0; k < A.rows(); k++)
     {
       if (fabs(equality_constraints[k]) > 1e-6)
@@ -367,11 +368,14 @@ void Problem::solve()
   }
 
   // Checking for NaNs in solution
-  if (x.hasNaN())
+  if (solution.hasNaN())
   {
     throw QPError("Problem: NaN in the QP solution");
   }
 
+  // The solution is only published once we know that it is valid
+  x = solution;
+
   // Reporting on the active constraints
   for (int k = 0; k < active_set_size; k++)
   {
-- 
2.43.0


From c8d891e4337beec83697399ad79c8d307ca76c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:55 +0000
Subject: [PATCH 04/48] fix: mean, vector - expression and expression - scalar
 in Expression

---
 src/placo/problem/expression.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index ad96bb3..2fbee34 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -190,7 +190,7 @@ Expression Expression::operator-(const Eigen::VectorXd v) const
 
 Expression operator-(const Eigen::VectorXd v, const Expression& e)
 {
-  return e - v;
+  return (-e) + v;
 }
 
 Expression Expression::operator+(const double f) const
@@ -208,8 +208,8 @@ Expression operator+(double f, const Expression& e)
 
 Expression Expression::operator-(const double f) const
 {
-  Eigen::VectorXd fv(1);
-  fv(0, 0) = f;
+  Eigen::VectorXd fv(rows());
+  fv.setConstant(f);
 
   return (*this) - fv;
 }
@@ -253,8 +253,8 @@ Expression Expression::sum()
 Expression Expression::mean()
 {
   Expression e = sum();
-  e.A /= (double)cols();
-  e.b /= (double)cols();
+  e.A /= (double)rows();
+  e.b /= (double)rows();
 
   return e;
 }
-- 
2.43.0


From 6ced0077ccd0489ef2e5fa381e2149bd526dff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 05/48] fix: refuse Expression +/- VectorXd with mismatching
 sizes instead of reading out of bounds

---
 src/placo/problem/expression.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 2fbee34..e9cad75 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -169,6 +169,13 @@ Expression Expression::operator*(const Expression& other) const
 
 Expression Expression::operator+(const Eigen::VectorXd v) const
 {
+  if (rows() != v.rows())
+  {
+    std::ostringstream oss;
+    oss << "Trying to add an expression and a vector with different # of rows (" << rows() << " vs " << v.rows() << ")";
+    throw std::runtime_error(oss.str());
+  }
+
   Expression e(*this);
   e.b += v;
 
@@ -182,6 +189,13 @@ Expression operator+(const Eigen::VectorXd v, const Expression& e)
 
 Expression Expression::operator-(const Eigen::VectorXd v) const
 {
+  if (rows() != v.rows())
+  {
+    std::ostringstream oss;
+    oss << "Trying to subtract an expression and a vector with different # of rows (" << rows() << " vs " << v.rows() << ")";
+    throw std::runtime_error(oss.str());
+  }
+
   Expression e(*this);
   e.b -= v;
 
-- 
2.43.0


From b3a89b2d158ed4312650697f3848fd2c3d03f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 06/48] fix: out of bounds accesses in Integrator::expr
 (command at the last step) and expr_t (diff)

---
 src/placo/problem/integrator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 809ddf9..0f578d7 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -140,8 +140,8 @@ Expression Integrator::expr(int step, int diff)
 
   if (diff == order)
   {
-    // At order, we just select the relevant variable
-    return variable->expr(step, 1);
+    // At order, we just select the relevant variable (the last command is held at the final step)
+    return variable->expr(std::min(step, N - 1), 1);
   }
   else
   {
@@ -169,6 +169,8 @@ Expression Integrator::expr(int step, int diff)
 
 Expression Integrator::expr_t(double t, int diff)
 {
+  check_diff(order, diff, true);
+
   t -= t_start;
 
   int step = std::max<int>(std::min<int>(variable->size() - 1, t / dt), 0);
-- 
2.43.0


From ce3356533828f160261724271e75c155f330f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 07/48] fix: Integrator trajectory duration counted one step
 too many

---
 src/placo/problem/integrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 0f578d7..123ae42 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -40,7 +40,7 @@ double Integrator::Trajectory::value(double t, int diff)
 
 double Integrator::Trajectory::duration()
 {
-  return keyframes.size() * dt;
+  return variable_value.size() * dt;
 }
 
 Integrator::Integrator()
-- 
2.43.0


From 39b9833295910c75be490c9687f4e38c1df22cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 08/48] fix: sign of the jerk in LIPM::Trajectory::dzmp

---
 src/placo/humanoid/lipm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/lipm.cpp b/src/placo/humanoid/lipm.cpp
index 3e9ca1b..1e95559 100644
--- a/src/placo/humanoid/lipm.cpp
+++ b/src/placo/humanoid/lipm.cpp
@@ -37,7 +37,7 @@ Eigen::VectorXd LIPM::Trajectory::zmp(double t, double omega_2)
 
 Eigen::VectorXd LIPM::Trajectory::dzmp(double t, double omega_2)
 {
-  return vel(t) + (1 / omega_2) * jerk(t);
+  return vel(t) - (1 / omega_2) * jerk(t);
 }
 
 LIPM::LIPM()
-- 
2.43.0


From 3b2c62519435d080d8cd244385a922b9c784c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 09/48] fix: CubicSpline duration before any evaluation and
 acceleration of a single point

---
 src/placo/tools/cubic_spline.cpp | 379 ++++++++++++++++---------------
 1 file changed, 194 insertions(+), 185 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e7aa5d7..65c2e42 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,185 +1,194 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  return _splines[_splines.size() - 1].t_end - _splines[0].t_start;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else if (type == Speed)
+    {
+      return _points.front().dx;
+    }
+    else
+    {
+      return 0.0;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 1aa0aa165d37f0c9622a0b48e57e36407087f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:08 +0000
Subject: [PATCH 10/48] fix: Segment.end setter wrote the start point in the
 bindings

---
 bindings/expose-tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-tools.cpp b/bindings/expose-tools.cpp
index 6ff38ad..47d9295 100644
--- a/bindings/expose-tools.cpp
+++ b/bindings/expose-tools.cpp
@@ -88,7 +88,7 @@ void exposeTools()
 
   class__<Segment>("Segment", init<Eigen::Vector2d, Eigen::Vector2d>())
       .add_property("start", &Segment::start, &Segment::start)
-      .add_property("end", &Segment::end, &Segment::start)
+      .add_property("end", &Segment::end, &Segment::end)
       .def("norm", &Segment::norm)
       .def("is_parallel", &Segment::is_parallel)
       .def("is_point_aligned", &Segment::is_point_aligned)
-- 
2.43.0


From 5f162e22d0c373c7c44a4329ff36449da2748c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:08 +0000
Subject: [PATCH 11/48] fix: tangential forces weight of the planar and line
 contacts penalized the normal force

---
 src/placo/dynamics/contacts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 2062cd3..f76f84d 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -138,7 +138,7 @@ void Contact6D::add_constraints(Problem& problem)
   }
   if (weight_tangentials > 0)
   {
-    problem.add_constraint(f.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
@@ -212,7 +212,7 @@ void LineContact::add_constraints(Problem& problem)
   if (weight_tangentials > 0)
   {
     Expression f_surface = R_world_surface.transpose() * f;
-    problem.add_constraint(f_surface.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
-- 
2.43.0


From 80b0e1382aa0fd144a417cc88c845fe93347f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:08 +0000
Subject: [PATCH 12/48] fix: line contact mixed its 5D wrench with the 3D
 surface orientation and the 6D moment index

---
 bindings/expose-dynamics.cpp    |  4 ++--
 src/placo/dynamics/contacts.cpp | 13 +++++++------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index f4744e1..6ccc508 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -77,8 +77,8 @@ void exposeDynamics()
       .def_readwrite("length", &LineContact::length)
       .def("zmp", &LineContact::zmp)
       .add_property(
-          "R_world_surface", +[](PointContact& contact) { return contact.R_world_surface; },
-          +[](PointContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
+          "R_world_surface", +[](LineContact& contact) { return contact.R_world_surface; },
+          +[](LineContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
 
   class__<ExternalWrenchContact, bases<Contact>>("ExternalWrenchContact", init<RobotWrapper::FrameIndex>())
       .add_property("frame_index", &ExternalWrenchContact::frame_index)
diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index f76f84d..4a61370 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -184,7 +184,7 @@ void LineContact::add_constraints(Problem& problem)
     }
 
     // Expressing the force in the surface frame
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
 
     // The contact is unilateral
     problem.add_constraint(f_surface.slice(F_Z, 1) >= 0);
@@ -192,8 +192,9 @@ void LineContact::add_constraints(Problem& problem)
     // We want the ZMPs to remain in the contacts
     // We add constraints in the form of:
     // -l_1 f_x <= m_y <= l_1 f_x
-    problem.add_constraint(f_surface.slice(M_Y, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
-    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f_surface.slice(M_Y, 1));
+    // (in a line contact, there are only two moments: M_Y and M_Z, M_Y comes right after the forces)
+    problem.add_constraint(f.slice(3, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
+    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f.slice(3, 1));
 
     // We don't slip
     problem.add_constraint(f_surface.slice(F_X, 1) <= mu * f_surface.slice(F_Z, 1));
@@ -206,12 +207,12 @@ void LineContact::add_constraints(Problem& problem)
   // Objective
   if (weight_forces > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);
   }
   if (weight_tangentials > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
@@ -223,7 +224,7 @@ void LineContact::add_constraints(Problem& problem)
 
 Eigen::Vector3d LineContact::zmp()
 {
-  return Eigen::Vector3d(-wrench(M_Y, 0) / wrench(F_Z, 0), 0, 0);
+  return Eigen::Vector3d(-wrench(3, 0) / wrench(F_Z, 0), 0, 0);
 }
 
 ExternalWrenchContact::ExternalWrenchContact(model::RobotWrapper::FrameIndex frame_index,
-- 
2.43.0


From ecfbe400ecf559e3c18c844f05701b7bececd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:08 +0000
Subject: [PATCH 13/48] fix: dynamics GearTask::set_gear dropped the gears of
 the other targets

---
 src/placo/dynamics/gear_task.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/gear_task.cpp b/src/placo/dynamics/gear_task.cpp
index d5af82b..b0aac01 100644
--- a/src/placo/dynamics/gear_task.cpp
+++ b/src/placo/dynamics/gear_task.cpp
@@ -9,7 +9,9 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
-  gears.clear();
+  int target_id = solver->robot.get_joint_v_offset(target);
+  gears[target_id].clear();
+
   add_gear(target, source, ratio);
 }
 
-- 
2.43.0


From 731183af76b61586ca1a06329b1e8ab35e4fb8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 14/48] fix: DynamicsSolver::remove_task deleted tasks it does
 not own

---
 src/placo/dynamics/dynamics_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index e112249..1edcd73 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -566,7 +566,10 @@ void DynamicsSolver::remove_task(Task& task)
 {
   tasks.erase(&task);
 
-  delete &task;
+  if (task.solver_memory)
+  {
+    delete &task;
+  }
 }
 
 void DynamicsSolver::remove_task(FrameTask& task)
-- 
2.43.0


From 70c3f9e9b6e5483ef5f07a5bd432f534171412cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:31 +0000
Subject: [PATCH 15/48] fix: joint_jacobian_time_variation by name returned the
 jacobian itself

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 152501c..32ba811 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -599,7 +599,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian_time_variation(model.getJointId(joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From 80aae9858950c4f9d7b5ae8380191f326d33efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:31 +0000
Subject: [PATCH 16/48] fix: report unknown joint names in velocity-space
 accessors instead of accessing out of bounds

---
 src/placo/model/robot_wrapper.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 32ba811..7fff612 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -214,12 +214,26 @@ int RobotWrapper::get_joint_size(const std::string& name)
 
 int RobotWrapper::get_joint_v_offset(const std::string& name)
 {
+  if (!model.existJointName(name))
+  {
+    std::ostringstream oss;
+    oss << "Joint with name " << name << " not found in model";
+    throw std::runtime_error(oss.str());
+  }
+
   auto index = model.getJointId(name);
   return model.joints[index].idx_v();
 }
 
 int RobotWrapper::get_joint_v_size(const std::string& name)
 {
+  if (!model.existJointName(name))
+  {
+    std::ostringstream oss;
+    oss << "Joint with name " << name << " not found in model";
+    throw std::runtime_error(oss.str());
+  }
+
   auto index = model.getJointId(name);
   return model.joints[index].nv();
 }
-- 
2.43.0


From 40c201ec2f226ff6243637263a36c14c3dd3462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 17/48] fix: WalkTasks::get_tasks_error overwrote the feet
 orientation errors with the position errors

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 8f46098..9ccc3ec 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -150,8 +150,8 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   std::map<std::string, Eigen::Vector3d> error;
   error["left_foot_orientation"] = left_foot_task.orientation->error();
   error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_orientation"] = left_foot_task.position->error();
-  error["right_foot_orientation"] = right_foot_task.position->error();
+  error["left_foot_position"] = left_foot_task.position->error();
+  error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
   if (trunk_mode)
   {
-- 
2.43.0


From 504eb1b37679c11031081d36d6798bc2ab947157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 18/48] fix: get_prev_support overwrote parts of the trajectory
 it was querying

---
 src/placo/humanoid/walk_pattern_generator.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2df25ab..fe0d42f 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -280,12 +280,9 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
-  TrajectoryPart& part = _findPart(parts, t);
-  for (int i = 0; i < n; i++)
-  {
-    part = _findPart(parts, part.t_start - 1e-4);
-  }
-  return T * part.support;
+  int index;
+  _findPart(parts, t, &index);
+  return T * parts[std::max(0, index - n)].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From f857f1bee05482344d1efa7cf2ee4575876af287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 19/48] fix: feet velocities threw during double supports

---
 src/placo/humanoid/walk_pattern_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index fe0d42f..51b1974 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -124,7 +124,7 @@ Eigen::Affine3d WalkPatternGenerator::Trajectory::get_T_world_foot(HumanoidRobot
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Right)
+  if (is_flying(HumanoidRobot::Left, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
@@ -134,7 +134,7 @@ Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_right(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Left)
+  if (is_flying(HumanoidRobot::Right, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
-- 
2.43.0


From afc8ac398b2570e949966741162eea1f39c092e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 20/48] fix: support polygons were stale after a footstep was
 moved

---
 src/placo/humanoid/footsteps_planner.cpp | 41 +++++++++++-------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index a9262bd..ca22399 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -41,11 +41,10 @@ std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::compute_polygon(double
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Footstep::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon = compute_polygon();
-    computed_polygon = true;
-  }
+  // The footstep can be moved after a first call (including through its public members), the polygon
+  // is then always computed from the current frame
+  polygon = compute_polygon();
+  computed_polygon = true;
 
   return polygon;
 }
@@ -108,29 +107,27 @@ FootstepsPlanner::Support::Support(std::vector<Footstep> footsteps) : footsteps(
 
 std::vector<Eigen::Vector2d> FootstepsPlanner::Support::support_polygon()
 {
-  if (!computed_polygon)
-  {
-    polygon.clear();
+  // As for the footsteps, the polygon always follows the current footsteps
+  polygon.clear();
 
-    b_polygon poly, hull;
-    for (auto& footstep : footsteps)
+  b_polygon poly, hull;
+  for (auto& footstep : footsteps)
+  {
+    for (auto& pt : footstep.support_polygon())
     {
-      for (auto& pt : footstep.support_polygon())
-      {
-        boost::geometry::append(poly, b_point(pt.x(), pt.y()));
-      }
+      boost::geometry::append(poly, b_point(pt.x(), pt.y()));
     }
+  }
 
-    // Boost convex hull is also clockwise
-    boost::geometry::convex_hull(poly, hull);
+  // Boost convex hull is also clockwise
+  boost::geometry::convex_hull(poly, hull);
 
-    for (auto& pt : hull.outer())
-    {
-      polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
-    }
-    polygon.pop_back();
-    computed_polygon = true;
+  for (auto& pt : hull.outer())
+  {
+    polygon.push_back(Eigen::Vector2d(pt.get<0>(), pt.get<1>()));
   }
+  polygon.pop_back();
+  computed_polygon = true;
 
   return polygon;
 }
-- 
2.43.0


From b716f3ac7d5a51b5e26d93c5a1a0fc2140fb7af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 21/48] fix: out of bounds access in make_supports with less
 than two footsteps

---
 src/placo/humanoid/footsteps_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index ca22399..dc1b127 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -272,7 +272,7 @@ std::vector<FootstepsPlanner::Support> FootstepsPlanner::make_supports(
     }
   }
 
-  if (end)
+  if (end && footsteps.size() >= 2)
   {
     // Creating the first (double-support) initial state
     Support support({ footsteps[footsteps.size() - 2], footsteps[footsteps.size() - 1] });
-- 
2.43.0


From 8fc449839ab8d8302f4b1f37aef70381d4cbd6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 22/48] fix: make_supports gave the start time of the first
 support to the following double support

---
 src/placo/humanoid/footsteps_planner.cpp      | 1 -
 src/placo/humanoid/walk_pattern_generator.cpp | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index dc1b127..5483207 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -251,7 +251,6 @@ std::vector<FootstepsPlanner::Support> FootstepsPlanner::make_supports(
       if (middle)
       {
         Support double_support({ footsteps[0], footsteps[1] });
-        double_support.t_start = t_start;
         supports.push_back(double_support);
       }
     }
diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 51b1974..20c1b5b 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -624,6 +624,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::replan_supports(Foo
     supports = FootstepsPlanner::make_supports(footsteps, current_support.t_start, false,
                                                parameters.has_double_support(), true);
     supports.erase(supports.begin());
+    supports[0].t_start = current_support.t_start;
   }
   else
   {
-- 
2.43.0


From 1b65e8fd5576d359470fd8a7c2b22ce4a610fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:41 +0000
Subject: [PATCH 23/48] fix: out of bounds access in truncate_supports when
 nothing follows the truncation

---
 bindings/expose-footsteps.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-footsteps.cpp b/bindings/expose-footsteps.cpp
index 1dca123..b735139 100644
--- a/bindings/expose-footsteps.cpp
+++ b/bindings/expose-footsteps.cpp
@@ -76,7 +76,12 @@ void exposeFootsteps()
               head.push_back(supports[i]);
             }
 
-            if (add_end && !head.back().end)
+            if (add_end && !head.empty() && !head.back().end && index == (int)supports.size())
+            {
+              throw std::out_of_range("No footstep after the truncation to build the end support");
+            }
+
+            if (add_end && !head.empty() && !head.back().end)
             {
               FootstepsPlanner::Support end_support({ head.back().footsteps[0] });
               end_support.end = true;
-- 
2.43.0


From bda40de1bb0ea23a33f5ee757968042561be3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 24/48] fix: get_com_velocity ignored the requested support
 side and assumed 20 joints

---
 src/placo/humanoid/humanoid_robot.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index cd38c52..ee8f613 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -140,10 +140,10 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   // CoM Jacobians
   Eigen::Matrix3Xd J_C = com_jacobian();
   Eigen::Matrix3Xd J_u_C = J_C.leftCols(6);
-  Eigen::Matrix3Xd J_a_C = J_C.rightCols(20);
+  Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
-  Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
+  Eigen::MatrixXd J_contact = frame_jacobian((support == Left) ? left_foot : right_foot, pinocchio::ReferenceFrame::LOCAL);
 
   // IMU body Jacobian
   Eigen::MatrixXd J_IMU = frame_jacobian("trunk", "local");
@@ -151,7 +151,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::MatrixXd J(6, J_contact.cols());
   J << J_contact.topRows(3), J_IMU.bottomRows(3);
   Eigen::MatrixXd J_u = J.leftCols(6);
-  Eigen::MatrixXd J_a = J.rightCols(20);
+  Eigen::MatrixXd J_a = J.rightCols(model.nv - 6);
 
   Eigen::MatrixXd J_u_inv = J_u.inverse();
 
-- 
2.43.0


From 437ba40a1f73e98cd976d35bc94cbe5962e2ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:28 +0000
Subject: [PATCH 25/48] fix: hard equalities without rewriting ignored the
 slack variables columns (out of bounds in the QP solver)

---
 src/placo/problem/problem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 0d89cf8..dc65025 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -200,6 +200,12 @@ void Problem::solve()
     A.resize(0, 0);
     b.resize(0);
   }
+  else if (slack_variables > 0)
+  {
+    // The equality constraints don't involve the slack variables
+    A.conservativeResize(Eigen::NoChange, n_variables + slack_variables);
+    A.rightCols(slack_variables).setZero();
+  }
 
   Eigen::MatrixXd P(free_variables + slack_variables, free_variables + slack_variables);
   Eigen::VectorXd q(free_variables + slack_variables);
-- 
2.43.0


From 771f124d34b1464bdca0f533bafb3d705b269950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:30 +0000
Subject: [PATCH 26/48] fix: report infeasible problems for which the QP solver
 returned a meaningless solution

---
 src/placo/problem/problem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index dc65025..b93bde3 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -360,6 +360,17 @@ void Problem::solve()
     throw QPError("Problem: Infeasible QP (check your hard inequality constraints)");
   }
 
+  // Checking that hard inequality constraints were enforced: on an ill-conditioned infeasible problem, the solver can
+  // return a (huge and meaningless) solution instead of reporting the infeasibility
+  Eigen::VectorXd inequality_constraints = G * qp_x + h;
+  for (auto& entry : hard_inequalities_mapping)
+  {
+    if (inequality_constraints[entry.first] < -1e-6 * (1 + fabs(h[entry.first])))
+    {
+      throw QPError("Problem: Infeasible QP (inequality constraints were not enforced)");
+    }
+  }
+
   // Checking that equality constraints were enforced, since this is not covered by above result
   if (A.rows() > 0)
   {
-- 
2.43.0


From 26ffafbf9428dbfb8c147a83c138ec81fa118ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:36 +0000
Subject: [PATCH 27/48] fix: refuse more hard equalities than variables (out of
 bounds in the QP solver)

---
 src/placo/problem/problem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index b93bde3..2f99961 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -153,6 +153,12 @@ void Problem::solve()
     }
   }
 
+  // With more equalities than variables, rows are dependent and the solver would access out of bounds
+  if (n_equalities > n_variables)
+  {
+    throw QPError("Problem: More hard equality constraints than variables");
+  }
+
   // Equality constraints
   Eigen::MatrixXd A(n_equalities, n_variables);
   Eigen::VectorXd b(n_equalities);
-- 
2.43.0


From df2129ac9f24709baf22a7c9911599d30b66118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:44 +0000
Subject: [PATCH 28/48] fix: report contradictory hard equalities for which the
 QP solver returned a meaningless solution

---
 src/placo/problem/problem.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 2f99961..9623887 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -177,6 +177,9 @@ void Problem::solve()
     }
   }
 
+  const Eigen::MatrixXd equalities_A = A;
+  const Eigen::VectorXd equalities_b = b;
+
   free_variables = n_variables;
   determined_variables = 0;
 
@@ -378,12 +381,15 @@ void Problem::solve()
   }
 
   // Checking that equality constraints were enforced, since this is not covered by above result
-  if (A.rows() > 0)
+  if (equalities_A.rows() > 0)
   {
-    Eigen::VectorXd equality_constraints = A * solution.topRows(A.cols()) + b;
-    for (int k = 0; k < A.rows(); k++)
+    Eigen::VectorXd equality_constraints = equalities_A * solution.topRows(n_variables) + equalities_b;
+    // When the terms are so huge that this is only rounding, nothing was enforced (contradictory equalities)
+    Eigen::VectorXd rounding =
+        std::numeric_limits<double>::epsilon() * (equalities_A.cwiseAbs() * solution.topRows(n_variables).cwiseAbs());
+    for (int k = 0; k < equalities_A.rows(); k++)
     {
-      if (fabs(equality_constraints[k]) > 1e-6)
+      if (fabs(equality_constraints[k]) > 1e-6 || rounding[k] > 1e-6)
       {
         throw QPError("Problem: Infeasible QP (equality constraints were not enforced)");
       }
-- 
2.43.0


From fea040d6e1b0b1754914a1e3a1d38ab2173dfdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:14 +0000
Subject: [PATCH 29/48] fix: scalar operands of expressions were rounded to
 single precision by the bindings

---
 bindings/expose-problem.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bindings/expose-problem.cpp b/bindings/expose-problem.cpp
index 79037d9..f06583a 100644
--- a/bindings/expose-problem.cpp
+++ b/bindings/expose-problem.cpp
@@ -152,17 +152,17 @@ void exposeProblem()
       .def(self / self)
       .def(self + self)
       .def(self - self)
-      .def(self * float())
-      .def(float() * self)
+      .def(self * double())
+      .def(double() * self)
       .def(self * self)
       .def(self + other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() + self)
       .def(self - other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() - self)
-      .def(self + float())
-      .def(float() + self)
-      .def(self - float())
-      .def(float() - self)
+      .def(self + double())
+      .def(double() + self)
+      .def(self - double())
+      .def(double() - self)
       .def(other<Eigen::MatrixXd>() * self)
       .def("left_multiply", &Expression::left_multiply)
       // Compare to build constraints
@@ -171,12 +171,12 @@ void exposeProblem()
       .def(self == self)
       .def(self == other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() == self)
-      .def(self == float())
-      .def(float() == self)
-      .def(self <= float())
-      .def(float() <= self)
-      .def(self >= float())
-      .def(float() >= self)
+      .def(self == double())
+      .def(double() == self)
+      .def(self <= double())
+      .def(double() <= self)
+      .def(self >= double())
+      .def(double() >= self)
       .def(self <= other<Eigen::VectorXd>())
       .def(other<Eigen::VectorXd>() <= self)
       .def(self >= other<Eigen::VectorXd>())
-- 
2.43.0


From d8b44fd368f2743a44456045ddb7b4dd2aec1296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:05 +0000
Subject: [PATCH 30/48] fix: quintic swing foot was numerically wrong for large
 times

---
 src/placo/humanoid/swing_foot_quintic.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/placo/humanoid/swing_foot_quintic.cpp b/src/placo/humanoid/swing_foot_quintic.cpp
index 25fd927..d2f1090 100644
--- a/src/placo/humanoid/swing_foot_quintic.cpp
+++ b/src/placo/humanoid/swing_foot_quintic.cpp
@@ -34,6 +34,12 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
                                                                Eigen::Vector3d start, Eigen::Vector3d target)
 {
   Trajectory trajectory;
+  trajectory.t_start = t_start;
+  trajectory.t_end = t_end;
+
+  // The polynom is a function of the time elapsed since t_start, the system below is ill-conditioned for large times
+  t_end -= t_start;
+  t_start = 0.;
 
   double t_a = t_start + (t_end - t_start) / 4.;
   double t_b = t_start + 3 * (t_end - t_start) / 4.;
@@ -90,6 +96,7 @@ SwingFootQuintic::Trajectory SwingFootQuintic::make_trajectory(double t_start, d
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
@@ -100,6 +107,7 @@ Eigen::Vector3d SwingFootQuintic::Trajectory::pos(double t)
 
 Eigen::Vector3d SwingFootQuintic::Trajectory::vel(double t)
 {
+  t -= t_start;
   double t_2 = t * t;
   double t_3 = t_2 * t;
   double t_4 = t_3 * t;
-- 
2.43.0


From 9552bcbe8772577a4c57b4113aa600c9f2b01cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 31/48] fix: Integrator values ignored the changes of t_start
 done after the first evaluation

---
 src/placo/problem/integrator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/problem/integrator.cpp b/src/placo/problem/integrator.cpp
index 123ae42..ef70e23 100644
--- a/src/placo/problem/integrator.cpp
+++ b/src/placo/problem/integrator.cpp
@@ -226,7 +226,6 @@ void Integrator::update_trajectory()
     trajectory.M = M;
     trajectory.dt = dt;
     trajectory.order = order;
-    trajectory.t_start = t_start;
     trajectory.variable_value = variable->value;
 
     // Updating keyframes
@@ -241,6 +240,9 @@ void Integrator::update_trajectory()
 
     version = variable->version;
   }
+
+  // The time offset can be changed at any time
+  trajectory.t_start = t_start;
 }
 
 }  // namespace placo::problem
\ No newline at end of file
-- 
2.43.0


From e6e6d0fc09ad80d6277ae462cdf9e5b56285639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:06 +0000
Subject: [PATCH 32/48] fix: torques_from_acceleration_with_fixed_frame ignored
 the acceleration of the floating base

---
 src/placo/model/robot_wrapper.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 7fff612..3347813 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -750,15 +750,19 @@ Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::
   auto h = non_linear_effects();
   auto M = mass_matrix();
 
-  // Compute f the forces fixing the frame
+  // The frame is fixed, the acceleration of the floating base is such that J * qdd + dJ * qd = 0
   Eigen::MatrixXd J = frame_jacobian(frameIndex);
-  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * h.block(0, 0, 6, 1);
+  Eigen::MatrixXd dJ = frame_jacobian_time_variation(frameIndex);
+  Eigen::VectorXd qdd(model.nv);
+  qdd.bottomRows(model.nv - 6) = qdd_a;
+  qdd.topRows(6) = -J.leftCols(6).inverse() * (J.rightCols(model.nv - 6) * qdd_a + dJ * state.qd);
 
-  auto h_a = h.bottomRows(model.nv - 6);
-  auto M_a = M.bottomRightCorner(model.nv - 6, model.nv - 6);
+  // Compute f the forces fixing the frame
+  Eigen::VectorXd tau = M * qdd + h;
+  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * tau.topRows(6);
 
   // Compute the torques
-  return M_a * qdd_a + h_a - (J.transpose() * f).bottomRows(model.nv - 6);
+  return tau.bottomRows(model.nv - 6) - (J.transpose() * f).bottomRows(model.nv - 6);
 }
 
 Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::VectorXd qdd_a, std::string frame)
-- 
2.43.0


From d1ece8860c0ba4a82c43b413aaed660a6c5f5a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:09 +0000
Subject: [PATCH 33/48] fix: report unknown joint and frame names in
 get_joint_size, joint_jacobian and get_frame_hessian instead of accessing out
 of bounds

---
 bindings/expose-robot-wrapper.cpp |  2 +-
 src/placo/model/robot_wrapper.cpp | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index 25b9ba0..a4711d9 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -56,7 +56,7 @@ void exposeRobotType(class_<RobotType, W1>& type)
       .def(
           "get_frame_hessian",
           +[](RobotType& robot, const std::string frame, const std::string joint) {
-            return robot.get_frame_hessian(robot.model.getFrameId(frame), robot.get_joint_v_offset(joint));
+            return robot.get_frame_hessian(robot.get_frame_index(frame), robot.get_joint_v_offset(joint));
           })
       .def("get_T_world_fbase", &RobotType::get_T_world_fbase)
       .def("set_T_world_fbase", &RobotType::set_T_world_fbase)
diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 3347813..1567950 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -208,6 +208,13 @@ int RobotWrapper::get_joint_offset(const std::string& name)
 
 int RobotWrapper::get_joint_size(const std::string& name)
 {
+  if (!model.existJointName(name))
+  {
+    std::ostringstream oss;
+    oss << "Joint with name " << name << " not found in model";
+    throw std::runtime_error(oss.str());
+  }
+
   auto index = model.getJointId(name);
   return model.joints[index].nq();
 }
@@ -599,6 +606,13 @@ Eigen::MatrixXd RobotWrapper::frame_jacobian_time_variation(pinocchio::FrameInde
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(const std::string& joint, const std::string& reference)
 {
+  if (!model.existJointName(joint))
+  {
+    std::ostringstream oss;
+    oss << "Joint with name " << joint << " not found in model";
+    throw std::runtime_error(oss.str());
+  }
+
   return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
 }
 
@@ -613,6 +627,13 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
+  if (!model.existJointName(joint))
+  {
+    std::ostringstream oss;
+    oss << "Joint with name " << joint << " not found in model";
+    throw std::runtime_error(oss.str());
+  }
+
   return joint_jacobian_time_variation(model.getJointId(joint), string_to_reference(reference));
 }
 
-- 
2.43.0


From ca3afd5d80a02516d667166774006a07754b21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:09 +0000
Subject: [PATCH 34/48] fix: joint_names listed the floating base of MJCF
 models with a named free joint

---
 src/placo/model/robot_wrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 1567950..861f0e7 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -796,8 +796,8 @@ std::vector<std::string> RobotWrapper::joint_names(bool include_floating_base)
   std::vector<std::string> joints = model.names;
   if (!include_floating_base)
   {
-    joints.erase(std::remove(joints.begin(), joints.end(), "universe"), joints.end());
-    joints.erase(std::remove(joints.begin(), joints.end(), "root_joint"), joints.end());
+    // The first joints are always the universe and the floating base (which can have any name in MJCF models)
+    joints.erase(joints.begin(), joints.begin() + 2);
   }
   return joints;
 }
-- 
2.43.0


From 8b47bdba9b4bb1c969990d34f232db3e290072a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:38 +0000
Subject: [PATCH 35/48] fix: axis align task failed when the axis was already
 aligned with its target

---
 src/placo/kinematics/axis_align_task.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/axis_align_task.cpp b/src/placo/kinematics/axis_align_task.cpp
index 561f28e..a7839df 100644
--- a/src/placo/kinematics/axis_align_task.cpp
+++ b/src/placo/kinematics/axis_align_task.cpp
@@ -20,7 +20,14 @@ void AxisAlignTask::update()
   // the rotation about z to be the error, and about y to be zero.
   Eigen::Matrix3d R_world_axisframe;
   R_world_axisframe.col(0) = (T_world_frame.rotation() * axis_frame).normalized();
-  R_world_axisframe.col(2) = R_world_axisframe.col(0).cross(targetAxis_world_normalized).normalized();
+
+  Eigen::Vector3d rotation_axis = R_world_axisframe.col(0).cross(targetAxis_world_normalized);
+  if (rotation_axis.norm() < 1e-12)
+  {
+    // The axises are parallel, any orthogonal axis can be used
+    rotation_axis = R_world_axisframe.col(0).unitOrthogonal();
+  }
+  R_world_axisframe.col(2) = rotation_axis.normalized();
   R_world_axisframe.col(1) = R_world_axisframe.col(2).cross(R_world_axisframe.col(0));
 
   // Computing the error angle we want to compensate
-- 
2.43.0


From 914df20eace4f61b0373ed7f5ea63d1efacc9c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:38 +0000
Subject: [PATCH 36/48] fix: jacobian of the yaw constraint when the x axis is
 not horizontal

---
 src/placo/kinematics/yaw_constraint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/yaw_constraint.cpp b/src/placo/kinematics/yaw_constraint.cpp
index f4d84fd..0f0b6ef 100644
--- a/src/placo/kinematics/yaw_constraint.cpp
+++ b/src/placo/kinematics/yaw_constraint.cpp
@@ -30,7 +30,9 @@ void YawConstraint::add_constraint(placo::problem::Problem& problem)
   Eigen::Vector3d perp_axis = Eigen::Vector3d::UnitZ().cross(x_axis).normalized();
   Eigen::Vector3d yaw_axis = x_axis.cross(perp_axis).normalized();
 
-  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative;
+
+  // The yaw is the angle of the projection of the x axis on the plane
+  Eigen::MatrixXd J_angle = yaw_axis.transpose() * J_relative / x_axis.topRows(2).norm();
 
   // Expression for the angle
   problem::Expression e;
-- 
2.43.0


From c77e5b8fad80a7a328718f265b1b5b6dfa82625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:34 +0000
Subject: [PATCH 37/48] fix: KineticEnergyRegularizationTask was unusable from
 Python (bound with a wrong base class)

---
 bindings/expose-kinematics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-kinematics.cpp b/bindings/expose-kinematics.cpp
index a348cf4..2d7a020 100644
--- a/bindings/expose-kinematics.cpp
+++ b/bindings/expose-kinematics.cpp
@@ -235,7 +235,7 @@ void exposeKinematics()
       .def_readwrite("minimize", &ManipulabilityTask::minimize)
       .def_readonly("manipulability", &ManipulabilityTask::manipulability);
 
-  class__<KineticEnergyRegularizationTask, bases<RegularizationTask>>("KineticEnergyRegularizationTask");
+  class__<KineticEnergyRegularizationTask, bases<Task>>("KineticEnergyRegularizationTask");
 
   class__<Constraint, bases<tools::Prioritized>, boost::noncopyable>("KinematicsConstraint", no_init);
 
-- 
2.43.0


From 6c679fa54e7c94032ba02d650994a3c9d32f248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:38 +0000
Subject: [PATCH 38/48] fix: acceleration of the dynamics relative position
 task (wrong Coriolis and jacobian variation terms)

---
 src/placo/dynamics/relative_position_task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/relative_position_task.cpp b/src/placo/dynamics/relative_position_task.cpp
index 9b35bfc..79e2abc 100644
--- a/src/placo/dynamics/relative_position_task.cpp
+++ b/src/placo/dynamics/relative_position_task.cpp
@@ -50,8 +50,8 @@ void RelativePositionTask::update()
   J += a_R_w * (Jb.block(0, 0, 3, solver->N) - Ja.block(0, 0, 3, solver->N));
 
   Eigen::Vector3d e = 2 * pinocchio::skew(a_omega_w) * a_R_w * w_dAB;
-  e += 2 * pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
-  e += a_R_w * (dJb.block(3, 0, 3, solver->N) - dJa.block(3, 0, 3, solver->N)) * solver->robot.state.qd;
+  e += pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
+  e += a_R_w * (dJb.block(0, 0, 3, solver->N) - dJa.block(0, 0, 3, solver->N)) * solver->robot.state.qd;
   e += pinocchio::skew(a_AB) * a_R_w * dJa.block(3, 0, 3, solver->N) * solver->robot.state.qd;
 
   A = mask.apply(J);
-- 
2.43.0


From d6106a915dc5a07d16ad45990e55787f7766df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:38 +0000
Subject: [PATCH 39/48] fix: dynamics relative orientation task mixed
 quantities expressed in the world and in frame a

---
 src/placo/dynamics/relative_orientation_task.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/placo/dynamics/relative_orientation_task.cpp b/src/placo/dynamics/relative_orientation_task.cpp
index 95c1008..2d6758b 100644
--- a/src/placo/dynamics/relative_orientation_task.cpp
+++ b/src/placo/dynamics/relative_orientation_task.cpp
@@ -39,14 +39,12 @@ void RelativeOrientationTask::update()
   Eigen::Vector3d world_omega_a_b_real = world_omega_b - world_omega_a;
   Eigen::Vector3d velocity_error_world = R_world_a * omega_a_b - world_omega_a_b_real;
 
-  Eigen::Vector3d desired_acceleration = kp * orientation_error_world + get_kd() * velocity_error_world + domega_a_b;
-
-  Eigen::Matrix3d Jlog;
-  pinocchio::Jlog3(M, Jlog);
+  Eigen::Vector3d desired_acceleration =
+      kp * orientation_error_world + get_kd() * velocity_error_world + R_world_a * domega_a_b;
 
   // Acceleration is: J * qdd + dJ * qd
-  A = mask.apply(Jlog * (Jb - Ja));
-  b = mask.apply(desired_acceleration - Jlog * (dJb * solver->robot.state.qd - dJa * solver->robot.state.qd));
+  A = mask.apply(Jb - Ja);
+  b = mask.apply(desired_acceleration - (dJb * solver->robot.state.qd - dJa * solver->robot.state.qd));
   error = mask.apply(orientation_error_world);
   derror = mask.apply(velocity_error_world);
 }
-- 
2.43.0


From ff2d2123fa155733ce13314eaa9834744d127e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:48 +0000
Subject: [PATCH 40/48] fix: naive footsteps planner stopped before reaching
 its target when the last steps were clipped

---
 src/placo/humanoid/footsteps_planner_naive.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/placo/humanoid/footsteps_planner_naive.cpp b/src/placo/humanoid/footsteps_planner_naive.cpp
index 14bbb3c..91b7c6c 100644
--- a/src/placo/humanoid/footsteps_planner_naive.cpp
+++ b/src/placo/humanoid/footsteps_planner_naive.cpp
@@ -130,7 +130,13 @@ void FootstepsPlannerNaive::plan_impl(std::vector<FootstepsPlanner::Footstep>& f
 
     // Ellipsoid clipping
     Eigen::Vector3d step(error.x(), error.y(), error_yaw);
-    step = parameters.ellipsoid_clip(step);
+    Eigen::Vector3d clipped_step = parameters.ellipsoid_clip(step);
+    if (!clipped_step.isApprox(step))
+    {
+      // The target can't be reached in one step
+      arrived = false;
+    }
+    step = clipped_step;
 
     // Computing new frame
     Eigen::Affine3d new_step;
-- 
2.43.0


From dd69d3a18f85dbc6522909aadbee1529c94c489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:48 +0000
Subject: [PATCH 41/48] fix: overlap of footsteps missed aligned soles
 (rounding) and crossing soles

---
 src/placo/humanoid/footsteps_planner.cpp | 33 +++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index 5483207..47cfeea 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -69,29 +69,38 @@ bool FootstepsPlanner::Footstep::polygon_contains(std::vector<Eigen::Vector2d>&
   return true;
 }
 
-bool FootstepsPlanner::Footstep::overlap(Footstep& other, double margin)
+/**
+ * @brief Checks if an edge of a (clockwise, convex) polygon has all the points of an other polygon outside
+ */
+static bool polygon_separates(const std::vector<Eigen::Vector2d>& polygon, const std::vector<Eigen::Vector2d>& other)
 {
-  std::vector<Eigen::Vector2d> support1 = compute_polygon(margin);
-  std::vector<Eigen::Vector2d> support2 = other.compute_polygon(margin);
+  Eigen::Vector2d last_point = polygon[polygon.size() - 1];
 
-  for (auto pt : support1)
+  for (auto& current_point : polygon)
   {
-    if (polygon_contains(support2, pt))
-    {
-      return true;
-    }
-  }
-  for (auto pt : support2)
-  {
-    if (polygon_contains(support1, pt))
+    Eigen::Vector2d v = current_point - last_point;
+    Eigen::Vector2d n(v.y(), -v.x());
+
+    if (std::all_of(other.begin(), other.end(), [&](const Eigen::Vector2d& pt) { return n.dot(pt - last_point) < 0; }))
     {
       return true;
     }
+
+    last_point = current_point;
   }
 
   return false;
 }
 
+bool FootstepsPlanner::Footstep::overlap(Footstep& other, double margin)
+{
+  std::vector<Eigen::Vector2d> support1 = compute_polygon(margin);
+  std::vector<Eigen::Vector2d> support2 = other.compute_polygon(margin);
+
+  // Two convex polygons are disjoint if and only if an edge of one of them separates them
+  return !polygon_separates(support1, support2) && !polygon_separates(support2, support1);
+}
+
 bool FootstepsPlanner::Footstep::operator==(const Footstep& other)
 {
   return side == other.side && frame.isApprox(other.frame);
-- 
2.43.0


From e8f547bfd0aee624ddcdf91727371374fd2a5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:48 +0000
Subject: [PATCH 42/48] fix: planning a walk from or to a single support read
 out of the bounds of its parts

---
 src/placo/humanoid/walk_pattern_generator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 20c1b5b..603ef2a 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -518,6 +518,10 @@ WalkPatternGenerator::Trajectory WalkPatternGenerator::plan(std::vector<Footstep
   {
     throw std::runtime_error("Trying to plan() with 0 supports");
   }
+  if (!supports.front().is_both() || !supports.back().is_both())
+  {
+    throw std::runtime_error("plan() should be called with supports starting and ending with a double support");
+  }
 
   Trajectory trajectory(parameters.walk_com_height, t_start, parameters.walk_trunk_pitch, 0.);
 
@@ -538,6 +542,10 @@ WalkPatternGenerator::Trajectory WalkPatternGenerator::replan(std::vector<Footst
   {
     throw std::runtime_error("Trying to replan() with 0 supports");
   }
+  if (!supports.back().is_both())
+  {
+    throw std::runtime_error("replan() should be called with supports ending with a double support");
+  }
 
   // std::cout << "------------------ Old Next support: -----------------" << std::endl;
   // std::cout << "x: " << old_trajectory.get_next_support(t_replan).frame().translation().x() << std::endl;
-- 
2.43.0


From 1c3884132f5c3539c670bfba87faac9774f47d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:48 +0000
Subject: [PATCH 43/48] fix: the target DCM of supports did not follow the
 transformation of their trajectory

---
 src/placo/humanoid/footsteps_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index 47cfeea..9bc9e09 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -212,6 +212,9 @@ FootstepsPlanner::Support operator*(Eigen::Affine3d T, const FootstepsPlanner::S
   }
   new_support.computed_polygon = false;
 
+  Eigen::Vector3d dcm(support.target_world_dcm.x(), support.target_world_dcm.y(), 0.);
+  new_support.target_world_dcm = (T * dcm).head(2);
+
   return new_support;
 }
 
-- 
2.43.0


From 6dec8e6bc2ed17209e5546b349d01cf68368f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 44/48] fix: the solver of the walk tasks was returned by copy,
 whose destruction deleted the tasks

---
 bindings/expose-walk-pattern-generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 705461b..32e7e49 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -133,7 +133,8 @@ void exposeWalkPatternGenerator()
             return dict;
           })
       .add_property(
-          "solver", +[](WalkTasks& tasks) { return *tasks.solver; })
+          "solver", make_function(+[](WalkTasks& tasks) -> KinematicsSolver& { return *tasks.solver; },
+                                  return_value_policy<reference_existing_object>()))
       .add_property("scaled", &WalkTasks::scaled, &WalkTasks::scaled)
       .add_property("left_foot_task", &WalkTasks::left_foot_task)
       .add_property("right_foot_task", &WalkTasks::right_foot_task)
-- 
2.43.0


From 21cb6db809183b174790602ac3954c3b5012a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 45/48] fix: get_tasks_error crashed before the first solve and
 after a change of trunk_mode

---
 src/placo/humanoid/walk_tasks.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 9ccc3ec..76a85d4 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -147,19 +147,25 @@ void WalkTasks::update_tasks_and_pid(WalkPatternGenerator::Trajectory& trajector
 
 std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
 {
+  // The error of a task is only available once it has been updated
+  auto task_error = [](Task& task) -> Eigen::Vector3d {
+    task.update();
+    return task.error();
+  };
+
   std::map<std::string, Eigen::Vector3d> error;
-  error["left_foot_orientation"] = left_foot_task.orientation->error();
-  error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_position"] = left_foot_task.position->error();
-  error["right_foot_position"] = right_foot_task.position->error();
-  error["trunk_orientation"] = trunk_orientation_task->error();
-  if (trunk_mode)
+  error["left_foot_orientation"] = task_error(*left_foot_task.orientation);
+  error["right_foot_orientation"] = task_error(*right_foot_task.orientation);
+  error["left_foot_position"] = task_error(*left_foot_task.position);
+  error["right_foot_position"] = task_error(*right_foot_task.position);
+  error["trunk_orientation"] = task_error(*trunk_orientation_task);
+  if (trunk_task != nullptr)
   {
-    error["trunk_position"] = trunk_task->error();
+    error["trunk_position"] = task_error(*trunk_task);
   }
-  else
+  if (com_task != nullptr)
   {
-    error["com_position"] = com_task->error();
+    error["com_position"] = task_error(*com_task);
   }
   return error;
 }
-- 
2.43.0


From c2adea94b22a9403c14699f8646370034c7e16ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:34 +0000
Subject: [PATCH 46/48] fix: restore the CRLF line endings of cubic_spline.cpp,
 lost with the fix of CubicSpline's empty duration

---
 src/placo/tools/cubic_spline.cpp | 388 +++++++++++++++----------------
 1 file changed, 194 insertions(+), 194 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index 65c2e42..2664615 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,194 +1,194 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-
-  return _points.back().t - _points.front().t;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else if (type == Speed)
-    {
-      return _points.front().dx;
-    }
-    else
-    {
-      return 0.0;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+
+  return _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else if (type == Speed)
+    {
+      return _points.front().dx;
+    }
+    else
+    {
+      return 0.0;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From bf696f28a94310566a28a373cca7ace8bf16ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:59 +0000
Subject: [PATCH 47/48] fix: Polynom::derivative_coefficient overflowed an int
 for high degrees

---
 src/placo/tools/polynom.cpp | 4 ++--
 src/placo/tools/polynom.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/tools/polynom.cpp b/src/placo/tools/polynom.cpp
index 4c40ecd..60e5ef4 100644
--- a/src/placo/tools/polynom.cpp
+++ b/src/placo/tools/polynom.cpp
@@ -6,14 +6,14 @@ Polynom::Polynom(Eigen::VectorXd coefficients) : coefficients(coefficients)
 {
 }
 
-int Polynom::derivative_coefficient(int degree, int derivative)
+double Polynom::derivative_coefficient(int degree, int derivative)
 {
   if (derivative > degree)
   {
     return 0;
   }
 
-  int coefficient = 1;
+  double coefficient = 1;
 
   while (derivative > 0)
   {
diff --git a/src/placo/tools/polynom.h b/src/placo/tools/polynom.h
index 018bff7..187f0da 100644
--- a/src/placo/tools/polynom.h
+++ b/src/placo/tools/polynom.h
@@ -15,7 +15,7 @@ public:
    * @param derivative number of differentiations
    * @return coefficient
    */
-  static int derivative_coefficient(int degree, int derivative);
+  static double derivative_coefficient(int degree, int derivative);
 
   /**
    * @brief Computes the value of polynom
-- 
2.43.0


From 4abe940d0cd043c6958e9307b35ea50d0420cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:49 +0000
Subject: [PATCH 48/48] fix: LineContact::zmp ignored the inclination of the
 surface

---
 src/placo/dynamics/contacts.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 4a61370..d61173f 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -224,7 +224,10 @@ void LineContact::add_constraints(Problem& problem)
 
 Eigen::Vector3d LineContact::zmp()
 {
-  return Eigen::Vector3d(-wrench(3, 0) / wrench(F_Z, 0), 0, 0);
+  // The force is expressed in the world: the ZMP depends on its component normal to the surface
+  double f_normal = R_world_surface.col(2).dot(wrench.topRows(3));
+
+  return Eigen::Vector3d(-wrench(3, 0) / f_normal, 0, 0);
 }
 
 ExternalWrenchContact::ExternalWrenchContact(model::RobotWrapper::FrameIndex frame_index,
-- 
2.43.0

