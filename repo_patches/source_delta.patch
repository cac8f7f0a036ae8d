From 532ae57c5f4b11575f2158bc93cbb1d898490dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:45 +0000
Subject: [PATCH 1/8] fix: connect states whose predicted states coincide on
 different clothoids

CC_Dubins and HC_Reeds_Shepp merged the initial and final clothoid into a
single control whenever the predicted start and goal states coincided, even
if the two clothoids differ (curvature peak, dip to zero, no prediction at
one end); subtract_control ignored a change of the driving direction. The
returned controls then missed the goal and the distance was wrong.
---
 .../cc_dubins_state_space.cpp                 | 28 ++++++++++++++++---
 .../hc_reeds_shepp_state_space.cpp            | 28 ++++++++++++++++---
 src/hc_cc_state_space/paths.cpp               |  3 +-
 3 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/hc_cc_state_space/cc_dubins_state_space.cpp b/src/hc_cc_state_space/cc_dubins_state_space.cpp
index 92d8044..d3c08cb 100644
--- a/src/hc_cc_state_space/cc_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc_dubins_state_space.cpp
@@ -113,8 +113,17 @@ double CC_Dubins_State_Space::get_distance(const State &state1, const State &sta
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        // start and goal state are located on the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        // start and goal state are located on two different clothoids
+        else
+        {
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
+        }
       }
       // call appropriate state space
       else
@@ -166,8 +175,19 @@ vector<Control> CC_Dubins_State_Space::get_controls(const State &state1, const S
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        cc_dubins_controls.push_back(control);
+        // start and goal state are located on the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          cc_dubins_controls.push_back(control);
+        }
+        // start and goal state are located on two different clothoids
+        else
+        {
+          reverse_control(end_control);
+          cc_dubins_controls.push_back(start_control);
+          cc_dubins_controls.push_back(end_control);
+        }
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
index 16c16db..13fd613 100644
--- a/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc_reeds_shepp_state_space.cpp
@@ -108,8 +108,17 @@ double HC_Reeds_Shepp_State_Space::get_distance(const State &state1, const State
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        distances.push_back(fabs(control.delta_s));
+        // start and goal state are located on the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          distances.push_back(fabs(control.delta_s));
+        }
+        // start and goal state are located on two different clothoids
+        else
+        {
+          distances.push_back(fabs(start_control.delta_s) + fabs(end_control.delta_s));
+        }
       }
       // call appropriate state space
       else
@@ -161,8 +170,19 @@ vector<Control> HC_Reeds_Shepp_State_Space::get_controls(const State &state1, co
       // check if start and goal state are equal
       if (state_equal(start_state, end_state))
       {
-        Control control = subtract_control(start_control, end_control);
-        hc_rs_controls.push_back(control);
+        // start and goal state are located on the same clothoid
+        if (sgn(start_control.delta_s) * start_control.sigma == sgn(end_control.delta_s) * end_control.sigma)
+        {
+          Control control = subtract_control(start_control, end_control);
+          hc_rs_controls.push_back(control);
+        }
+        // start and goal state are located on two different clothoids
+        else
+        {
+          reverse_control(end_control);
+          hc_rs_controls.push_back(start_control);
+          hc_rs_controls.push_back(end_control);
+        }
       }
       // call the appropriate state space
       else
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 8cb2ff8..1ca21f8 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -284,7 +284,8 @@ Control subtract_control(const Control &control1, const Control &control2)
   Control control;
   control.delta_s = control1.delta_s - control2.delta_s;
   control.kappa = control1.kappa;
-  control.sigma = control1.sigma;
+  // sharpness is given w.r.t. the driven arc length, i.e. it changes sign with the driving direction
+  control.sigma = sgn(control.delta_s) * sgn(control1.delta_s) * control1.sigma;
   return control;
 }
 
-- 
2.43.0


From dc3f67860a446546c4916afc51fa4d4203afb2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:07 +0000
Subject: [PATCH 2/8] fix: Dubins and Reeds-Shepp interpolate() return
 curvature and direction at t <= 0

---
 src/dubins_state_space/dubins_state_space.cpp           | 2 ++
 src/reeds_shepp_state_space/reeds_shepp_state_space.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 405e5e6..89b0848 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -425,6 +425,8 @@ State Dubins_State_Space::interpolate(const State &state, const vector<Control>
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
diff --git a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
index 787dedb..b08e79d 100644
--- a/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
+++ b/src/reeds_shepp_state_space/reeds_shepp_state_space.cpp
@@ -714,6 +714,8 @@ State Reeds_Shepp_State_Space::interpolate(const State &state, const vector<Cont
   state_curr.x = state.x;
   state_curr.y = state.y;
   state_curr.theta = state.theta;
+  state_curr.kappa = controls.front().kappa;
+  state_curr.d = sgn(controls.front().delta_s);
   // get arc length at t
   double s_path(0.0);
   double s_inter(0.0);
-- 
2.43.0


From 77c8e855ad21e0de8df874464d434c1877cbb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:33 +0000
Subject: [PATCH 3/8] fix: compare headings modulo 2 pi in
 configuration_equal/aligned and state_equal

---
 src/hc_cc_state_space/configuration.cpp | 8 ++++----
 src/hc_cc_state_space/paths.cpp         | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hc_cc_state_space/configuration.cpp b/src/hc_cc_state_space/configuration.cpp
index 6dd7a4f..c8ee44d 100644
--- a/src/hc_cc_state_space/configuration.cpp
+++ b/src/hc_cc_state_space/configuration.cpp
@@ -58,17 +58,17 @@ double configuration_distance(const Configuration &q1, const Configuration &q2)
 
 bool configuration_aligned(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
   {
     return false;
   }
-  double angle = twopify(atan2(q2.y - q1.y, q2.x - q1.x));
-  return fabs(angle - q1.theta) <= get_epsilon();
+  double angle = atan2(q2.y - q1.y, q2.x - q1.x);
+  return fabs(pify(angle - q1.theta)) <= get_epsilon();
 }
 
 bool configuration_equal(const Configuration &q1, const Configuration &q2)
 {
-  if (fabs(q2.theta - q1.theta) > get_epsilon())
+  if (fabs(pify(q2.theta - q1.theta)) > get_epsilon())
     return false;
   if (configuration_distance(q1, q2) > get_epsilon())
     return false;
diff --git a/src/hc_cc_state_space/paths.cpp b/src/hc_cc_state_space/paths.cpp
index 1ca21f8..6b19991 100644
--- a/src/hc_cc_state_space/paths.cpp
+++ b/src/hc_cc_state_space/paths.cpp
@@ -264,7 +264,7 @@ bool state_equal(const State &state1, const State &state2)
 {
   if (fabs(state2.kappa - state1.kappa) > get_epsilon())
     return false;
-  if (fabs(twopify(state2.theta) - twopify(state1.theta)) > get_epsilon())
+  if (fabs(pify(state2.theta - state1.theta)) > get_epsilon())
     return false;
   if (point_distance(state1.x, state1.y, state2.x, state2.y) > get_epsilon())
     return false;
-- 
2.43.0


From 1acee1fa78e804dbf86df11aab86dc1ac5f641ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:24 +0000
Subject: [PATCH 4/8] fix: Dubins segments that miss zero by rounding are no
 full turns

---
 src/dubins_state_space/dubins_state_space.cpp | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/dubins_state_space/dubins_state_space.cpp b/src/dubins_state_space/dubins_state_space.cpp
index 89b0848..d620b63 100644
--- a/src/dubins_state_space/dubins_state_space.cpp
+++ b/src/dubins_state_space/dubins_state_space.cpp
@@ -73,6 +73,13 @@ namespace /* helper */
 const double DUBINS_EPS = 1e-6;
 const double DUBINS_ZERO = -1e-9;
 
+// angle in [0, 2*pi), where a value that misses zero only by rounding is zero and not a full turn
+double mod2pi(double angle)
+{
+  double v = twopify(angle);
+  return (TWO_PI - v < .5 * DUBINS_EPS) ? 0. : v;
+}
+
 Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
 {
   double ca = cos(alpha), sa = sin(alpha), cb = cos(beta), sb = sin(beta);
@@ -80,9 +87,9 @@ Dubins_State_Space::Dubins_Path dubinsLSL(double d, double alpha, double beta)
   if (tmp >= DUBINS_ZERO)
   {
     double theta = atan2(cb - ca, d + sa - sb);
-    double t = twopify(-alpha + theta);
+    double t = mod2pi(-alpha + theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(beta - theta);
+    double q = mod2pi(beta - theta);
     assert(fabs(p * cos(alpha + t) - sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -98,9 +105,9 @@ Dubins_State_Space::Dubins_Path dubinsRSR(double d, double alpha, double beta)
   if (tmp >= DUBINS_ZERO)
   {
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta);
+    double t = mod2pi(alpha - theta);
     double p = sqrt(max(tmp, 0.));
-    double q = twopify(-beta + theta);
+    double q = mod2pi(-beta + theta);
     assert(fabs(p * cos(alpha - t) + sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -117,8 +124,8 @@ Dubins_State_Space::Dubins_Path dubinsRSL(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(ca + cb, d - sa - sb) - atan2(2., p);
-    double t = twopify(alpha - theta);
-    double q = twopify(beta - theta);
+    double t = mod2pi(alpha - theta);
+    double q = mod2pi(beta - theta);
     assert(fabs(p * cos(alpha - t) - 2. * sin(alpha - t) + sa + sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha - t) + 2. * cos(alpha - t) - ca - cb) < DUBINS_EPS);
     assert(twopify(alpha - t + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -135,8 +142,8 @@ Dubins_State_Space::Dubins_Path dubinsLSR(double d, double alpha, double beta)
   {
     double p = sqrt(max(tmp, 0.));
     double theta = atan2(-ca - cb, d + sa + sb) - atan2(-2., p);
-    double t = twopify(-alpha + theta);
-    double q = twopify(-beta + theta);
+    double t = mod2pi(-alpha + theta);
+    double q = mod2pi(-beta + theta);
     assert(fabs(p * cos(alpha + t) + 2. * sin(alpha + t) - sa - sb - d) < DUBINS_EPS);
     assert(fabs(p * sin(alpha + t) - 2. * cos(alpha + t) + ca + cb) < DUBINS_EPS);
     assert(twopify(alpha + t - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -153,8 +160,8 @@ Dubins_State_Space::Dubins_Path dubinsRLR(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(ca - cb, d - sa + sb);
-    double t = twopify(alpha - theta + .5 * p);
-    double q = twopify(alpha - beta - t + p);
+    double t = mod2pi(alpha - theta + .5 * p);
+    double q = mod2pi(alpha - beta - t + p);
     assert(fabs(2. * sin(alpha - t + p) - 2. * sin(alpha - t) - d + sa - sb) < DUBINS_EPS);
     assert(fabs(-2. * cos(alpha - t + p) + 2. * cos(alpha - t) - ca + cb) < DUBINS_EPS);
     assert(twopify(alpha - t + p - q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -171,8 +178,8 @@ Dubins_State_Space::Dubins_Path dubinsLRL(double d, double alpha, double beta)
   {
     double p = TWO_PI - acos(tmp);
     double theta = atan2(-ca + cb, d + sa - sb);
-    double t = twopify(-alpha + theta + .5 * p);
-    double q = twopify(beta - alpha - t + p);
+    double t = mod2pi(-alpha + theta + .5 * p);
+    double q = mod2pi(beta - alpha - t + p);
     assert(fabs(-2. * sin(alpha + t - p) + 2. * sin(alpha + t) - d - sa + sb) < DUBINS_EPS);
     assert(fabs(2. * cos(alpha + t - p) - 2. * cos(alpha + t) + ca - cb) < DUBINS_EPS);
     assert(twopify(alpha + t - p + q - beta + .5 * DUBINS_EPS) < DUBINS_EPS);
@@ -228,7 +235,7 @@ const Dubins_State_Space::Dubins_Path_Segment_Type Dubins_State_Space::dubins_pa
 Dubins_State_Space::Dubins_Path Dubins_State_Space::dubins(const State &state1, const State &state2) const
 {
   double dx = state2.x - state1.x, dy = state2.y - state1.y, th = atan2(dy, dx), d = sqrt(dx * dx + dy * dy) * kappa_;
-  double alpha = twopify(state1.theta - th), beta = twopify(state2.theta - th);
+  double alpha = mod2pi(state1.theta - th), beta = mod2pi(state2.theta - th);
   return steering::dubins(d, alpha, beta);
 }
 
-- 
2.43.0


From 5b69d724a77dc21863b637899abf14d6f646dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 5/8] fix: compare headings modulo 2 pi when testing whether a
 configuration lies on a turning circle

twopify(angle) may return 2 pi - eps while the heading of the configuration is 0, so that a goal reachable by a single
turn was missed and a path several times longer was returned.
---
 src/hc_cc_state_space/hc_cc_circle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hc_cc_state_space/hc_cc_circle.cpp b/src/hc_cc_state_space/hc_cc_circle.cpp
index 5d6b6a5..4a26d2b 100644
--- a/src/hc_cc_state_space/hc_cc_circle.cpp
+++ b/src/hc_cc_state_space/hc_cc_circle.cpp
@@ -334,7 +334,7 @@ bool configuration_on_hc_cc_circle(const HC_CC_Circle &c, const Configuration &q
     angle = angle - HALF_PI - c.mu;
   }
   angle = twopify(angle);
-  return fabs(q.theta - angle) < get_epsilon();
+  return fabs(pify(q.theta - angle)) < get_epsilon();
 }
 
 } // namespace steering
-- 
2.43.0


From 274b2eb6fb4a0acc372114708c1e23c78da17faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 6/8] fix: a single turn of maximum curvature requires the same
 turning side at both ends

The arc ends with the curvature of the start circle, which contradicts the curvature sign requested at the goal when the
goal configuration lies on the start circle but turns to the other side.
---
 src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
index 34672e9..9e613a7 100644
--- a/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpmpm_dubins_state_space.cpp
@@ -503,7 +503,7 @@ CC_Dubins_Path *CCpmpm_Dubins_State_Space::ccpmpm_circles_dubins_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->rs_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index d76f184..7ca07db 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -1599,7 +1599,7 @@ HC_CC_RS_Path *HCpmpm_Reeds_Shepp_State_Space::hcpmpm_circles_rs_path(const HC_C
     goto label_end;
   }
   // case T
-  if (configuration_on_hc_cc_circle(c1, c2.start))
+  if (c1.left == c2.left && configuration_on_hc_cc_circle(c1, c2.start))
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, rs_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->rs_turn_length(c2.start);
-- 
2.43.0


From 406be4244f7c7a5039c5edc3bb9858de874650e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 7/8] fix: mirror the middle circle of the TiSTcT, TcTiST and
 TcTiSTcT families for the other turning side

The lateral offset of the circle that precedes or follows the cusp had the same sign for left and right turns, so mirrored
queries were answered with paths of different (longer) length.
---
 .../cc00_reeds_shepp_state_space.cpp                 | 12 ++++++++++++
 .../hc00_reeds_shepp_state_space.cpp                 | 12 ++++++++++++
 .../hc0pm_reeds_shepp_state_space.cpp                | 12 ++++++++++++
 .../hcpm0_reeds_shepp_state_space.cpp                | 12 ++++++++++++
 .../hcpmpm_reeds_shepp_state_space.cpp               | 12 ++++++++++++
 5 files changed, 60 insertions(+)

diff --git a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
index 3ad8e05..7302ecc 100644
--- a/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/cc00_reeds_shepp_state_space.cpp
@@ -546,6 +546,10 @@ public:
     double r = c2.radius * c2.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -633,6 +637,10 @@ public:
     double r = c1.radius * c1.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -720,6 +728,10 @@ public:
     double r = c1.radius * c1.cos_mu;
     double delta_y = pow(2 * r, 2) / distance;
     double delta_x = 2 * r * sqrt(1 - delta_y / distance);
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
index c742b1d..ec218ea 100644
--- a/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc00_reeds_shepp_state_space.cpp
@@ -568,6 +568,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -659,6 +663,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -751,6 +759,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index d69eed3..46b86cf 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -577,6 +577,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -669,6 +673,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (fabs(c1.kappa) * distance);
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -765,6 +773,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c1.radius * c1.cos_mu) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index 59b7c3b..b60a280 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -578,6 +578,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -673,6 +677,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -765,6 +773,10 @@ public:
     double theta = angle;
     double delta_y = (4 * c2.radius * c2.cos_mu) / (distance * fabs(c2.kappa));
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
diff --git a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
index 7ca07db..688f606 100644
--- a/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.cpp
@@ -589,6 +589,10 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c2.xc, c2.yc, theta, -delta_x, delta_y, &x, &y);
@@ -685,6 +689,10 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (fabs(c2.kappa) * distance);
     double delta_x = sqrt(pow(2 * c2.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left == c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, -delta_y, &x, &y);
@@ -781,6 +789,10 @@ public:
     double theta = angle;
     double delta_y = (4 * parent_->radius_ * parent_->cos_mu_) / (distance * fabs(c1.kappa));
     double delta_x = sqrt(pow(2 * c1.kappa_inv, 2) - pow(delta_y, 2));
+    if (c1.left != c1.forward)
+    {
+      delta_y = -delta_y;
+    }
     double x, y;
 
     global_frame_change(c1.xc, c1.yc, theta, delta_x, delta_y, &x, &y);
-- 
2.43.0


From 27a5df8f07a3ce4ad90c431a12606a21f089a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:15 +0000
Subject: [PATCH 8/8] fix: a single turn between concentric circles requires
 the same turning side

When the turning circles at both ends share their centre but turn to different sides, no single turn connects the
configurations; the path missed the goal.
---
 src/hc_cc_state_space/cc0pm_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/ccpm0_dubins_state_space.cpp      | 2 +-
 src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp | 2 +-
 src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
index 6f9c270..0309443 100644
--- a/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/cc0pm_dubins_state_space.cpp
@@ -375,7 +375,7 @@ CC_Dubins_Path *CC0pm_Dubins_State_Space::cc0pm_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (cc0pm_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && cc0pm_dubins_->distance < get_epsilon())
   {
     cstart[cc_dubins::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cstart[cc_dubins::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
index 518c131..6b192f3 100644
--- a/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
+++ b/src/hc_cc_state_space/ccpm0_dubins_state_space.cpp
@@ -375,7 +375,7 @@ CC_Dubins_Path *CCpm0_Dubins_State_Space::ccpm0_circles_dubins_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (ccpm0_dubins_->distance < get_epsilon())
+  if (c1.left == c2.left && ccpm0_dubins_->distance < get_epsilon())
   {
     cend[cc_dubins::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, true, hc_cc_circle_param_);
     length[cc_dubins::T] = cend[cc_dubins::T]->hc_turn_length(c1.start);
diff --git a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
index 46b86cf..0f582ff 100644
--- a/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hc0pm_reeds_shepp_state_space.cpp
@@ -1577,7 +1577,7 @@ HC_CC_RS_Path *HC0pm_Reeds_Shepp_State_Space::hc0pm_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hc0pm_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hc0pm_reeds_shepp_->distance < get_epsilon())
   {
     cstart[hc_cc_rs::T] = new HC_CC_Circle(c1.start, c1.left, c1.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cstart[hc_cc_rs::T]->hc_turn_length(c2.start);
diff --git a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
index b60a280..084e932 100644
--- a/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
+++ b/src/hc_cc_state_space/hcpm0_reeds_shepp_state_space.cpp
@@ -1577,7 +1577,7 @@ HC_CC_RS_Path *HCpm0_Reeds_Shepp_State_Space::hcpm0_circles_rs_path(const HC_CC_
     goto label_end;
   }
   // case T
-  if (hcpm0_reeds_shepp_->distance < get_epsilon())
+  if (c1.left == c2.left && hcpm0_reeds_shepp_->distance < get_epsilon())
   {
     cend[hc_cc_rs::T] = new HC_CC_Circle(c2.start, c2.left, c2.forward, HC_REGULAR, hc_cc_circle_param_);
     length[hc_cc_rs::T] = cend[hc_cc_rs::T]->hc_turn_length(c1.start);
-- 
2.43.0

