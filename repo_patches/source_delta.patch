From aebc58817c139652cdc87aefdc460f97beb6f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 01/69] fix: stop and join the parameter worker when an
 AvoidanceNode is destroyed

~AvoidanceNode left the running worker thread joinable, so destroying a node
after init() called std::terminate.
---
 avoidance/include/avoidance/avoidance_node.h |  8 +++++++-
 avoidance/src/avoidance_node.cpp             | 17 +++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 9cbb0e4..04d304e 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -10,6 +10,10 @@
 #include "avoidance/common.h"
 #include "mavros_msgs/CompanionProcessStatus.h"
 
+#include <atomic>
+#include <condition_variable>
+#include <memory>
+#include <mutex>
 #include <thread>
 
 namespace avoidance {
@@ -70,6 +74,8 @@ class AvoidanceNode {
   std::unique_ptr<std::mutex> param_cb_mutex_;
 
   std::thread worker_;
+  std::mutex worker_mutex_;
+  std::condition_variable worker_cv_;
 
   double cmdloop_dt_, statusloop_dt_;
   double timeout_termination_;
@@ -77,7 +83,7 @@ class AvoidanceNode {
   double timeout_startup_;
 
   bool position_received_;
-  bool should_exit_;
+  std::atomic<bool> should_exit_;
 
   float mission_item_speed_;
 
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 75881ec..2744a73 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -15,7 +15,14 @@ AvoidanceNode::AvoidanceNode(const ros::NodeHandle& nh, const ros::NodeHandle& n
   param_cb_mutex_.reset(new std::mutex);
 }
 
-AvoidanceNode::~AvoidanceNode() {}
+AvoidanceNode::~AvoidanceNode() {
+  {
+    std::lock_guard<std::mutex> lck(worker_mutex_);
+    should_exit_ = true;
+  }
+  worker_cv_.notify_all();
+  if (worker_.joinable()) worker_.join();
+}
 
 void AvoidanceNode::init() {
   mavros_system_status_pub_ = nh_.advertise<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status", 1);
@@ -157,11 +164,9 @@ void AvoidanceNode::checkPx4Parameters() {
           !std::isfinite(px4_.param_mpc_yawrauto_max);
     }
 
-    if (is_param_not_initialized) {
-      std::this_thread::sleep_for(std::chrono::seconds(5));
-    } else {
-      std::this_thread::sleep_for(std::chrono::seconds(30));
-    }
+    std::unique_lock<std::mutex> worker_lock(worker_mutex_);
+    worker_cv_.wait_for(worker_lock, std::chrono::seconds(is_param_not_initialized ? 5 : 30),
+                        [this]() { return should_exit_.load(); });
   }
 }
 
-- 
2.43.0


From 0f9f4d04cb74c0ce4b183e0506fb63516a7e4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 02/69] fix: ignore mission speed changes that are not ground
 speed

The speed-type comparison lacked the absolute value, so airspeed items
(param1 0) were taken as ground speed.
---
 avoidance/src/avoidance_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 2744a73..bd4513e 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -175,7 +175,7 @@ void AvoidanceNode::missionCallback(const mavros_msgs::WaypointList& msg) {
     if (msg.waypoints[index].is_current) {
       for (int i = index; i >= 0; i--) {
         if (msg.waypoints[i].command == static_cast<int>(MavCommand::MAV_CMD_DO_CHANGE_SPEED) &&
-            (msg.waypoints[i].param1 - 1.0f) < FLT_MIN && msg.waypoints[i].param2 > 0.0f) {
+            std::fabs(msg.waypoints[i].param1 - 1.0f) < FLT_MIN && msg.waypoints[i].param2 > 0.0f) {
           // 1MAV_CMD_DO_CHANGE_SPEED, speed type: ground speed, speed valid
           mission_item_speed_ = msg.waypoints[i].param2;
           break;
-- 
2.43.0


From cc896decef267712fc07920f4f91bc2490217a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 03/69] fix: keep transforms of different frame pairs apart

The buffer key joined the names with "_to_", so pairs such as (c, f_to_x) and
(c_to_f, x) shared one queue.
---
 avoidance/src/transform_buffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/avoidance/src/transform_buffer.cpp b/avoidance/src/transform_buffer.cpp
index d5d91f3..7c2eb4b 100644
--- a/avoidance/src/transform_buffer.cpp
+++ b/avoidance/src/transform_buffer.cpp
@@ -9,7 +9,8 @@ TransformBuffer::TransformBuffer(float buffer_size_s) : buffer_size_(ros::Durati
 };
 
 std::string TransformBuffer::getKey(const std::string& source_frame, const std::string& target_frame) const {
-  return source_frame + "_to_" + target_frame;
+  // frame names cannot contain the separator, so that different frame pairs never share a key
+  return source_frame + '\n' + target_frame;
 }
 
 bool TransformBuffer::interpolateTransform(const tf::StampedTransform& tf_earlier, const tf::StampedTransform& tf_later,
-- 
2.43.0


From b4565e39a55a7083915b01ee1d50e23322b54120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 04/69] fix: polarFCUToCartesian looks down for positive pitch

The function is documented (and used, for the field of view display) in the
vehicle convention, where positive pitch points downwards, as produced by
cartesianToPolarFCU; it returned the mirrored point.
---
 avoidance/src/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 9a8e21a..cf61b97 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -135,7 +135,7 @@ Eigen::Vector3f polarFCUToCartesian(const PolarPoint& p_pol, const Eigen::Vector
   Eigen::Vector3f p;
   p.x() = pos.x() + p_pol.r * std::sin((90.0f - p_pol.e) * DEG_TO_RAD) * std::cos(p_pol.z * DEG_TO_RAD);
   p.y() = pos.y() + p_pol.r * std::sin((90.0f - p_pol.e) * DEG_TO_RAD) * std::sin(p_pol.z * DEG_TO_RAD);
-  p.z() = pos.z() + p_pol.r * std::cos((90.0f - p_pol.e) * DEG_TO_RAD);
+  p.z() = pos.z() - p_pol.r * std::cos((90.0f - p_pol.e) * DEG_TO_RAD);  // positive pitch looks down
 
   return p;
 }
-- 
2.43.0


From b5af0251cb709ed6e13ae04bdf0158cb853a8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 05/69] fix: field of view straddling +-180 degrees

---
 avoidance/src/common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index cf61b97..8d735f2 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -18,9 +18,8 @@ bool pointInsideFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol) {
 }
 
 bool pointInsideFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f) &&
-         p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f && p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
+  return pointInsideYawFOV(fov, p_pol) && p_pol.e <= fov.pitch_deg + fov.v_fov_deg / 2.f &&
+         p_pol.e >= fov.pitch_deg - fov.v_fov_deg / 2.f;
 }
 
 bool histogramIndexYawInsideFOV(const std::vector<FOV>& fov_vec, const int idx, Eigen::Vector3f position,
@@ -64,8 +63,8 @@ bool pointInsideYawFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol)
 }
 
 bool pointInsideYawFOV(const FOV& fov, const PolarPoint& p_pol) {
-  return p_pol.z <= wrapAngleToPlusMinus180(fov.yaw_deg + fov.h_fov_deg / 2.f) &&
-         p_pol.z >= wrapAngleToPlusMinus180(fov.yaw_deg - fov.h_fov_deg / 2.f);
+  // measured the short way round, so that a field of view may straddle +-180 degrees
+  return std::abs(wrapAngleToPlusMinus180(p_pol.z - fov.yaw_deg)) <= fov.h_fov_deg / 2.f;
 }
 
 bool isInWhichFOV(const std::vector<FOV>& fov_vec, const PolarPoint& p_pol, int& idx) {
-- 
2.43.0


From f88c3abcd8cfa79d3ecb015945605dfda52d0534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 06/69] fix: extreme points more than 9999 m away were not
 reported

---
 avoidance/src/common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 8d735f2..ccdd75b 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -340,7 +340,8 @@ void fillUnusedTrajectoryPoint(mavros_msgs::PositionTarget& point) {
 pcl::PointCloud<pcl::PointXYZ> removeNaNAndGetMaxima(pcl::PointCloud<pcl::PointXYZ>& cloud) {
   // Filter out NANs and keep track of outermost points for FOV
   size_t j = 0;
-  float x_max = -9999.f, y_max = -9999.f, z_max = -9999.f, x_min = 9999.f, y_min = 9999.f, z_min = 9999.f;
+  const float inf = std::numeric_limits<float>::infinity();
+  float x_max = -inf, y_max = -inf, z_max = -inf, x_min = inf, y_min = inf, z_min = inf;
   int i_x_max = -1, i_x_min = -1, i_y_max = -1, i_y_min = -1, i_z_max = -1, i_z_min = -1;
   for (size_t i = 0; i < cloud.points.size(); ++i) {
     if (!std::isfinite(cloud.points[i].x) || !std::isfinite(cloud.points[i].y) || !std::isfinite(cloud.points[i].z))
-- 
2.43.0


From 8ba151ee5a53b2846a81e32f37f9cb19c866ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 07/69] fix: Bezier control points leave no stale velocity,
 acceleration or yaw rate

---
 avoidance/src/common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index ccdd75b..538c1f1 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -318,6 +318,7 @@ void transformToBezier(mavros_msgs::Trajectory& obst_avoid, const std::array<Eig
 }
 
 void fillControlPoint(mavros_msgs::PositionTarget& point_out, const Eigen::Vector4d& point_in) {
+  fillUnusedTrajectoryPoint(point_out);  // a control point has no velocity, acceleration or yaw rate
   point_out.position = toPoint(toENU(point_in.topRows<3>().cast<float>()));
   point_out.yaw = yawToENUrad(point_in[3]);
 }
-- 
2.43.0


From 921e1d653821118392c86325ac1f1aff67bcea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 08/69] fix: field of view of a rear-facing camera spans all
 points that widen it

---
 avoidance/src/common.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/avoidance/src/common.cpp b/avoidance/src/common.cpp
index 538c1f1..b78ab2e 100644
--- a/avoidance/src/common.cpp
+++ b/avoidance/src/common.cpp
@@ -1,5 +1,6 @@
 #include "avoidance/common.h"
 
+#include <algorithm>
 #include <cmath>
 #include <fstream>
 #include <iostream>
@@ -404,30 +405,38 @@ pcl::PointCloud<pcl::PointXYZ> removeNaNAndGetMaxima(pcl::PointCloud<pcl::PointX
 }
 
 void updateFOVFromMaxima(FOV& fov, const pcl::PointCloud<pcl::PointXYZ>& maxima) {
-  float h_min = 9999.f, h_max = -9999.f, v_min = 9999.f, v_max = -9999.f;
+  if (maxima.empty()) return;
+
+  float v_min = 9999.f, v_max = -9999.f;
+  std::vector<float> azimuths;
 
   for (auto p : maxima) {
     PolarPoint p_pol_fcu = cartesianToPolarFCU(p);
     p_pol_fcu.z += 180.0f;  // move azimuth to [0, 360]
     p_pol_fcu.e += 90.0f;   // move elevation to [0, 180]
-    h_min = std::min(p_pol_fcu.z, h_min);
-    h_max = std::max(p_pol_fcu.z, h_max);
+    azimuths.push_back(p_pol_fcu.z);
     v_min = std::min(p_pol_fcu.e, v_min);
     v_max = std::max(p_pol_fcu.e, v_max);
   }
 
-  float h_diff = std::min(h_max - h_min, 360.0f - h_max + h_min);
+  // The smallest arc containing all azimuths is the complement of the largest gap between neighbouring ones. It may
+  // straddle the direction opposite to the vehicle's heading.
+  std::sort(azimuths.begin(), azimuths.end());
+  float h_start = azimuths.front();
+  float h_gap = azimuths.front() + 360.0f - azimuths.back();
+  for (size_t i = 1; i < azimuths.size(); ++i) {
+    if (azimuths[i] - azimuths[i - 1] > h_gap) {
+      h_gap = azimuths[i] - azimuths[i - 1];
+      h_start = azimuths[i];
+    }
+  }
+
+  float h_diff = 360.0f - h_gap;
   float v_diff = std::min(v_max - v_min, 360.0f - v_max + v_min);
 
   if (h_diff > fov.h_fov_deg) {
     fov.h_fov_deg = h_diff;
-
-    // Note: the wrapping here assumes the FOV of one camera is < 180 degrees!
-    if (h_diff >= h_max - h_min) {
-      fov.yaw_deg = wrapAngleToPlusMinus180((h_max + h_min) / 2.0 - 180.0f);  // center of camera in [-180, 180]
-    } else {
-      fov.yaw_deg = wrapAngleToPlusMinus180((h_max + h_min) / 2.0);
-    }
+    fov.yaw_deg = wrapAngleToPlusMinus180(h_start + h_diff / 2.0f - 180.0f);  // center of camera in [-180, 180]
   }
 
   // Note: no wrapping in elevation! If the camera sees the zenith or nadir,
-- 
2.43.0


From a7203179ecb3da25b374624ed27d66e38dc29128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 09/69] fix: no candidate is read from an empty queue when none
 are requested

---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 19560c9..c48c14f 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -240,7 +240,7 @@ void getBestCandidatesFromCostMatrix(const Eigen::MatrixXf& matrix, unsigned int
 
       if (queue.size() < number_of_candidates) {
         queue.push(candidate);
-      } else if (candidate < queue.top()) {
+      } else if (!queue.empty() && candidate < queue.top()) {
         queue.push(candidate);
         queue.pop();
       }
-- 
2.43.0


From 050bc28f58c9dae7c13ccfd0b187e7a8490fe602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 10/69] fix: direction costs stay finite at the goal

---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index c48c14f..54da0e1 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -331,7 +331,7 @@ std::pair<float, float> costFunction(const PolarPoint& candidate_polar, float ob
                                      const Eigen::Vector3f& closest_pt, const bool is_obstacle_facing_goal) {
   // Compute  polar direction to goal and cartesian representation of current direction to evaluate
   const PolarPoint facing_goal = cartesianToPolarHistogram(goal, position);
-  const float goal_distance = (goal - position).norm();
+  const float goal_distance = std::max((goal - position).norm(), 0.01f);  // the pitch cost is divided by it
   const Eigen::Vector3f candidate_velocity_cartesian =
       polarHistogramToCartesian(candidate_polar, Eigen::Vector3f(0.0f, 0.0f, 0.0f));
 
-- 
2.43.0


From 0cbb563d3ae0e820e10eba0a21fa28fa8cfe43da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 11/69] fix: path stays available at the instant an
 intermediate node is reached

---
 local_planner/src/nodes/planner_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/src/nodes/planner_functions.cpp b/local_planner/src/nodes/planner_functions.cpp
index 54da0e1..be57fdb 100644
--- a/local_planner/src/nodes/planner_functions.cpp
+++ b/local_planner/src/nodes/planner_functions.cpp
@@ -380,7 +380,7 @@ bool getSetpointFromPath(const std::vector<Eigen::Vector3f>& path, const ros::Ti
   Eigen::Vector3f path_segment = path[i - 3] - path[i - 2];
   float distance_left = (current_time - path_generation_time).toSec() * velocity;
   setpoint = path[i - 2] + (distance_left / path_segment.norm()) * path_segment;
-  for (i = path.size() - 3; i > 0 && distance_left > path_segment.norm(); --i) {
+  for (i = path.size() - 3; i > 0 && distance_left >= path_segment.norm(); --i) {
     distance_left -= path_segment.norm();
     path_segment = path[i - 1] - path[i];
     setpoint = path[i] + (distance_left / path_segment.norm()) * path_segment;
-- 
2.43.0


From 3f50cc862bb946f21db400b0b7b75cc879ff12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 12/69] fix: simulated vehicle no longer gets stuck at the
 maximum acceleration

---
 .../src/utils/trajectory_simulator.cpp        | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/local_planner/src/utils/trajectory_simulator.cpp b/local_planner/src/utils/trajectory_simulator.cpp
index 46ce756..29f62f9 100644
--- a/local_planner/src/utils/trajectory_simulator.cpp
+++ b/local_planner/src/utils/trajectory_simulator.cpp
@@ -42,25 +42,16 @@ std::vector<simulation_state> TrajectorySimulator::generate_trajectory(const Eig
 
   simulation_state run_state = start_;
   for (int i = 0; i < num_steps; i++) {
-    float single_step_time = step_time_;
     const Eigen::Vector3f damped_jerk =
         jerk_for_velocity_setpoint(P_constant, D_constant, config_.max_jerk_norm, desired_velocity, run_state);
 
-    // limit time step to not exceed the maximum acceleration, but clamp
-    // jerk to 0 if at maximum acceleration already
-    const Eigen::Vector3f requested_accel = run_state.acceleration + single_step_time * damped_jerk;
-    Eigen::Vector3f jerk = damped_jerk;
-    if (requested_accel.squaredNorm() > sqr(max_accel_norm)) {
-      single_step_time =
-          (max_accel_norm - run_state.acceleration.norm()) / damped_jerk.norm();  // Use a dot product here somewhere?
-      if (single_step_time <= FLT_EPSILON || single_step_time > step_time_) {
-        jerk = Eigen::Vector3f::Zero();
-        single_step_time = step_time_;
-      }
-    }
+    // limit the jerk such that the step does not end above the maximum acceleration
+    const Eigen::Vector3f requested_accel = run_state.acceleration + step_time_ * damped_jerk;
+    const Eigen::Vector3f jerk =
+        (norm_clamp<3>(requested_accel, max_accel_norm) - run_state.acceleration) / step_time_;
 
     // update the state based on motion equations with the final jerk
-    run_state = simulate_step_constant_jerk(run_state, jerk, single_step_time);
+    run_state = simulate_step_constant_jerk(run_state, jerk, step_time_);
     timepoints.push_back(run_state);
   }
 
-- 
2.43.0


From 21dbf3b5480977ea5a7d5c8ea4f658a41cf09ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 13/69] fix: simulated trajectory stays finite without a goal
 direction

---
 local_planner/src/utils/trajectory_simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/local_planner/src/utils/trajectory_simulator.cpp b/local_planner/src/utils/trajectory_simulator.cpp
index 29f62f9..b556f0e 100644
--- a/local_planner/src/utils/trajectory_simulator.cpp
+++ b/local_planner/src/utils/trajectory_simulator.cpp
@@ -35,9 +35,9 @@ std::vector<simulation_state> TrajectorySimulator::generate_trajectory(const Eig
   // calculate P and D constants such that they hit the jerk limit when
   // doing accel from 0
   float max_accel_norm = std::min(2 * std::sqrt(config_.max_jerk_norm), config_.max_acceleration_norm);
+  const float desired_speed = std::max(desired_velocity.norm(), 0.01f);  // stay finite when asked to stop
   float P_constant =
-      (std::sqrt(sqr(max_accel_norm) + config_.max_jerk_norm * desired_velocity.norm()) - max_accel_norm) /
-      desired_velocity.norm() * 10;
+      (std::sqrt(sqr(max_accel_norm) + config_.max_jerk_norm * desired_speed) - max_accel_norm) / desired_speed * 10;
   float D_constant = 2 * std::sqrt(P_constant);
 
   simulation_state run_state = start_;
-- 
2.43.0


From c2ab9d7b676639661c66c51c8587dfdb84847a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 14/69] fix: hold and mode changes after a landing no longer
 send the stale landing setpoint

---
 local_planner/src/nodes/waypoint_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index 730168f..d39aa69 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -401,6 +401,8 @@ void WaypointGenerator::getPathMsg() {
     // in auto_land the z is only velocity controlled. Therefore we don't run the smoothing.
     adaptSpeed(dt);
     smoothWaypoint(dt);
+  } else {
+    output_.smoothed_goto_position = output_.goto_position;
   }
 
   ROS_INFO("[WG] Final waypoint: [%f %f %f]. %f %f %f \n", output_.smoothed_goto_position.x(),
-- 
2.43.0


From ededf3829a3ae5d39796094124a0bd2609c7ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 15/69] fix: setpoints stay near the vehicle on the first call
 and after a pause

---
 local_planner/src/nodes/waypoint_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index d39aa69..f16643d 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -393,6 +393,8 @@ void WaypointGenerator::getPathMsg() {
 
   float time_diff_sec = static_cast<float>((current_time_ - last_time_).toSec());
   float dt = time_diff_sec > 0.0f ? time_diff_sec : 0.0001f;
+  // the smoothing diverges if the time before the first call or a pause between two calls is integrated in one step
+  dt = std::min(dt, 0.1f);
 
   // set the yaw at the setpoint based on our smoothed location
   nextSmoothYaw(dt);
-- 
2.43.0


From dc8c563b5bef933bb2296450ffbb19b319cea432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 16/69] fix: waypoint generator no longer commands an
 uninitialised yaw rate

---
 local_planner/include/local_planner/waypoint_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/include/local_planner/waypoint_generator.h b/local_planner/include/local_planner/waypoint_generator.h
index 15b7c0b..db37f84 100644
--- a/local_planner/include/local_planner/waypoint_generator.h
+++ b/local_planner/include/local_planner/waypoint_generator.h
@@ -22,7 +22,7 @@ struct waypointResult {
   Eigen::Vector3f position_wp;
   Eigen::Quaternionf orientation_wp;
   Eigen::Vector3f linear_velocity_wp;
-  Eigen::Vector3f angular_velocity_wp;
+  Eigen::Vector3f angular_velocity_wp = Eigen::Vector3f::Zero();
   Eigen::Vector3f goto_position;           // correction direction, dist=1
   Eigen::Vector3f adapted_goto_position;   // correction direction & dist
   Eigen::Vector3f smoothed_goto_position;  // what is sent to the drone
-- 
2.43.0


From 99d7296a66f4a903eaebaa38faf16a7bcb8d71ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 17/69] fix: no uninitialised cruise speed before the first
 planner output

---
 local_planner/include/local_planner/avoidance_output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/local_planner/include/local_planner/avoidance_output.h b/local_planner/include/local_planner/avoidance_output.h
index 372faa8..8202a4b 100644
--- a/local_planner/include/local_planner/avoidance_output.h
+++ b/local_planner/include/local_planner/avoidance_output.h
@@ -10,7 +10,7 @@ namespace avoidance {
 enum waypoint_choice { hover, tryPath, direct, reachHeight };
 
 struct avoidanceOutput {
-  float cruise_velocity;     // mission cruise velocity
+  float cruise_velocity = NAN;  // mission cruise velocity
   ros::Time last_path_time;  // finish built time for the VFH+* tree
 
   std::vector<Eigen::Vector3f> path_node_positions;  // array of tree nodes
-- 
2.43.0


From 6b260f7ec4200a8d912c76678ad18ca38bd349be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 18/69] fix: local planner node no longer starts from
 uninitialised goals, poses and velocities

---
 .../local_planner/local_planner_nodelet.h     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index d34e4d4..decd178 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -211,18 +211,18 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   bool new_goal_ = false;
 
   std::mutex waypoints_mutex_;
-  Eigen::Vector3f newest_waypoint_position_;
-  Eigen::Vector3f last_waypoint_position_;
-  Eigen::Vector3f newest_adapted_waypoint_position_;
-  Eigen::Vector3f last_adapted_waypoint_position_;
-  Eigen::Vector3f newest_position_;
-  Eigen::Quaternionf newest_orientation_;
-  Eigen::Vector3f last_position_;
-  Eigen::Quaternionf last_orientation_;
-  Eigen::Vector3f velocity_;
-  Eigen::Vector3f desired_velocity_;
-  Eigen::Vector3f goal_position_;
-  Eigen::Vector3f prev_goal_position_;
+  Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f last_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f newest_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf newest_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f last_position_ = Eigen::Vector3f::Zero();
+  Eigen::Quaternionf last_orientation_ = Eigen::Quaternionf::Identity();
+  Eigen::Vector3f velocity_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f desired_velocity_ = Eigen::Vector3f(NAN, NAN, NAN);
+  Eigen::Vector3f goal_position_ = Eigen::Vector3f::Zero();
+  Eigen::Vector3f prev_goal_position_ = Eigen::Vector3f::Zero();
 
   NavigationState nav_state_ = NavigationState::none;
 
-- 
2.43.0


From bcb24cd3510ff694850b7e6f0be3227fae4be71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 19/69] fix: first mission item is taken over even if it lies
 at the local origin

---
 local_planner/include/local_planner/local_planner_nodelet.h | 1 +
 local_planner/src/nodes/local_planner_nodelet.cpp           | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index decd178..4603acc 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -209,6 +209,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   mavros_msgs::Altitude ground_distance_msg_;
 
   bool new_goal_ = false;
+  bool mission_item_received_ = false;
 
   std::mutex waypoints_mutex_;
   Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index 9e83709..e70bebf 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -338,6 +338,7 @@ void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArr
 
 void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
   bool update =
+      !mission_item_received_ ||
       ((avoidance::toEigen(msg.point_2.position) - avoidance::toEigen(goal_mission_item_msg_.pose.position)).norm() >
        0.01) ||
       !std::isfinite(goal_position_(0)) || !std::isfinite(goal_position_(1));
@@ -351,6 +352,7 @@ void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& ms
   }
   if (msg.point_valid[1] == true) {
     goal_mission_item_msg_.pose.position = msg.point_2.position;
+    mission_item_received_ = true;
     if (msg.command[1] == UINT16_MAX) {
       goal_position_ = toEigen(msg.point_2.position);
       desired_velocity_ << NAN, NAN, NAN;
-- 
2.43.0


From 790054fb17faa63f0f5fe3e3cadc82aebf148520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 20/69] fix: planner is told about goals set without a mission
 command

---
 local_planner/src/nodes/local_planner_nodelet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index e70bebf..de30f27 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -354,6 +354,8 @@ void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& ms
     goal_mission_item_msg_.pose.position = msg.point_2.position;
     mission_item_received_ = true;
     if (msg.command[1] == UINT16_MAX) {
+      // the planner has to follow the same goal as the waypoint generator
+      new_goal_ = new_goal_ || goal_position_ != toEigen(msg.point_2.position);
       goal_position_ = toEigen(msg.point_2.position);
       desired_velocity_ << NAN, NAN, NAN;
     }
-- 
2.43.0


From 279cb40ce026dfb809c32b3bfcb4173f35eeb763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 21/69] fix: landing grid index of a point just inside the
 upper limit stays in the grid

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 66849cf..b27d523 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -148,7 +148,9 @@ Eigen::Vector2i SafeLandingPlanner::computeGridIndexes(float x, float y) {
   grid_.getGridLimits(grid_min, grid_max);
   Eigen::Vector2i idx(static_cast<int>(std::floor((x - grid_min.x()) / grid_.getCellSize())),
                       static_cast<int>(std::floor((y - grid_min.y()) / grid_.getCellSize())));
-  return idx;
+  // the index of a point just inside the upper limit can be rounded up to the grid size
+  const int last_index = grid_.getRowColSize() - 1;
+  return idx.cwiseMin(Eigen::Vector2i(last_index, last_index));
 }
 
 std::pair<float, float> SafeLandingPlanner::computeOnlineMeanVariance(float prev_mean, float prev_variance,
-- 
2.43.0


From 52e5b5fa212751d3c51185a331a11e664d2db886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 22/69] fix: recorded landing grid of another size is not
 combined with a previous grid of the old size

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index b27d523..188c077 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -55,11 +55,12 @@ void SafeLandingPlanner::processRawGrid() {
   grid_seq_ = raw_grid_.header.seq;
   std::swap(previous_grid_, grid_);
   grid_.reset();
-  grid_.setFilterLimits(position_);
 
   if (grid_.getGridSize() != raw_grid_.grid_size || grid_.getCellSize() != raw_grid_.cell_size) {
     grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
+    previous_grid_.resize(raw_grid_.grid_size, raw_grid_.cell_size);
   }
+  grid_.setFilterLimits(position_);
 
   for (int i = 0; i < raw_grid_.mean.layout.dim[0].size; i++) {
     for (int j = 0; j < raw_grid_.mean.layout.dim[1].size; j++) {
-- 
2.43.0


From a2b6fe2b6a054f663162be1eb4ffa97fc744e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 23/69] fix: landing grid cells stay landable when no neighbour
 may differ in height

---
 safe_landing_planner/src/nodes/safe_landing_planner.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/safe_landing_planner/src/nodes/safe_landing_planner.cpp b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
index 188c077..bfb1b5d 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner.cpp
@@ -118,13 +118,11 @@ void SafeLandingPlanner::isLandingPossible() {
 
     // threshold each cell based on the number of landable cells in the
     // neighborhood
-    land_accumulator = (land_accumulator.array() <= min_n_land_cells_).select(0, land_accumulator);
-    land_accumulator = (land_accumulator.array() > min_n_land_cells_).select(1, land_accumulator);
+    land_accumulator = (land_accumulator.array() > min_n_land_cells_).cast<int>();
 
     // threshold each cell based on the number of cells in the neighborhood with
     // mean value difference greater than mean_diff_thr_
-    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).select(1, mean_accumulator);
-    mean_accumulator = (mean_accumulator.array() > max_n_mean_diff_cells_).select(0, mean_accumulator);
+    mean_accumulator = (mean_accumulator.array() <= max_n_mean_diff_cells_).cast<int>();
 
     // logical AND between mean_accumulator and land_accumulator
     land_accumulator = mean_accumulator.cwiseProduct(land_accumulator);
-- 
2.43.0


From ea55dd61ca013e6cf03954a0b6b248dfa6de7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 24/69] fix: height of the landing area is computed from cells
 of the grid only

---
 .../src/nodes/waypoint_generator.cpp            | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index f6dd9cf..ea9dd8a 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -324,19 +324,20 @@ bool WaypointGenerator::inVerticalRange() {
 }
 
 float WaypointGenerator::landingAreaHeightPercentile(float percentile) {
-  std::vector<float> altitude_landing_area((smoothing_land_cell_ * 2 + 1) * (smoothing_land_cell_ * 2 + 1));
+  std::vector<float> altitude_landing_area;
 
   int offset_center = grid_slp_.land_.rows() / 2;
-  for (int i = offset_center - smoothing_land_cell_; i <= offset_center + smoothing_land_cell_; i++) {
-    for (int j = offset_center - smoothing_land_cell_; j <= offset_center + smoothing_land_cell_; j++) {
-      int index = (smoothing_land_cell_ * 2 + 1) * (i - offset_center + smoothing_land_cell_) +
-                  (j - offset_center + smoothing_land_cell_);
-      altitude_landing_area[index] = grid_slp_.mean_(i, j);
+  // the landing area can be larger than the grid
+  int first = std::max(offset_center - smoothing_land_cell_, 0);
+  int last = std::min(offset_center + smoothing_land_cell_, static_cast<int>(grid_slp_.mean_.rows()) - 1);
+  for (int i = first; i <= last; i++) {
+    for (int j = first; j <= last; j++) {
+      altitude_landing_area.push_back(grid_slp_.mean_(i, j));
     }
   }
 
   std::sort(altitude_landing_area.begin(), altitude_landing_area.end());
-  int index = static_cast<int>(std::round(percentile / 100.f * altitude_landing_area.size()));
-  return altitude_landing_area[index];
+  size_t index = static_cast<size_t>(std::round(percentile / 100.f * altitude_landing_area.size()));
+  return altitude_landing_area[std::min(index, altitude_landing_area.size() - 1)];
 }
 }
-- 
2.43.0


From 4a030b1a5ec49828a74a911a0922af6632e29a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 25/69] fix: landing patch reaching out of the grid is not
 evaluated

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index ea9dd8a..1952a75 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -310,6 +310,13 @@ usm::Transition WaypointGenerator::runEvaluateGrid() {
 }
 
 bool WaypointGenerator::evaluatePatch(Eigen::Vector2i &left_upper_corner) {
+  // a patch which is not entirely in the grid cannot be evaluated
+  if (left_upper_corner.minCoeff() < 0 ||
+      left_upper_corner.x() + mask_.rows() > can_land_hysteresis_result_.rows() ||
+      left_upper_corner.y() + mask_.cols() > can_land_hysteresis_result_.cols()) {
+    return false;
+  }
+
   return can_land_hysteresis_result_.block(left_upper_corner.x(), left_upper_corner.y(), mask_.rows(), mask_.cols())
              .cwiseProduct(mask_)
              .sum() == mask_.sum();
-- 
2.43.0


From 85c0ca165d6c6730f5eae22371f9d52c0cba6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 26/69] fix: landing area is visualized in the center of a grid
 of any size

---
 .../src/nodes/waypoint_generator_node.cpp      | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index bf8887c..b79950b 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -205,22 +205,20 @@ void WaypointGeneratorNode::landingAreaVisualization() {
   waypointGenerator_.grid_slp_.getGridLimits(grid_min, grid_max);
   int offset = waypointGenerator_.grid_slp_.land_.rows() / 2;
 
-  Eigen::MatrixXi kernel(waypointGenerator_.can_land_hysteresis_matrix_.rows(),
-                         waypointGenerator_.can_land_hysteresis_matrix_.cols());
-  kernel.fill(0);
-  kernel.block(20 - waypointGenerator_.smoothing_land_cell_, 20 - waypointGenerator_.smoothing_land_cell_,
-               waypointGenerator_.mask_.rows(), waypointGenerator_.mask_.cols()) = waypointGenerator_.mask_;
-
-  Eigen::MatrixXi result = waypointGenerator_.can_land_hysteresis_result_.cwiseProduct(kernel);
+  const Eigen::MatrixXi &mask = waypointGenerator_.mask_;
+  const Eigen::MatrixXi &result = waypointGenerator_.can_land_hysteresis_result_;
 
   int slc = waypointGenerator_.smoothing_land_cell_;
+  // the landing area is in the center of the grid and can be larger than the grid
+  int first = std::max(offset - slc, 0);
+  int last = std::min(offset + slc, static_cast<int>(result.rows()) - 1);
 
-  for (size_t k = offset - slc; k <= offset + slc; k++) {
-    for (size_t l = offset - slc; l <= offset + slc; l++) {
+  for (int k = first; k <= last; k++) {
+    for (int l = first; l <= last; l++) {
       cell.pose.position.x = grid_min.x() + (cell_size * k);
       cell.pose.position.y = grid_min.y() + (cell_size * l);
       cell.pose.position.z = 1;
-      if (result(k, l)) {
+      if (result(k, l) && mask(k - offset + slc, l - offset + slc)) {
         cell.color.r = 0.0;
         cell.color.g = 1.0;
       } else {
-- 
2.43.0


From 00301c2ebbb3f3c4f8879d5e8325400af80b7b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 27/69] fix: setpoint without height nor vertical velocity is
 not marked valid

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index b79950b..6023adc 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -157,7 +157,7 @@ void WaypointGeneratorNode::publishTrajectorySetpoints(const Eigen::Vector3f &po
   bool xy_vel_sp_valid = std::isfinite(setpoint.point_1.velocity.x) && std::isfinite(setpoint.point_1.velocity.y);
 
   if ((xy_pos_sp_valid || xy_vel_sp_valid) &&
-      (std::isfinite(setpoint.point_1.position.z || std::isfinite(setpoint.point_1.velocity.z)))) {
+      (std::isfinite(setpoint.point_1.position.z) || std::isfinite(setpoint.point_1.velocity.z))) {
     setpoint.point_valid = {true, false, false, false, false};
   } else {
     setpoint.point_valid = {false, false, false, false, false};
-- 
2.43.0


From 0607c142322d44c313da2945f228225c1fad80c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 28/69] fix: exploration leaves the rejected site also for a
 landing area of one cell

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index 1952a75..e56bfe4 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -169,8 +169,9 @@ usm::Transition WaypointGenerator::runGoTo() {
       n_explored_pattern_ = 0;
       factor_exploration_ += 1.f;
     }
+    float landing_area_cells = std::max(2.f * static_cast<float>(smoothing_land_cell_), 1.f);
     float offset_exploration_setpoint =
-        spiral_width_ * factor_exploration_ * 2.f * static_cast<float>(smoothing_land_cell_) * grid_slp_.getCellSize();
+        spiral_width_ * factor_exploration_ * landing_area_cells * grid_slp_.getCellSize();
     goal_ = Eigen::Vector3f(
         exploration_anchor_.x() + offset_exploration_setpoint * exploration_pattern[n_explored_pattern_].x(),
         exploration_anchor_.y() + offset_exploration_setpoint * exploration_pattern[n_explored_pattern_].y(),
-- 
2.43.0


From f50eeb29f1cdba260bac5344fc29a9833bd713f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 29/69] fix: decisions taken for a landing item are not kept
 for the next mission item

---
 .../waypoint_generator.hpp                    |  5 +++++
 .../src/nodes/waypoint_generator.cpp          | 19 ++++++++++++-------
 .../src/nodes/waypoint_generator_node.cpp     |  9 +++++++--
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp
index 284e20d..901a978 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator.hpp
@@ -86,6 +86,11 @@ class WaypointGenerator : public usm::StateMachine<SLPState> {
   **/
   void updateSLPState();
 
+  /**
+  * @brief     forget the decisions taken for the current landing site
+  **/
+  void resetLandingDecision();
+
   /**
   * @brief iterate the statemachine
   */
diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index e56bfe4..e0f8dfc 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -75,19 +75,23 @@ void WaypointGenerator::updateSLPState() {
   }
 
   if (!is_land_waypoint_) {
-    decision_taken_ = false;
-    can_land_ = true;
-    can_land_hysteresis_matrix_.fill(0.0f);
-    explorarion_is_active_ = false;
-    n_explored_pattern_ = -1;
-    factor_exploration_ = 1.f;
-    landing_radius_ = 2.0f;
+    resetLandingDecision();
     ROS_INFO("[WGN] Not a land waypoint");
   }
 
   return;
 }
 
+void WaypointGenerator::resetLandingDecision() {
+  decision_taken_ = false;
+  can_land_ = true;
+  can_land_hysteresis_matrix_.fill(0.0f);
+  explorarion_is_active_ = false;
+  n_explored_pattern_ = -1;
+  factor_exploration_ = 1.f;
+  landing_radius_ = 2.0f;
+}
+
 SLPState WaypointGenerator::chooseNextState(SLPState currentState, usm::Transition transition) {
   prev_slp_state_ = currentState;
   state_changed_ = true;
@@ -107,6 +111,7 @@ SLPState WaypointGenerator::chooseNextState(SLPState currentState, usm::Transiti
 usm::Transition WaypointGenerator::runCurrentState() {
   if (trigger_reset_) {
     trigger_reset_ = false;
+    resetLandingDecision();
     return usm::Transition::ERROR;
   }
 
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 6023adc..ce633c9 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -74,10 +74,15 @@ void WaypointGeneratorNode::positionCallback(const geometry_msgs::PoseStamped &m
 }
 
 void WaypointGeneratorNode::trajectoryCallback(const mavros_msgs::Trajectory &msg) {
-  bool update = ((avoidance::toEigen(msg.point_2.position) - goal_visualization_).norm() > 0.01) ||
-                waypointGenerator_.goal_.topRows<2>().array().hasNaN();
+  bool new_item =
+      msg.point_valid[1] == true && (avoidance::toEigen(msg.point_2.position) - goal_visualization_).norm() > 0.01;
+  bool update = new_item || waypointGenerator_.goal_.topRows<2>().array().hasNaN();
 
   if (update && msg.point_valid[0] == true) {
+    // the decisions taken for the previous landing item do not hold for another item
+    if (waypointGenerator_.is_land_waypoint_ && new_item) {
+      waypointGenerator_.trigger_reset_ = true;
+    }
     waypointGenerator_.goal_ = avoidance::toEigen(msg.point_1.position);
     waypointGenerator_.velocity_setpoint_ = avoidance::toEigen(msg.point_1.velocity);
     waypointGenerator_.is_land_waypoint_ = (msg.command[1] == static_cast<int>(MavCommand::MAV_CMD_NAV_LAND));
-- 
2.43.0


From ca6ed40533ca4e7657b7bb64e9cf900fbfc07059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 30/69] fix: turning between horizontal motions is never
 mistaken for vertical movement

---
 global_planner/src/library/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index 6f631f0..f8173e2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -65,7 +65,7 @@ double Node::getRotation(const Node& other) const {
 double Node::getXYRotation(const Node& other) const {
   Cell this_diff = (cell_ - parent_);
   Cell other_diff = (other.cell_ - other.parent_);
-  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && this_diff.yIndex() == 0)) {
+  if ((this_diff.xIndex() == 0 && this_diff.yIndex() == 0) || (other_diff.xIndex() == 0 && other_diff.yIndex() == 0)) {
     return 0.0;  // Vertical movement
   }
   double this_ang = this_diff.angle();
-- 
2.43.0


From 027fd096b082cb812958cbe84e66567b5ea3f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 31/69] fix: neighbor in the yaw direction is an adjacent cell

---
 global_planner/src/library/cell.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index 80aeacb..416db21 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -57,9 +57,9 @@ double Cell::angle() const { return atan2(yIndex(), xIndex()); }
 // Returns the neighboring cell in the yaw direction
 // E.g. if yaw == PI/4, then it returns Cell(x+1, y+1, z)
 Cell Cell::getNeighborFromYaw(double yaw) const {
-  int dx = 2 * CELL_SCALE * std::cos(yaw);
-  int dy = 2 * CELL_SCALE * std::sin(yaw);
-  return Cell(xPos() + dx, yPos() + dy, zPos());
+  int dx = std::round(std::cos(yaw));
+  int dy = std::round(std::sin(yaw));
+  return Cell(std::tuple<int, int, int>(xIndex() + dx, yIndex() + dy, zIndex()));
 }
 
 // Returns the neighbors of the Cell whose risk influences the Cell
-- 
2.43.0


From 119cb91df490e82220641abdcf577a30f3a709cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 32/69] fix: cells influencing the risk are near the cell for
 any radius

---
 global_planner/src/library/cell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index 416db21..bd521f3 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -67,7 +67,7 @@ std::vector<Cell> Cell::getFlowNeighbors(int radius) const {
   std::vector<Cell> cells;
   auto ceilDistance = [](int radius, int x, int y) {
     auto sqr = [](int i) { return double(i * i); };
-    return static_cast<int>(std::ceil(std::sqrt(sqr(radius) - sqr(x) - sqr(y))));
+    return static_cast<int>(std::ceil(std::sqrt(std::max(0.0, sqr(radius) - sqr(x) - sqr(y)))));
   };
   for (int x = -radius; x <= radius; x++) {
     int y_radius = ceilDistance(radius, x, 0);
-- 
2.43.0


From f61e19706ab6e762e402765459cb094f1a724da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 33/69] fix: risk is defined before the first map arrives

---
 global_planner/include/global_planner/global_planner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index eaf464c..78107c0 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -145,8 +145,8 @@ class GlobalPlanner {
   void setRobotRadius(double radius);
 
  private:
-  double robot_radius_;
-  double octree_resolution_;
+  double robot_radius_ = 0.5;
+  double octree_resolution_ = 1.0;
 };
 
 }  // namespace global_planner
-- 
2.43.0


From a30c5d99535ad176eb122f26d5cddc1a59fee599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 34/69] fix: map message which is no occupancy tree leaves the
 map unchanged

---
 global_planner/src/library/global_planner.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index d04f49f..29db9e2 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -67,11 +67,17 @@ void GlobalPlanner::setFrame(std::string frame_id) { frame_id_ = frame_id; }
 // Going through the octomap can take more than 50 ms for 100m x 100m explored
 // map
 void GlobalPlanner::updateFullOctomap(octomap::AbstractOcTree* tree) {
+  octomap::OcTree* octree = dynamic_cast<octomap::OcTree*>(tree);
+  if (!octree) {
+    ROS_WARN("Received a map which is not an OcTree, keep the old one");
+    delete tree;
+    return;
+  }
   risk_cache_.clear();
   if (octree_) {
     delete octree_;
   }
-  octree_ = dynamic_cast<octomap::OcTree*>(tree);
+  octree_ = octree;
   octree_resolution_ = octree_->getResolution();
 }
 
-- 
2.43.0


From 3b03e87394ff813700546dd668e48d30f31d0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 35/69] fix: height priors are not read outside of their table

---
 global_planner/include/global_planner/global_planner.h | 1 +
 global_planner/src/library/global_planner.cpp          | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index 78107c0..e64fd61 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -116,6 +116,7 @@ class GlobalPlanner {
   double getEdgeDist(const Cell& u, const Cell& v);
   double getSingleCellRisk(const Cell& cell);
   double getAltPrior(const Cell& cell);
+  double getAccumulatedAltPrior(const Cell& cell);
   bool isOccupied(const Cell& cell);
   bool isLegal(const Node& node);
   double getRisk(const Cell& cell);
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 29db9e2..4c2251e 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -169,7 +169,7 @@ double GlobalPlanner::getSingleCellRisk(const Cell& cell) {
 double GlobalPlanner::getAltPrior(const Cell& cell) {
   int index = std::round(cell.zPos());
 
-  if (index > alt_prior_.size() - 1) {
+  if (index > static_cast<int>(alt_prior_.size()) - 1) {
     return alt_prior_.back();
   } else if (index < 0) {
     return alt_prior_.front();
@@ -178,6 +178,11 @@ double GlobalPlanner::getAltPrior(const Cell& cell) {
   }
 }
 
+double GlobalPlanner::getAccumulatedAltPrior(const Cell& cell) {
+  int index = std::min(std::max(cell.zIndex(), 0), static_cast<int>(accumulated_alt_prior_.size()) - 1);
+  return accumulated_alt_prior_[index];
+}
+
 bool GlobalPlanner::isOccupied(const Cell& cell) { return getSingleCellRisk(cell) > 0.5; }
 
 bool GlobalPlanner::isLegal(const Node& node) {
@@ -262,7 +267,7 @@ double GlobalPlanner::riskHeuristic(const Cell& u, const Cell& goal) {
   double xy_dist = u.diagDistance2D(goal) - 1.0;  // XY distance excluding the goal cell
   double xy_risk = xy_dist * unexplored_risk * getAltPrior(u);
   double z_risk =
-      unexplored_risk * std::abs(accumulated_alt_prior_[u.zIndex()] - accumulated_alt_prior_[goal.zIndex()]);
+      unexplored_risk * std::abs(getAccumulatedAltPrior(u) - getAccumulatedAltPrior(goal));
   // TODO: instead of subtracting 1 from the xy_dist, subtract 1 from the
   // combined xy and z dist
   double goal_risk = getRisk(goal) * risk_factor_;
-- 
2.43.0


From b94fb60a239a75d797b7fc75c875d1d092838176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 36/69] fix: clicking a point before the first map arrives does
 not crash

---
 global_planner/include/global_planner/analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/analysis.h b/global_planner/include/global_planner/analysis.h
index 9ce202b..5fd8ce3 100644
--- a/global_planner/include/global_planner/analysis.h
+++ b/global_planner/include/global_planner/analysis.h
@@ -116,7 +116,7 @@ void printPointStats(GlobalPlanner* global_planner, double x, double y, double z
   double heuristics = global_planner->getHeuristic(Node(cell, cell), global_planner->goal_pos_);
   ROS_INFO("Heuristics: %2.2f", heuristics);
 
-  octomap::OcTreeNode* node = global_planner->octree_->search(x, y, z);
+  octomap::OcTreeNode* node = global_planner->octree_ ? global_planner->octree_->search(x, y, z) : nullptr;
   if (node) {
     double prob = octomap::probability(node->getValue());
     double post_prob = posterior(global_planner->getAltPrior(cell), prob);
-- 
2.43.0


From 57716538faeb93aafee7ffc8b17faee815d9f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 37/69] fix: current yaw is ignored by the search when told so

---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 4c2251e..04aa0b5 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -431,7 +431,7 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // behind the start cell Cell parent_of_s = Cell(curr_pos_);
   Cell parent_of_s(subtractPoints(curr_pos_, scalePoint(curr_vel_, search_time_)));
   if (!use_current_yaw_) {
-    Cell parent_of_s = s;  // Ignore the current yaw
+    parent_of_s = s;  // Ignore the current yaw
   }
 
   ROS_INFO("Planning a path from %s to %s", s.asString().c_str(), t.asString().c_str());
-- 
2.43.0


From 389b93164eadc8a55c1f2e430d3f726f7c555939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 38/69] fix: last resort search leaves the configured number of
 iterations unchanged

---
 global_planner/src/library/global_planner.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 04aa0b5..38848ad 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -483,8 +483,10 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
   // Last resort, try 2d search at max_altitude_
   if (!found_path) {
     printf("No path found, search in 2D \n");
+    const int max_iterations = max_iterations_;
     max_iterations_ = 5000;
     found_path = find2DPath(this, path, s, t, parent_of_s, max_altitude_);
+    max_iterations_ = max_iterations;
   }
 
   return found_path;
-- 
2.43.0


From 23a1b93443aaf74c7f8418846f79c752a8b6d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 39/69] fix: last resort path keeps below the maximum altitude
 and clear of obstacles

---
 .../include/global_planner/search_tools.h     | 23 +++++++++++--------
 global_planner/src/library/global_planner.cpp |  4 ++--
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/global_planner/include/global_planner/search_tools.h b/global_planner/include/global_planner/search_tools.h
index 65ac372..eff6951 100644
--- a/global_planner/include/global_planner/search_tools.h
+++ b/global_planner/include/global_planner/search_tools.h
@@ -200,14 +200,20 @@ inline SearchInfo findSmoothPath(GlobalPlanner* global_planner, std::vector<Cell
   return SearchInfo(true, num_iter, total_time);
 }
 
-// Searches for a path from s to t at max_altitude_, fills path if it finds one
+// Searches for a path from s to t just below max_altitude_, fills path if it finds one
 template <typename GlobalPlanner>
 bool find2DPath(GlobalPlanner* global_planner, std::vector<Cell>& path, const Cell& s, const Cell& t,
                 const Cell& start_parent, double alt) {
   std::vector<Cell> up_path;
-  Cell above_s(Cell(s.xIndex(), s.yIndex(), alt));
-  Cell above_t(Cell(t.xIndex(), t.yIndex(), alt));
-  bool found_up_path = findPathOld(global_planner, up_path, s, above_s, s, true);
+  // The highest cell whose center is below alt
+  int alt_index = static_cast<int>(std::ceil(alt / CELL_SCALE - 0.5)) - 1;
+  Cell above_s(std::tuple<int, int, int>(s.xIndex(), s.yIndex(), alt_index));
+  Cell above_t(std::tuple<int, int, int>(t.xIndex(), t.yIndex(), alt_index));
+  if ((above_s != s && global_planner->getRisk(above_s) > global_planner->max_cell_risk_) ||
+      (above_t != t && global_planner->getRisk(above_t) > global_planner->max_cell_risk_)) {
+    return false;
+  }
+  bool found_up_path = findPathOld(global_planner, up_path, s, above_s, start_parent, true);
   std::vector<Cell> down_path;
   bool found_down_path = findPathOld(global_planner, down_path, above_t, t, above_t, true);
   std::vector<Cell> vert_path;
@@ -215,12 +221,9 @@ bool find2DPath(GlobalPlanner* global_planner, std::vector<Cell>& path, const Ce
 
   if (found_up_path && found_vert_path && found_down_path) {
     path = up_path;
-    for (const Cell& c : vert_path) {
-      path.push_back(c);
-    }
-    for (const Cell& c : down_path) {
-      path.push_back(c);
-    }
+    // The first two cells are the parent of the start and the start, which is the last cell of the previous part
+    path.insert(path.end(), vert_path.begin() + 2, vert_path.end());
+    path.insert(path.end(), down_path.begin() + 2, down_path.end());
     return true;
   }
   return false;
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 38848ad..1cf26ba 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -108,10 +108,10 @@ void GlobalPlanner::getOpenNeighbors(const Cell& cell, std::vector<CellDistanceP
   neighbors.push_back(std::make_pair(left, 1.0));
   neighbors.push_back(std::make_pair(righ, 1.0));
   // Vertical neighbors
-  if (is_3D && z < max_altitude_) {
+  if (is_3D && up.zPos() < max_altitude_) {
     neighbors.push_back(std::make_pair(up, up_cost_));
   }
-  if (is_3D && z > min_altitude_) {
+  if (is_3D && down.zPos() > min_altitude_) {
     neighbors.push_back(std::make_pair(down, down_cost_));
   }
 }
-- 
2.43.0


From 26f4b47772e0efdc3d612bb0be94ea09274842fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 40/69] fix: planned cells are not below the minimum altitude

---
 global_planner/src/library/global_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 1cf26ba..f17e92f 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -186,7 +186,7 @@ double GlobalPlanner::getAccumulatedAltPrior(const Cell& cell) {
 bool GlobalPlanner::isOccupied(const Cell& cell) { return getSingleCellRisk(cell) > 0.5; }
 
 bool GlobalPlanner::isLegal(const Node& node) {
-  return node.cell_.zPos() < max_altitude_ && getRisk(node) < max_cell_risk_;
+  return node.cell_.zPos() < max_altitude_ && node.cell_.zPos() > min_altitude_ && getRisk(node) < max_cell_risk_;
 }
 
 double GlobalPlanner::getRisk(const Cell& cell) {
-- 
2.43.0


From 716e67ac0dcef1ab79902852c305ccae244788ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 41/69] fix: path is simplified with the configured margin and
 number of iterations

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 877907b..a9f8cee 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -374,7 +374,7 @@ void GlobalPlannerNode::publishPath() {
   setCurrentPath(path_msg.poses);
   smooth_path_pub_.publish(smoothPath(path_msg));
 
-  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_iterations_, simplify_margin_);
+  auto simple_path = simplifyPath(&global_planner_, global_planner_.curr_path_, simplify_margin_, simplify_iterations_);
   auto simple_path_msg = global_planner_.getPathMsg(simple_path);
   global_temp_path_pub_.publish(simple_path_msg);
   setCurrentPath(simple_path_msg.poses);
-- 
2.43.0


From 2c364ebb9b9cc81e52d65971a044cbb6cb4a8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 42/69] fix: simplifying a path does not raise its risk for any
 cost of risk

---
 global_planner/include/global_planner/search_tools.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/search_tools.h b/global_planner/include/global_planner/search_tools.h
index eff6951..8b3d043 100644
--- a/global_planner/include/global_planner/search_tools.h
+++ b/global_planner/include/global_planner/search_tools.h
@@ -91,8 +91,9 @@ std::vector<Cell> simplifyPath(GlobalPlanner* global_planner, std::vector<Cell>&
       // w is the new edge instead of u and v
       double curr_cost = global_planner->getEdgeCost(parent, u) + global_planner->getEdgeCost(u, v);
       double new_cost = global_planner->getEdgeCost(parent, w);
-      if (new_cost > simplify_margin * curr_cost) {
-        // The cost of w is too high, can't simplify this part of the path
+      double curr_risk = global_planner->getRisk(u) + global_planner->getRisk(v);
+      if (new_cost > simplify_margin * curr_cost || global_planner->getRisk(w) > simplify_margin * curr_risk) {
+        // The cost or the risk of w is too high, can't simplify this part of the path
         simple_path.push_back(curr_path[i - 1]);
       }
       simple_path.push_back(curr_path[i]);
-- 
2.43.0


From 2d3e7922e2f543d52eb3e6e200a117a5e2089eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 43/69] fix: corners of a path of one point contain it once

---
 global_planner/include/global_planner/common_ros.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/common_ros.h b/global_planner/include/global_planner/common_ros.h
index b72d1ae..888a1af 100644
--- a/global_planner/include/global_planner/common_ros.h
+++ b/global_planner/include/global_planner/common_ros.h
@@ -107,7 +107,9 @@ inline std::vector<geometry_msgs::PoseStamped> filterPathCorners(const std::vect
       corners.push_back(msg[i]);
     }
   }
-  corners.push_back(msg.back());
+  if (n > 1) {
+    corners.push_back(msg.back());
+  }
   return corners;
 }
 
-- 
2.43.0


From 11ed222b63341e74781595f61c41c7b1a97f2804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 44/69] fix: setpoint does not overshoot the waypoint and is
 finite when there

---
 global_planner/src/nodes/global_planner_node.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index a9f8cee..495aa25 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -407,9 +407,11 @@ void GlobalPlannerNode::publishSetpoint() {
   }
 
   // If we are less than 1.0 away, then we should stop at the goal
-  double new_len = vec.length() < 1.0 ? vec.length() : speed_;
-  vec.normalize();
-  vec *= new_len;
+  double new_len = vec.length() < 1.0 ? vec.length() : std::min(vec.length(), speed_);
+  if (new_len > 0.0) {
+    vec.normalize();
+    vec *= new_len;
+  }
 
   auto setpoint = current_goal_;  // The intermediate position sent to Mavros
   setpoint.pose.position.x = last_pos_.pose.position.x + vec.getX();
-- 
2.43.0


From b86829d1e54edb5b9d635da516c6848df612f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 45/69] fix: risk based speedup follows its own setting

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 495aa25..80856c4 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -390,7 +390,7 @@ void GlobalPlannerNode::printPointInfo(double x, double y, double z) {
 void GlobalPlannerNode::publishSetpoint() {
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
-  if (global_planner_.use_speedup_heuristics_) {
+  if (global_planner_.use_risk_based_speedup_) {
     Cell cur_cell =
         global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
     double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-- 
2.43.0


From 44424c64b528d34cedeab435088ec1242b1ab32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 46/69] fix: goals of the flight controller which only change
 the altitude are taken

---
 global_planner/src/nodes/global_planner_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 80856c4..5a7b86e 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -255,7 +255,8 @@ void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped&
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
-                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001))) {
+                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001) ||
+                                     (std::fabs(global_planner_.goal_pos_.zPos() - new_goal.zPos()) > 0.001))) {
     setNewGoal(new_goal);
   }
 }
-- 
2.43.0


From 6cc012f214846447374d718a112fba0e4a1c0948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 47/69] fix: without a new path the old one is not started
 over, stopping holds the position

---
 .../include/global_planner/global_planner_node.h  |  2 +-
 global_planner/src/nodes/global_planner_node.cpp  | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner_node.h b/global_planner/include/global_planner/global_planner_node.h
index 3f3c1d4..00b1fbc 100644
--- a/global_planner/include/global_planner/global_planner_node.h
+++ b/global_planner/include/global_planner/global_planner_node.h
@@ -128,7 +128,7 @@ class GlobalPlannerNode {
   void receivePath(const nav_msgs::Path& msg);
   void setNewGoal(const GoalCell& goal);
   void popNextGoal();
-  void planPath();
+  bool planPath();
   void setIntermediateGoal();
   bool isCloseToGoal();
   void setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses);
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 5a7b86e..ba57c74 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -120,11 +120,12 @@ void GlobalPlannerNode::popNextGoal() {
     // Goal is blocked but there is no other goal in waypoints_, just stop
     ROS_INFO("  STOP  ");
     global_planner_.stop();
+    publishPath();
   }
 }
 
-// Plans a new path and publishes it
-void GlobalPlannerNode::planPath() {
+// Plans a new path, returns true iff one was found
+bool GlobalPlannerNode::planPath() {
   std::clock_t start_time = std::clock();
   if (global_planner_.octree_) {
     ROS_INFO("OctoMap memory usage: %2.3f MB", global_planner_.octree_->memoryUsage() / 1000000.0);
@@ -141,6 +142,7 @@ void GlobalPlannerNode::planPath() {
     setIntermediateGoal();
   }
   printf("Total time: %2.2f ms \n", (std::clock() - start_time) / (double)(CLOCKS_PER_SEC / 1000));
+  return found_path;
 }
 
 // Sets a temporary goal on the path to the current goal
@@ -310,6 +312,9 @@ void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStam
 
   if (poses.size() < 2) {
     ROS_INFO("  Received empty path\n");
+    if (poses.size() == 1) {
+      current_goal_ = poses[0];  // Stay there
+    }
     return;
   }
   last_goal_ = poses[0];
@@ -340,7 +345,7 @@ void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
     popNextGoal();
   }
 
-  planPath();
+  bool found_path = planPath();
 
   // Print and publish info
   if (is_in_goal && !waypoints_.empty()) {
@@ -350,7 +355,9 @@ void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
              pathEnergy(actual_path_, global_planner_.up_cost_));
   }
 
-  publishPath();
+  if (found_path) {
+    publishPath();
+  }
 }
 
 // Publish the position of goal
-- 
2.43.0


From dc7c58032fc37fa9db01a7338f036af27ef660b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 48/69] fix: default camera frame is used when none is
 configured

---
 global_planner/src/nodes/global_planner_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index ba57c74..fa16b16 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -81,7 +81,8 @@ void GlobalPlannerNode::readParams() {
   nh_.param<std::string>("frame_id", frame_id_, "local_origin");
   nh_.getParam("pointcloud_topics", camera_topics);
   if (!nh_.hasParam("camera_frame_id")) {
-    nh_.setParam("camera_frame_id", "camera_link");
+    camera_frame_id_ = "camera_link";
+    nh_.setParam("camera_frame_id", camera_frame_id_);
   } else {
     nh_.getParam("camera_frame_id", camera_frame_id_);
   }
-- 
2.43.0


From 6f519b515d36524a55e850faa7fb976a2f435131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 49/69] fix: settings of the search nodes take effect at
 startup and together with others

---
 global_planner/include/global_planner/node.h     | 2 +-
 global_planner/src/library/node.cpp              | 2 ++
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/global_planner/include/global_planner/node.h b/global_planner/include/global_planner/node.h
index 49c134f..31205e4 100644
--- a/global_planner/include/global_planner/node.h
+++ b/global_planner/include/global_planner/node.h
@@ -67,7 +67,7 @@ class NodeWithoutSmooth : public Node {
   double getRotation(const Node& other) const { return 0.0; }
 };
 
-static double SPEEDNODE_RADIUS = 5.0;
+extern double SPEEDNODE_RADIUS;
 // Node represents 3D position, orientation and speed
 // TODO: Needs to check the risk of Cells between cell and parent
 class SpeedNode : public Node {
diff --git a/global_planner/src/library/node.cpp b/global_planner/src/library/node.cpp
index f8173e2..dafcaf2 100644
--- a/global_planner/src/library/node.cpp
+++ b/global_planner/src/library/node.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double SPEEDNODE_RADIUS = 5.0;
+
 bool Node::isSmaller(const Node& other) const {
   return cell_ < other.cell_ || (cell_ == other.cell_ && parent_ < other.parent_);
 }
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index fa16b16..8db6018 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -194,7 +194,7 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   }
 
   // node
-  if (level == 4) {
+  if (level & 4) {
     SPEEDNODE_RADIUS = config.SPEEDNODE_RADIUS;
     global_planner_.default_node_type_ = config.default_node_type_;
   }
-- 
2.43.0


From 8e23d9afba477ee5a994c567311a30ebd00305ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 50/69] fix: configured cell size takes effect in the whole
 planner

---
 global_planner/include/global_planner/cell.h       |  2 +-
 .../include/global_planner/global_planner.h        |  1 +
 global_planner/src/library/cell.cpp                |  2 ++
 global_planner/src/library/global_planner.cpp      | 14 ++++++++++++++
 global_planner/src/nodes/global_planner_node.cpp   | 12 ++++++++++--
 5 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/global_planner/include/global_planner/cell.h b/global_planner/include/global_planner/cell.h
index 5eb30d3..8493e5f 100644
--- a/global_planner/include/global_planner/cell.h
+++ b/global_planner/include/global_planner/cell.h
@@ -11,7 +11,7 @@
 
 namespace global_planner {
 
-static double CELL_SCALE = 1.0;
+extern double CELL_SCALE;
 
 class Cell {
  public:
diff --git a/global_planner/include/global_planner/global_planner.h b/global_planner/include/global_planner/global_planner.h
index e64fd61..b3635e4 100644
--- a/global_planner/include/global_planner/global_planner.h
+++ b/global_planner/include/global_planner/global_planner.h
@@ -144,6 +144,7 @@ class GlobalPlanner {
   void goBack();
   void stop();
   void setRobotRadius(double radius);
+  void setCellScale(double scale);
 
  private:
   double robot_radius_ = 0.5;
diff --git a/global_planner/src/library/cell.cpp b/global_planner/src/library/cell.cpp
index bd521f3..1d59faf 100644
--- a/global_planner/src/library/cell.cpp
+++ b/global_planner/src/library/cell.cpp
@@ -2,6 +2,8 @@
 
 namespace global_planner {
 
+double CELL_SCALE = 1.0;
+
 Cell::Cell() = default;
 Cell::Cell(std::tuple<int, int, int> new_tuple) : tpl_(new_tuple) {}
 Cell::Cell(double x, double y, double z) : tpl_(floor(x / CELL_SCALE), floor(y / CELL_SCALE), floor(z / CELL_SCALE)) {}
diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index f17e92f..73027d6 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -549,6 +549,20 @@ void GlobalPlanner::stop() {
   setPath({curr_pos_});
 }
 
+// Changes the size of the cells, everything stored for the old cells is dropped and the goal keeps its position
+void GlobalPlanner::setCellScale(double scale) {
+  geometry_msgs::Point goal = goal_pos_.toPoint();
+  CELL_SCALE = scale;
+  goal_pos_ = GoalCell(Cell(goal), goal_pos_.radius_, goal_pos_.is_temporary_);
+  risk_cache_.clear();
+  bubble_risk_cache_.clear();
+  heuristic_cache_.clear();
+  occupied_.clear();
+  path_cells_.clear();
+  path_back_.clear();
+  curr_path_.clear();
+}
+
 void GlobalPlanner::setRobotRadius(double radius) { robot_radius_ = radius; }
 
 }  // namespace global_planner
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 8db6018..6198ecc 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -189,8 +189,16 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   simplify_margin_ = config.simplify_margin_;
 
   // cell
-  if (level == 2) {
-    CELL_SCALE = config.CELL_SCALE;
+  if ((level & 2) && config.CELL_SCALE != CELL_SCALE) {
+    // The waypoints keep their position
+    std::vector<geometry_msgs::Point> waypoint_pos;
+    for (const GoalCell& waypoint : waypoints_) {
+      waypoint_pos.push_back(waypoint.toPoint());
+    }
+    global_planner_.setCellScale(config.CELL_SCALE);
+    for (int i = 0; i < waypoints_.size(); ++i) {
+      waypoints_[i] = GoalCell(Cell(waypoint_pos[i]), waypoints_[i].radius_, waypoints_[i].is_temporary_);
+    }
   }
 
   // node
-- 
2.43.0


From 23940e4abf20b02e9afc9ee1b4f8a7c2948d09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 51/69] fix: changed risk parameters apply to cells whose risk
 is already known

---
 global_planner/src/nodes/global_planner_node.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 6198ecc..26c9869 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -181,6 +181,7 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
   global_planner_.use_risk_heuristics_ = config.use_risk_heuristics_;
   global_planner_.use_speedup_heuristics_ = config.use_speedup_heuristics_;
   global_planner_.use_risk_based_speedup_ = config.use_risk_based_speedup_;
+  global_planner_.risk_cache_.clear();  // The risk depends on the parameters
 
   // global_planner_node
   clicked_goal_alt_ = config.clicked_goal_alt_;
-- 
2.43.0


From 853eacff0b9b7175869b00d8b150e0389c7e2fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 52/69] fix: hash of cells with negative indices is well
 defined

---
 global_planner/include/global_planner/cell.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global_planner/include/global_planner/cell.h b/global_planner/include/global_planner/cell.h
index 8493e5f..9b62bf1 100644
--- a/global_planner/include/global_planner/cell.h
+++ b/global_planner/include/global_planner/cell.h
@@ -102,7 +102,8 @@ namespace std {
 template <>
 struct hash<global_planner::Cell> {
   std::size_t operator()(const global_planner::Cell& cell) const {
-    return (std::get<0>(cell.tpl_) << 20) ^ (std::get<1>(cell.tpl_) << 10) ^ std::get<2>(cell.tpl_);
+    return (static_cast<std::size_t>(std::get<0>(cell.tpl_)) << 20) ^
+           (static_cast<std::size_t>(std::get<1>(cell.tpl_)) << 10) ^ std::get<2>(cell.tpl_);
     // return (std::get<0>(cell.tpl_) * 18397) + (std::get<1>(cell.tpl_) *
     // 20483) + (std::get<2>(cell.tpl_) * 29303);
   }
-- 
2.43.0


From b68a87934ad78131c836178647e213a05c21da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 53/69] fix: planning terminates also for a minimum
 overestimate factor of one

---
 global_planner/src/library/global_planner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global_planner/src/library/global_planner.cpp b/global_planner/src/library/global_planner.cpp
index 73027d6..5db6dd1 100644
--- a/global_planner/src/library/global_planner.cpp
+++ b/global_planner/src/library/global_planner.cpp
@@ -477,6 +477,9 @@ bool GlobalPlanner::findPath(std::vector<Cell>& path) {
     }
     last_iter = search_info.num_iter;
     iter_left -= last_iter;
+    if (overestimate_factor_ <= 1.0) {
+      break;  // The search can not get more accurate
+    }
     overestimate_factor_ = (overestimate_factor_ - 1.0) / 4.0 + 1.0;
   }
 
-- 
2.43.0


From ebaeed6613a3560b27d3d73ae3908fedcea38e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 54/69] fix: no paths and setpoints before the position is
 known

---
 global_planner/src/nodes/global_planner_node.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 26c9869..e6cbb14 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -9,7 +9,8 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
       cmdloop_dt_(0.1),
       plannerloop_dt_(1.0),
       mapupdate_dt_(0.2),
-      start_yaw_(0.0) {
+      start_yaw_(0.0),
+      position_received_(false) {
   // Set up Dynamic Reconfigure Server
   dynamic_reconfigure::Server<global_planner::GlobalPlannerNodeConfig>::CallbackType f;
   f = boost::bind(&GlobalPlannerNode::dynamicReconfigureCallback, this, _1, _2);
@@ -345,11 +346,16 @@ void GlobalPlannerNode::cmdLoopCallback(const ros::TimerEvent& event) {
   ros::Duration since_start = now - start_time_;
 
   avoidance_node_.checkFailsafe(since_last_cloud, since_start, hover_);
-  publishSetpoint();
+  if (position_received_) {
+    publishSetpoint();
+  }
 }
 
 void GlobalPlannerNode::plannerLoopCallback(const ros::TimerEvent& event) {
   std::lock_guard<std::mutex> lock(mutex_);
+  if (!position_received_) {
+    return;  // A plan needs to know where the vehicle is
+  }
   bool is_in_goal = global_planner_.goal_pos_.withinPositionRadius(global_planner_.curr_pos_);
   if (is_in_goal || global_planner_.goal_is_blocked_) {
     popNextGoal();
-- 
2.43.0


From 590fd3ed36962e77928b76a4759cb93822327cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 55/69] fix: obstacle points which are not finite are ignored

---
 global_planner/src/nodes/global_planner_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index e6cbb14..5468800 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -305,7 +305,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 
     // Store the obstacle points
     for (const auto& p : cloud) {
-      if (!std::isnan(p.x)) {
+      if (std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z)) {
         // TODO: Not all points end up here
         Cell occupied_cell(p.x, p.y, p.z);
         global_planner_.occupied_.insert(occupied_cell);
-- 
2.43.0


From 54c390244fe7117e04a59a4d74dd2ec616a21673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 56/69] fix: a new goal replaces also the one put aside for an
 intermediate goal

---
 global_planner/src/nodes/global_planner_node.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index 5468800..c13198c 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -262,14 +262,18 @@ void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped&
 }
 
 void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped& msg) {
+  waypoints_.clear();  // Replaces also a goal put aside for an intermediate one
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
-  if (msg.point_valid[1] == true && ((std::fabs(global_planner_.goal_pos_.xPos() - new_goal.xPos()) > 0.001) ||
-                                     (std::fabs(global_planner_.goal_pos_.yPos() - new_goal.yPos()) > 0.001) ||
-                                     (std::fabs(global_planner_.goal_pos_.zPos() - new_goal.zPos()) > 0.001))) {
+  // While an intermediate goal is followed the goal itself is the last of the waypoints
+  const GoalCell goal = waypoints_.empty() ? global_planner_.goal_pos_ : waypoints_.back();
+  if (msg.point_valid[1] == true && ((std::fabs(goal.xPos() - new_goal.xPos()) > 0.001) ||
+                                     (std::fabs(goal.yPos() - new_goal.yPos()) > 0.001) ||
+                                     (std::fabs(goal.zPos() - new_goal.zPos()) > 0.001))) {
+    waypoints_.clear();  // Replaces also a goal put aside for an intermediate one
     setNewGoal(new_goal);
   }
 }
-- 
2.43.0


From 60f153b9381285e089ab4189ffbe79d742e5091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:42 +0000
Subject: [PATCH 57/69] fix: comments in transition tables are not part of the
 diagram

---
 tools/generate_flow_diagram.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/generate_flow_diagram.py b/tools/generate_flow_diagram.py
index 6340266..80b7cf3 100755
--- a/tools/generate_flow_diagram.py
+++ b/tools/generate_flow_diagram.py
@@ -1,5 +1,6 @@
 #!/usr/bin/python
 
+import re
 import sys
 
 NORMAL = "normal"
@@ -49,7 +50,12 @@ def extract_all_wrapped(table_string, key):
     return states_strings
 
 
+def remove_comments(cpp_string):
+    return re.sub(r"//[^\n]*|/\*.*?\*/", " ", cpp_string, flags=re.DOTALL)
+
+
 def extract_transitions(file_string):
+    file_string = remove_comments(file_string)
     table_string = extract_first_wrapped(file_string, "USM_TABLE")
     state_strings = extract_all_wrapped(table_string, "USM_STATE")
     error_state = table_string.split(",")[1].strip().split("::")[-1]
-- 
2.43.0


From 6749e1ec0c1d5777d7e7361fdcb138c87a437e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 58/69] fix: requests for FCU parameters do not hold up planner
 and callbacks

checkPx4Parameters held the parameter mutex during all of its blocking service
calls, so that the planner (getPX4Parameters) and the parameter callback had to
wait for the FCU. The status and the mission speed are shared between threads
without synchronisation; make them atomic.
---
 avoidance/include/avoidance/avoidance_node.h |  5 ++-
 avoidance/src/avoidance_node.cpp             | 39 ++++++++++++--------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/avoidance/include/avoidance/avoidance_node.h b/avoidance/include/avoidance/avoidance_node.h
index 04d304e..d240c77 100644
--- a/avoidance/include/avoidance/avoidance_node.h
+++ b/avoidance/include/avoidance/avoidance_node.h
@@ -68,10 +68,11 @@ class AvoidanceNode {
   std::unique_ptr<ros::AsyncSpinner> cmdloop_spinner_;
   std::unique_ptr<ros::AsyncSpinner> statusloop_spinner_;
 
-  MAV_STATE companion_state_ = MAV_STATE::MAV_STATE_STANDBY;
+  std::atomic<MAV_STATE> companion_state_{MAV_STATE::MAV_STATE_STANDBY};
 
   ModelParameters px4_;  // PX4 Firmware paramters
   std::unique_ptr<std::mutex> param_cb_mutex_;
+  unsigned int param_updates_ = 0;  // number of parameters received from the FCU
 
   std::thread worker_;
   std::mutex worker_mutex_;
@@ -85,7 +86,7 @@ class AvoidanceNode {
   bool position_received_;
   std::atomic<bool> should_exit_;
 
-  float mission_item_speed_;
+  std::atomic<float> mission_item_speed_;
 
   void cmdLoopCallback(const ros::TimerEvent& event);
   void statusLoopCallback(const ros::TimerEvent& event);
diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index bd4513e..df92418 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -61,7 +61,7 @@ void AvoidanceNode::publishSystemStatus() {
   mavros_msgs::CompanionProcessStatus status_msg;
   status_msg.header.stamp = ros::Time::now();
   status_msg.component = 196;  // MAV_COMPONENT_ID_AVOIDANCE
-  status_msg.state = (int)companion_state_;
+  status_msg.state = static_cast<int>(companion_state_.load());
 
   mavros_system_status_pub_.publish(status_msg);
 }
@@ -113,6 +113,7 @@ void AvoidanceNode::px4ParamsCallback(const mavros_msgs::Param& msg) {
 
   // clang-format off
   std::lock_guard<std::mutex> lck(*(param_cb_mutex_));
+  bool known =
   parse_param_f("MPC_ACC_DOWN_MAX", px4_.param_mpc_acc_down_max) ||
   parse_param_f("MPC_ACC_HOR", px4_.param_mpc_acc_hor) ||
   parse_param_f("MPC_ACC_UP_MAX", px4_.param_mpc_acc_up_max) ||
@@ -128,33 +129,41 @@ void AvoidanceNode::px4ParamsCallback(const mavros_msgs::Param& msg) {
   parse_param_f("NAV_ACC_RAD", px4_.param_nav_acc_rad) ||
   parse_param_f("MPC_YAWRAUTO_MAX", px4_.param_mpc_yawrauto_max);
   // clang-format on
+  if (known) param_updates_++;
 }
 
 void AvoidanceNode::checkPx4Parameters() {
   auto& client = get_px4_param_client_;
-  auto request_param = [&client](const std::string& name, float& val) {
+  // the parameters are not locked during the request: it can take long and the planner needs them
+  auto request_param = [this, &client](const std::string& name, float& val) {
     mavros_msgs::ParamGet req;
     req.request.param_id = name;
+    unsigned int updates;
+    {
+      std::lock_guard<std::mutex> lck(*(param_cb_mutex_));
+      updates = param_updates_;
+    }
     if (client.call(req) && req.response.success) {
-      val = req.response.value.real;
+      std::lock_guard<std::mutex> lck(*(param_cb_mutex_));
+      // what the FCU sent in the meantime is newer than the response
+      if (updates == param_updates_) val = req.response.value.real;
     }
   };
   while (!should_exit_) {
     bool is_param_not_initialized = true;
+    request_param("MPC_ACC_HOR", px4_.param_mpc_acc_hor);
+    request_param("MPC_ACC_DOWN_MAX", px4_.param_mpc_acc_down_max);
+    request_param("MPC_ACC_UP_MAX", px4_.param_mpc_acc_up_max);
+    request_param("MPC_XY_CRUISE", px4_.param_mpc_xy_cruise);
+    request_param("MPC_Z_VEL_MAX_DN", px4_.param_mpc_z_vel_max_dn);
+    request_param("MPC_Z_VEL_MAX_UP", px4_.param_mpc_z_vel_max_up);
+    request_param("CP_DIST", px4_.param_cp_dist);
+    request_param("MPC_LAND_SPEED", px4_.param_mpc_land_speed);
+    request_param("MPC_JERK_MAX", px4_.param_mpc_jerk_max);
+    request_param("NAV_ACC_RAD", px4_.param_nav_acc_rad);
+    request_param("MPC_YAWRAUTO_MAX", px4_.param_mpc_yawrauto_max);
     {
       std::lock_guard<std::mutex> lck(*(param_cb_mutex_));
-      request_param("MPC_ACC_HOR", px4_.param_mpc_acc_hor);
-      request_param("MPC_ACC_DOWN_MAX", px4_.param_mpc_acc_down_max);
-      request_param("MPC_ACC_UP_MAX", px4_.param_mpc_acc_up_max);
-      request_param("MPC_XY_CRUISE", px4_.param_mpc_xy_cruise);
-      request_param("MPC_Z_VEL_MAX_DN", px4_.param_mpc_z_vel_max_dn);
-      request_param("MPC_Z_VEL_MAX_UP", px4_.param_mpc_z_vel_max_up);
-      request_param("CP_DIST", px4_.param_cp_dist);
-      request_param("MPC_LAND_SPEED", px4_.param_mpc_land_speed);
-      request_param("MPC_JERK_MAX", px4_.param_mpc_jerk_max);
-      request_param("NAV_ACC_RAD", px4_.param_nav_acc_rad);
-      request_param("MPC_YAWRAUTO_MAX", px4_.param_mpc_yawrauto_max);
-
       is_param_not_initialized =
           !std::isfinite(px4_.param_mpc_xy_cruise) || !std::isfinite(px4_.param_cp_dist) ||
           !std::isfinite(px4_.param_mpc_land_speed) || !std::isfinite(px4_.param_nav_acc_rad) ||
-- 
2.43.0


From 87e7493c491dd7cdb410135f0f2e8ce42ac6d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 59/69] fix: local planner threads do not sleep on work or on
 the request to stop

The threads checked for work (or for the request to stop) and waited afterwards
without a condition: a notification in between was lost, and the thread slept on
for up to 5 s. The camera threads locked camera_mutex_ before
transformed_cloud_mutex_; release it first so that the planner may check under
transformed_cloud_mutex_. The command loop runs on while the members it uses are
destroyed, and never ends without a position: end it first.
---
 .../src/nodes/local_planner_nodelet.cpp       | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index de30f27..ee19f1f 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -19,6 +19,9 @@ LocalPlannerNodelet::LocalPlannerNodelet() : tf_buffer_(5.f), spin_dt_(0.1) {}
 
 LocalPlannerNodelet::~LocalPlannerNodelet() {
   should_exit_ = true;
+  // the command loop uses almost all members, it has to end first
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+
   {
     std::lock_guard<std::mutex> guard(buffered_transforms_mutex_);
     tf_buffer_cv_.notify_all();
@@ -237,7 +240,7 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
   // Process callbacks & wait for a position update
   ros::Time start_query_position = ros::Time::now();
 
-  while (!position_received_ && ros::ok()) {
+  while (!position_received_ && ros::ok() && !should_exit_) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
     if (since_query > ros::Duration(local_planner_->timeout_termination_)) {
@@ -259,6 +262,8 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
     }
   }
 
+  if (should_exit_) return;
+
   // Check if all information was received
   ros::Time now = ros::Time::now();
   ros::Duration since_last_cloud = now - last_wp_time_;
@@ -460,9 +465,11 @@ void LocalPlannerNodelet::threadFunction() {
   while (!should_exit_) {
     ros::Time start_time = ros::Time::now();
 
-    while ((cameras_.size() == 0 || cameras_.size() != numTransformedClouds()) && !should_exit_) {
+    {
       std::unique_lock<std::mutex> lock(transformed_cloud_mutex_);
-      transformed_cloud_cv_.wait_for(lock, std::chrono::milliseconds(5000));
+      transformed_cloud_cv_.wait(lock, [this]() {
+        return (cameras_.size() != 0 && cameras_.size() == numTransformedClouds()) || should_exit_;
+      });
     }
 
     if (should_exit_) break;
@@ -499,6 +506,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
   while (!should_exit_) {
     bool waiting_on_transform = false;
     bool waiting_on_cloud = false;
+    bool cloud_transformed = false;
     {
       std::lock_guard<std::mutex> camera_lock(*(cameras_[index].camera_mutex_));
 
@@ -528,8 +536,7 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
           cameras_[index].transformed_ = true;
           cameras_[index].received_ = false;
           waiting_on_cloud = true;
-          std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
-          transformed_cloud_cv_.notify_all();
+          cloud_transformed = true;
         } else {
           waiting_on_transform = true;
         }
@@ -538,16 +545,23 @@ void LocalPlannerNodelet::pointCloudTransformThread(int index) {
       }
     }
 
+    // not while holding the camera mutex, the planner locks the other way around
+    if (cloud_transformed) {
+      std::lock_guard<std::mutex> lock(transformed_cloud_mutex_);
+      transformed_cloud_cv_.notify_all();
+    }
+
     if (should_exit_) {
       break;
     }
 
     if (waiting_on_transform) {
       std::unique_lock<std::mutex> lck(buffered_transforms_mutex_);
-      tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
+      if (!should_exit_) tf_buffer_cv_.wait_for(lck, std::chrono::milliseconds(5000));
     } else if (waiting_on_cloud) {
       std::unique_lock<std::mutex> lck(*(cameras_[index].camera_mutex_));
-      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000));
+      cameras_[index].camera_cv_->wait_for(lck, std::chrono::milliseconds(5000),
+                                           [this, index]() { return cameras_[index].received_ || should_exit_; });
     }
   }
 }
-- 
2.43.0


From 30da037796d3e6cf7691530467f5a42a7e6c7990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 60/69] fix: guard the data which local planner callbacks,
 planner and command loop share

Position, goal, velocity, state and last waypoint are written by the callbacks and
the command loop while the planner thread reads them; the field of view and the
smoothing speed are written while the command loop uses them. waypoints_mutex_ is
not held any more while the command loop waits for a position.
---
 .../include/local_planner/local_planner.h     |  3 +-
 .../local_planner/local_planner_nodelet.h     |  7 +-
 .../src/nodes/local_planner_nodelet.cpp       | 97 +++++++++++++------
 3 files changed, 76 insertions(+), 31 deletions(-)

diff --git a/local_planner/include/local_planner/local_planner.h b/local_planner/include/local_planner/local_planner.h
index 99ae5e0..125a777 100644
--- a/local_planner/include/local_planner/local_planner.h
+++ b/local_planner/include/local_planner/local_planner.h
@@ -23,6 +23,7 @@
 #include <nav_msgs/Path.h>
 
 #include <ros/time.h>
+#include <atomic>
 #include <deque>
 #include <string>
 #include <vector>
@@ -94,7 +95,7 @@ class LocalPlanner {
 
   double timeout_startup_ = 20.0;
   double timeout_critical_ = 0.5;
-  double timeout_termination_ = 20.0;
+  std::atomic<double> timeout_termination_{20.0};  // also read by the command loop
   float speed_ = 1.0f;
   float mission_item_speed_ = NAN;
 
diff --git a/local_planner/include/local_planner/local_planner_nodelet.h b/local_planner/include/local_planner/local_planner_nodelet.h
index 4603acc..8e49878 100644
--- a/local_planner/include/local_planner/local_planner_nodelet.h
+++ b/local_planner/include/local_planner/local_planner_nodelet.h
@@ -103,7 +103,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   std::mutex running_mutex_;  ///< guard against concurrent access to input &
                               /// output data (point cloud, position, ...)
 
-  bool position_received_ = false;
+  std::atomic<bool> position_received_{false};
 
   /**
   * @brief     handles threads for data publication and subscription
@@ -212,6 +212,10 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   bool mission_item_received_ = false;
 
   std::mutex waypoints_mutex_;
+
+  /// guards what the callbacks receive and the command loop sends (position, goal, waypoints, ...); no other mutex is
+  /// locked while holding it
+  std::mutex state_mutex_;
   Eigen::Vector3f newest_waypoint_position_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f last_waypoint_position_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f newest_adapted_waypoint_position_ = Eigen::Vector3f::Zero();
@@ -224,6 +228,7 @@ class LocalPlannerNodelet : public nodelet::Nodelet {
   Eigen::Vector3f desired_velocity_ = Eigen::Vector3f(NAN, NAN, NAN);
   Eigen::Vector3f goal_position_ = Eigen::Vector3f::Zero();
   Eigen::Vector3f prev_goal_position_ = Eigen::Vector3f::Zero();
+  float planner_goal_z_ = 0.f;  ///< altitude of the goal the planner currently follows
 
   NavigationState nav_state_ = NavigationState::none;
 
diff --git a/local_planner/src/nodes/local_planner_nodelet.cpp b/local_planner/src/nodes/local_planner_nodelet.cpp
index ee19f1f..6b10c50 100644
--- a/local_planner/src/nodes/local_planner_nodelet.cpp
+++ b/local_planner/src/nodes/local_planner_nodelet.cpp
@@ -172,27 +172,31 @@ void LocalPlannerNodelet::updatePlannerInfo() {
       cameras_[i].transformed_cloud_.clear();
       cameras_[i].transformed_ = false;
       local_planner_->setFOV(i, cameras_[i].fov_fcu_frame_);
-      wp_generator_->setFOV(i, cameras_[i].fov_fcu_frame_);
     } catch (tf::TransformException& ex) {
       ROS_ERROR("Received an exception trying to transform a pointcloud: %s", ex.what());
     }
   }
 
-  // update pose
-  local_planner_->setState(newest_position_, velocity_, newest_orientation_);
+  {
+    std::lock_guard<std::mutex> guard(state_mutex_);
 
-  // update state
-  local_planner_->currently_armed_ = armed_;
+    // update pose
+    local_planner_->setState(newest_position_, velocity_, newest_orientation_);
 
-  // update goal
-  if (new_goal_) {
-    local_planner_->setGoal(goal_position_);
-    local_planner_->setPreviousGoal(prev_goal_position_);
-    new_goal_ = false;
-  }
+    // update state
+    local_planner_->currently_armed_ = armed_;
 
-  // update last sent waypoint
-  local_planner_->last_sent_waypoint_ = newest_waypoint_position_;
+    // update goal
+    if (new_goal_) {
+      local_planner_->setGoal(goal_position_);
+      local_planner_->setPreviousGoal(prev_goal_position_);
+      new_goal_ = false;
+    }
+    planner_goal_z_ = local_planner_->getGoal().z();
+
+    // update last sent waypoint
+    local_planner_->last_sent_waypoint_ = newest_waypoint_position_;
+  }
 
   // update the Firmware parameters
   local_planner_->px4_ = avoidance_node_->getPX4Parameters();
@@ -200,6 +204,7 @@ void LocalPlannerNodelet::updatePlannerInfo() {
 }
 
 void LocalPlannerNodelet::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> guard(state_mutex_);
   last_position_ = newest_position_;
   newest_position_ = toEigen(msg.pose.position);
   newest_orientation_ = toEigen(msg.pose.orientation);
@@ -208,10 +213,12 @@ void LocalPlannerNodelet::positionCallback(const geometry_msgs::PoseStamped& msg
 }
 
 void LocalPlannerNodelet::velocityCallback(const geometry_msgs::TwistStamped& msg) {
+  std::lock_guard<std::mutex> guard(state_mutex_);
   velocity_ = toEigen(msg.twist.linear);
 }
 
 void LocalPlannerNodelet::stateCallback(const mavros_msgs::State& msg) {
+  std::lock_guard<std::mutex> guard(state_mutex_);
   armed_ = msg.armed;
 
   if (msg.mode == "AUTO.MISSION") {
@@ -234,7 +241,6 @@ void LocalPlannerNodelet::stateCallback(const mavros_msgs::State& msg) {
 }
 
 void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
-  std::lock_guard<std::mutex> lock(waypoints_mutex_);
   hover_ = false;
 
   // Process callbacks & wait for a position update
@@ -264,6 +270,8 @@ void LocalPlannerNodelet::cmdLoopCallback(const ros::TimerEvent& event) {
 
   if (should_exit_) return;
 
+  std::lock_guard<std::mutex> lock(waypoints_mutex_);
+
   // Check if all information was received
   ros::Time now = ros::Time::now();
   ros::Duration since_last_cloud = now - last_wp_time_;
@@ -286,28 +294,37 @@ void LocalPlannerNodelet::setSystemStatus(MAV_STATE state) { avoidance_node_->se
 MAV_STATE LocalPlannerNodelet::getSystemStatus() { return avoidance_node_->getSystemStatus(); }
 
 void LocalPlannerNodelet::calculateWaypoints(bool hover) {
-  bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
-
-  wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
-                             hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
-                             desired_velocity_);
+  Eigen::Vector3f last_position, newest_position;
+  {
+    std::lock_guard<std::mutex> guard(state_mutex_);
+    bool is_airborne = armed_ && (nav_state_ != NavigationState::none);
+    last_position = last_position_;
+    newest_position = newest_position_;
+
+    wp_generator_->updateState(newest_position_, newest_orientation_, goal_position_, prev_goal_position_, velocity_,
+                               hover, is_airborne, nav_state_, is_land_waypoint_, is_takeoff_waypoint_,
+                               desired_velocity_);
+  }
   waypointResult result = wp_generator_->getWaypoints();
 
   Eigen::Vector3f closest_pt = Eigen::Vector3f(NAN, NAN, NAN);
   Eigen::Vector3f deg60_pt = Eigen::Vector3f(NAN, NAN, NAN);
   wp_generator_->getOfftrackPointsForVisualization(closest_pt, deg60_pt);
 
-  last_waypoint_position_ = newest_waypoint_position_;
-  newest_waypoint_position_ = result.smoothed_goto_position;
-  last_adapted_waypoint_position_ = newest_adapted_waypoint_position_;
-  newest_adapted_waypoint_position_ = result.adapted_goto_position;
+  {
+    std::lock_guard<std::mutex> guard(state_mutex_);
+    last_waypoint_position_ = newest_waypoint_position_;
+    newest_waypoint_position_ = result.smoothed_goto_position;
+    last_adapted_waypoint_position_ = newest_adapted_waypoint_position_;
+    newest_adapted_waypoint_position_ = result.adapted_goto_position;
+  }
 
   // visualize waypoint topics
   visualizer_.visualizeWaypoints(result.goto_position, result.adapted_goto_position, result.smoothed_goto_position);
-  visualizer_.publishPaths(last_position_, newest_position_, last_waypoint_position_, newest_waypoint_position_,
+  visualizer_.publishPaths(last_position, newest_position, last_waypoint_position_, newest_waypoint_position_,
                            last_adapted_waypoint_position_, newest_adapted_waypoint_position_);
   visualizer_.publishCurrentSetpoint(toTwist(result.linear_velocity_wp, result.angular_velocity_wp),
-                                     result.waypoint_type, newest_position_);
+                                     result.waypoint_type, newest_position);
 
   visualizer_.publishOfftrackPoints(closest_pt, deg60_pt);
 
@@ -325,15 +342,17 @@ void LocalPlannerNodelet::clickedPointCallback(const geometry_msgs::PointStamped
 }
 
 void LocalPlannerNodelet::clickedGoalCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> guard(state_mutex_);
   new_goal_ = true;
   prev_goal_position_ = goal_position_;
   goal_position_ = toEigen(msg.pose.position);
   /* Selecting the goal from Rviz sets x and y. Get the z coordinate set in
    * the launch file */
-  goal_position_.z() = local_planner_->getGoal().z();
+  goal_position_.z() = planner_goal_z_;
 }
 
 void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArray& msg) {
+  std::lock_guard<std::mutex> guard(state_mutex_);
   if (accept_goal_input_topic_ && msg.markers.size() > 0) {
     prev_goal_position_ = goal_position_;
     goal_position_ = toEigen(msg.markers[0].pose.position);
@@ -342,6 +361,7 @@ void LocalPlannerNodelet::updateGoalCallback(const visualization_msgs::MarkerArr
 }
 
 void LocalPlannerNodelet::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  std::lock_guard<std::mutex> guard(state_mutex_);
   bool update =
       !mission_item_received_ ||
       ((avoidance::toEigen(msg.point_2.position) - avoidance::toEigen(goal_mission_item_msg_.pose.position)).norm() >
@@ -399,7 +419,11 @@ void LocalPlannerNodelet::transformBufferThread() {
 }
 
 void LocalPlannerNodelet::printPointInfo(double x, double y, double z) {
-  Eigen::Vector3f drone_pos = local_planner_->getPosition();
+  Eigen::Vector3f drone_pos;
+  {
+    std::lock_guard<std::mutex> guard(state_mutex_);
+    drone_pos = newest_position_;
+  }
   int beta_z = floor((atan2(x - drone_pos.x(), y - drone_pos.y()) * 180.0 / M_PI));  //(-180. +180]
   int beta_e = floor((atan((z - drone_pos.z()) / (Eigen::Vector2f(x, y) - drone_pos.topRows<2>()).norm()) * 180.0 /
                       M_PI));  //(-90.+90)
@@ -444,6 +468,11 @@ void LocalPlannerNodelet::pointCloudCallback(const sensor_msgs::PointCloud2::Con
 void LocalPlannerNodelet::dynamicReconfigureCallback(avoidance::LocalPlannerNodeConfig& config, uint32_t level) {
   std::lock_guard<std::mutex> guard(running_mutex_);
   local_planner_->dynamicReconfigureSetParams(config, level);
+  {
+    std::lock_guard<std::mutex> state_guard(state_mutex_);
+    planner_goal_z_ = local_planner_->getGoal().z();
+  }
+  std::lock_guard<std::mutex> waypoints_guard(waypoints_mutex_);
   wp_generator_->setSmoothingSpeed(config.smoothing_speed_xy_, config.smoothing_speed_z_);
   rqt_param_config_ = config;
 }
@@ -479,11 +508,21 @@ void LocalPlannerNodelet::threadFunction() {
       updatePlannerInfo();
       local_planner_->runPlanner();
 
-      visualizer_.visualizePlannerData(*(local_planner_.get()), newest_waypoint_position_,
-                                       newest_adapted_waypoint_position_, newest_position_, newest_orientation_);
+      Eigen::Vector3f newest_waypoint_position, newest_adapted_waypoint_position, newest_position;
+      Eigen::Quaternionf newest_orientation;
+      {
+        std::lock_guard<std::mutex> state_guard(state_mutex_);
+        newest_waypoint_position = newest_waypoint_position_;
+        newest_adapted_waypoint_position = newest_adapted_waypoint_position_;
+        newest_position = newest_position_;
+        newest_orientation = newest_orientation_;
+      }
+      visualizer_.visualizePlannerData(*(local_planner_.get()), newest_waypoint_position,
+                                       newest_adapted_waypoint_position, newest_position, newest_orientation);
       publishLaserScan();
 
       std::lock_guard<std::mutex> lock(waypoints_mutex_);
+      for (size_t i = 0; i < cameras_.size(); ++i) wp_generator_->setFOV(i, local_planner_->getFOV()[i]);
       wp_generator_->setPlannerInfo(local_planner_->getAvoidanceOutput());
       last_wp_time_ = ros::Time::now();
     }
-- 
2.43.0


From 4baafa8a42055ddc62733acb8b01510b9d5e49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:57 +0000
Subject: [PATCH 61/69] fix: landing planner threads start with their locks,
 take each cloud once and end

---
 .../safe_landing_planner_node.hpp             |  5 +-
 .../src/nodes/safe_landing_planner_node.cpp   | 81 ++++++++++++-------
 .../nodes/safe_landing_planner_node_main.cpp  |  2 +-
 3 files changed, 54 insertions(+), 34 deletions(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
index 00b7fd0..7c82cba 100644
--- a/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/safe_landing_planner_node.hpp
@@ -29,7 +29,7 @@ namespace avoidance {
 class SafeLandingPlannerNode {
  public:
   SafeLandingPlannerNode(const ros::NodeHandle& nh);
-  ~SafeLandingPlannerNode() = default;
+  ~SafeLandingPlannerNode();
 
   std::unique_ptr<SafeLandingPlanner> safe_landing_planner_;
 
@@ -84,7 +84,8 @@ class SafeLandingPlannerNode {
   SafeLandingPlannerVisualization visualizer_;
 
   bool position_received_ = false;
-  bool cloud_transformed_ = false;
+  bool cloud_received_ = false;  ///< newest_cloud_msg_ waits to be transformed, guarded by cloud_msg_mutex_
+  std::atomic<bool> cloud_transformed_{false};
   double spin_dt_ = 0.1;
 
   dynamic_reconfigure::Server<safe_landing_planner::SafeLandingPlannerNodeConfig> server_;
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
index c60eeed..ed1f4bb 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node.cpp
@@ -37,6 +37,18 @@ SafeLandingPlannerNode::SafeLandingPlannerNode(const ros::NodeHandle &nh) : nh_(
   start_time_ = ros::Time::now();
 }
 
+SafeLandingPlannerNode::~SafeLandingPlannerNode() {
+  should_exit_ = true;
+  // the command loop uses almost all members, it has to end first
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+
+  if (cloud_ready_cv_) {
+    std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
+    cloud_ready_cv_->notify_all();
+  }
+  if (worker_.joinable()) worker_.join();
+}
+
 void SafeLandingPlannerNode::dynamicReconfigureCallback(safe_landing_planner::SafeLandingPlannerNodeConfig &config,
                                                         uint32_t level) {
   rqt_param_config_ = config;
@@ -53,6 +65,7 @@ void SafeLandingPlannerNode::pointCloudCallback(const sensor_msgs::PointCloud2 &
   {
     std::lock_guard<std::mutex> lck(*(cloud_msg_mutex_));
     newest_cloud_msg_ = msg;  // FIXME: avoid a copy
+    cloud_received_ = true;
   }
 
   cloud_ready_cv_->notify_one();
@@ -66,10 +79,10 @@ void SafeLandingPlannerNode::rawGridCallback(const safe_landing_planner::SLPGrid
 
 void SafeLandingPlannerNode::startNode() {
   // initialize thread
-  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
   cloud_msg_mutex_.reset(new std::mutex);
   transformed_cloud_mutex_.reset(new std::mutex);
   cloud_ready_cv_.reset(new std::condition_variable);
+  worker_ = std::thread(&SafeLandingPlannerNode::pointCloudTransformThread, this);
 
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&SafeLandingPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
@@ -82,7 +95,7 @@ void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
   status_msg_.state = static_cast<int>(avoidance::MAV_STATE::MAV_STATE_ACTIVE);
 
   ros::Time start_query_position = ros::Time::now();
-  while (!cloud_transformed_ && ros::ok()) {
+  while (!cloud_transformed_ && ros::ok() && !should_exit_) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
     ros::Duration since_query = ros::Time::now() - start_query_position;
     if (since_query > ros::Duration(safe_landing_planner_->timeout_termination_)) {
@@ -91,6 +104,9 @@ void SafeLandingPlannerNode::cmdLoopCallback(const ros::TimerEvent &event) {
     }
   }
 
+  // stopped while waiting, there is nothing new to plan on
+  if (!cloud_transformed_) return;
+
   // Check if all information was received
   ros::Time now = ros::Time::now();
   ros::Duration since_last_algo = now - last_algo_time_;
@@ -207,40 +223,43 @@ void SafeLandingPlannerNode::publishSerialGrid() {
 
 void SafeLandingPlannerNode::pointCloudTransformThread() {
   while (!should_exit_) {
-    {
-      std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
-      cloud_ready_cv_->wait(cloud_msg_lock);
-    }
-    while (cloud_transformed_ == false) {
-      if (should_exit_) break;
-
-      std::unique_ptr<std::lock_guard<std::mutex>> cloud_msg_lock(new std::lock_guard<std::mutex>(*(cloud_msg_mutex_)));
-      if (tf_listener_.canTransform("local_origin", newest_cloud_msg_.header.frame_id,
-                                    newest_cloud_msg_.header.stamp)) {
-        try {
-          pcl::PointCloud<pcl::PointXYZ> pcl_cloud;
-          // transform message to pcl type
-          pcl::fromROSMsg(newest_cloud_msg_, pcl_cloud);
-          cloud_msg_lock.reset();
-          // remove nan padding
-          std::vector<int> dummy_index;
-          dummy_index.reserve(pcl_cloud.points.size());
-          pcl::removeNaNFromPointCloud(pcl_cloud, pcl_cloud, dummy_index);
-
-          // transform cloud to local_origin frame
-          pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_);
-
+    std::unique_lock<std::mutex> cloud_msg_lock(*(cloud_msg_mutex_));
+    cloud_ready_cv_->wait(cloud_msg_lock, [this]() { return cloud_received_ || should_exit_; });
+    if (should_exit_) break;
+
+    bool transformed = false;
+    if (tf_listener_.canTransform("local_origin", newest_cloud_msg_.header.frame_id, newest_cloud_msg_.header.stamp)) {
+      try {
+        pcl::PointCloud<pcl::PointXYZ> pcl_cloud;
+        // transform message to pcl type
+        pcl::fromROSMsg(newest_cloud_msg_, pcl_cloud);
+        cloud_received_ = false;
+        cloud_msg_lock.unlock();
+        // remove nan padding
+        std::vector<int> dummy_index;
+        dummy_index.reserve(pcl_cloud.points.size());
+        pcl::removeNaNFromPointCloud(pcl_cloud, pcl_cloud, dummy_index);
+
+        // transform cloud to local_origin frame
+        transformed = pcl_ros::transformPointCloud("local_origin", pcl_cloud, pcl_cloud, tf_listener_);
+
+        if (transformed) {
           std::lock_guard<std::mutex> transformed_cloud_guard(*(transformed_cloud_mutex_));
-          cloud_transformed_ = true;
           safe_landing_planner_->cloud_ = std::move(pcl_cloud);
-        } catch (tf::TransformException &ex) {
-          ROS_ERROR("Received an exception trying to transform a pointcloud: %s", ex.what());
+          cloud_transformed_ = true;
         }
-      } else {
-        cloud_msg_lock.reset();
-        ros::Duration(0.001).sleep();
+      } catch (tf::TransformException &ex) {
+        ROS_ERROR("Received an exception trying to transform a pointcloud: %s", ex.what());
       }
     }
+
+    if (!transformed) {
+      // try again with this cloud or one received in the meantime
+      if (!cloud_msg_lock.owns_lock()) cloud_msg_lock.lock();
+      cloud_received_ = true;
+      cloud_msg_lock.unlock();
+      ros::Duration(0.001).sleep();
+    }
   }
 }
 }
diff --git a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
index 0e6de8c..67484bc 100644
--- a/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
+++ b/safe_landing_planner/src/nodes/safe_landing_planner_node_main.cpp
@@ -7,7 +7,7 @@ int main(int argc, char **argv) {
   SafeLandingPlannerNode NodeSLP(nh);
   NodeSLP.startNode();
 
-  NodeSLP.worker_.join();
+  ros::waitForShutdown();
 
   return 0;
 }
-- 
2.43.0


From e792d1076050ec5f38b8166e1bc275f00671cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:57 +0000
Subject: [PATCH 62/69] fix: landing setpoint node ends its command loop before
 its members

---
 .../safe_landing_planner/waypoint_generator_node.hpp      | 2 +-
 .../src/nodes/waypoint_generator_node.cpp                 | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
index 2d5a2c1..7adea5f 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
@@ -22,7 +22,7 @@ namespace avoidance {
 class WaypointGeneratorNode final {
  public:
   WaypointGeneratorNode(const ros::NodeHandle& nh);
-  ~WaypointGeneratorNode() = default;
+  ~WaypointGeneratorNode();
 
   /**
   * @brief spins node
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index ce633c9..300ff36 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -27,6 +27,11 @@ WaypointGeneratorNode::WaypointGeneratorNode(const ros::NodeHandle &nh) : nh_(nh
   };
 }
 
+WaypointGeneratorNode::~WaypointGeneratorNode() {
+  // the command loop uses almost all members, it has to end first
+  if (cmdloop_spinner_) cmdloop_spinner_->stop();
+}
+
 void WaypointGeneratorNode::startNode() {
   ros::TimerOptions timer_options(ros::Duration(spin_dt_),
                                   boost::bind(&WaypointGeneratorNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
@@ -40,6 +45,9 @@ void WaypointGeneratorNode::cmdLoopCallback(const ros::TimerEvent &event) {
     ros::getGlobalCallbackQueue()->callAvailable(ros::WallDuration(0.1));
   }
 
+  // stopped while waiting, there is no map to decide on
+  if (!grid_received_) return;
+
   waypointGenerator_.calculateWaypoint();
   landingAreaVisualization();
   goalVisualization();
-- 
2.43.0


From 9bd0ab8ae09ce83df3f16ca63164134ca6dd1f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:09 +0000
Subject: [PATCH 63/69] fix: guard the data which global planner callbacks,
 planner and command loop share

---
 .../global_planner/global_planner_node.h      |  3 +-
 .../src/nodes/global_planner_node.cpp         | 60 +++++++++++++------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/global_planner/include/global_planner/global_planner_node.h b/global_planner/include/global_planner/global_planner_node.h
index 00b1fbc..363b268 100644
--- a/global_planner/include/global_planner/global_planner_node.h
+++ b/global_planner/include/global_planner/global_planner_node.h
@@ -51,7 +51,8 @@ class GlobalPlannerNode {
   ~GlobalPlannerNode();
 
  private:
-  std::mutex mutex_;
+  std::mutex mutex_;        // guards the planner, the waypoints and the travelled path
+  std::mutex state_mutex_;  // guards what the command loop needs; it never waits for the planner. Locked after mutex_
 
   ros::NodeHandle nh_;
   ros::NodeHandle nh_private_;
diff --git a/global_planner/src/nodes/global_planner_node.cpp b/global_planner/src/nodes/global_planner_node.cpp
index c13198c..86c09f7 100644
--- a/global_planner/src/nodes/global_planner_node.cpp
+++ b/global_planner/src/nodes/global_planner_node.cpp
@@ -50,17 +50,11 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
                                          boost::bind(&GlobalPlannerNode::cmdLoopCallback, this, _1), &cmdloop_queue_);
   cmdloop_timer_ = nh_.createTimer(cmdlooptimer_options);
 
-  cmdloop_spinner_.reset(new ros::AsyncSpinner(1, &cmdloop_queue_));
-  cmdloop_spinner_->start();
-
   ros::TimerOptions plannerlooptimer_options(ros::Duration(plannerloop_dt_),
                                              boost::bind(&GlobalPlannerNode::plannerLoopCallback, this, _1),
                                              &plannerloop_queue_);
   plannerloop_timer_ = nh_.createTimer(plannerlooptimer_options);
 
-  plannerloop_spinner_.reset(new ros::AsyncSpinner(1, &plannerloop_queue_));
-  plannerloop_spinner_->start();
-
   current_goal_.header.frame_id = frame_id_;
   current_goal_.pose.position = start_pos_;
   current_goal_.pose.orientation = tf::createQuaternionMsgFromYaw(start_yaw_);
@@ -68,9 +62,19 @@ GlobalPlannerNode::GlobalPlannerNode(const ros::NodeHandle& nh, const ros::NodeH
 
   speed_ = global_planner_.default_speed_;
   start_time_ = ros::Time::now();
+
+  cmdloop_spinner_.reset(new ros::AsyncSpinner(1, &cmdloop_queue_));
+  cmdloop_spinner_->start();
+
+  plannerloop_spinner_.reset(new ros::AsyncSpinner(1, &plannerloop_queue_));
+  plannerloop_spinner_->start();
 }
 
-GlobalPlannerNode::~GlobalPlannerNode() {}
+GlobalPlannerNode::~GlobalPlannerNode() {
+  // the loops use almost all members, they have to end first
+  cmdloop_spinner_->stop();
+  plannerloop_spinner_->stop();
+}
 
 // Read Ros parameters
 void GlobalPlannerNode::readParams() {
@@ -159,6 +163,9 @@ void GlobalPlannerNode::setIntermediateGoal() {
 }
 
 void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlannerNodeConfig& config, uint32_t level) {
+  std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
+
   // global_planner_
   global_planner_.min_altitude_ = config.min_altitude_;
   global_planner_.max_altitude_ = config.max_altitude_;
@@ -211,11 +218,15 @@ void GlobalPlannerNode::dynamicReconfigureCallback(global_planner::GlobalPlanner
 }
 
 void GlobalPlannerNode::velocityCallback(const geometry_msgs::TwistStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   global_planner_.curr_vel_ = msg.twist.linear;
 }
 
 // Sets the current position and checks if the current goal has been reached
 void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
+
   // Update position
   last_pos_ = msg;
   global_planner_.setPose(last_pos_);
@@ -252,6 +263,7 @@ void GlobalPlannerNode::positionCallback(const geometry_msgs::PoseStamped& msg)
 }
 
 void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   printPointInfo(msg.point.x, msg.point.y, msg.point.z);
 
   geometry_msgs::PoseStamped pose;
@@ -262,11 +274,13 @@ void GlobalPlannerNode::clickedPointCallback(const geometry_msgs::PointStamped&
 }
 
 void GlobalPlannerNode::moveBaseSimpleCallback(const geometry_msgs::PoseStamped& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   waypoints_.clear();  // Replaces also a goal put aside for an intermediate one
   setNewGoal(GoalCell(msg.pose.position.x, msg.pose.position.y, clicked_goal_alt_, clicked_goal_radius_));
 }
 
 void GlobalPlannerNode::fcuInputGoalCallback(const mavros_msgs::Trajectory& msg) {
+  std::lock_guard<std::mutex> lock(mutex_);
   const GoalCell new_goal = GoalCell(msg.point_2.position.x, msg.point_2.position.y, msg.point_2.position.z, 1.0);
   // While an intermediate goal is followed the goal itself is the last of the waypoints
   const GoalCell goal = waypoints_.empty() ? global_planner_.goal_pos_ : waypoints_.back();
@@ -287,7 +301,10 @@ void GlobalPlannerNode::octomapFullCallback(const octomap_msgs::Octomap& msg) {
   if ((current - last_wp_time_).toSec() < mapupdate_dt_) {
     return;
   }
-  last_wp_time_ = ros::Time::now();
+  {
+    std::lock_guard<std::mutex> state_lock(state_mutex_);
+    last_wp_time_ = ros::Time::now();
+  }
 
   octomap::AbstractOcTree* tree = octomap_msgs::msgToMap(msg);
 
@@ -308,6 +325,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
     pcl::fromROSMsg(transformed_msg, cloud);
 
     // Store the obstacle points
+    std::lock_guard<std::mutex> lock(mutex_);
     for (const auto& p : cloud) {
       if (std::isfinite(p.x) && std::isfinite(p.y) && std::isfinite(p.z)) {
         // TODO: Not all points end up here
@@ -323,6 +341,7 @@ void GlobalPlannerNode::depthCameraCallback(const sensor_msgs::PointCloud2& msg)
 }
 
 void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStamped>& poses) {
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
   path_.clear();
 
   if (poses.size() < 2) {
@@ -341,6 +360,7 @@ void GlobalPlannerNode::setCurrentPath(const std::vector<geometry_msgs::PoseStam
 }
 
 void GlobalPlannerNode::cmdLoopCallback(const ros::TimerEvent& event) {
+  std::lock_guard<std::mutex> state_lock(state_mutex_);
   hover_ = false;
 
   // Check if all information was received
@@ -419,16 +439,20 @@ void GlobalPlannerNode::publishSetpoint() {
   // Vector pointing from current position to the current goal
   tf::Vector3 vec = toTfVector3(subtractPoints(current_goal_.pose.position, last_pos_.pose.position));
   if (global_planner_.use_risk_based_speedup_) {
-    Cell cur_cell =
-        global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
-    double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
-    if (cur_risk >= global_planner_.risk_threshold_risk_based_speedup_) {  // If current risk is too high(more than
-                                                                           // risk_threshold_risk_based_speedup_), set
-                                                                           // speed as low to stable flight.
-      speed_ = global_planner_.default_speed_;
-    } else {  // If current risk is low, speed up for fast flight.
-      speed_ = global_planner_.default_speed_ +
-               (global_planner_.max_speed_ - global_planner_.default_speed_) * (1 - cur_risk);
+    // While the planner works the speed is kept
+    std::unique_lock<std::mutex> lock(mutex_, std::try_to_lock);
+    if (lock.owns_lock()) {
+      Cell cur_cell =
+          global_planner::Cell(last_pos_.pose.position.x, last_pos_.pose.position.y, last_pos_.pose.position.z);
+      double cur_risk = std::sqrt(global_planner_.getRisk(cur_cell));
+      if (cur_risk >= global_planner_.risk_threshold_risk_based_speedup_) {  // If current risk is too high(more than
+                                                                             // risk_threshold_risk_based_speedup_), set
+                                                                             // speed as low to stable flight.
+        speed_ = global_planner_.default_speed_;
+      } else {  // If current risk is low, speed up for fast flight.
+        speed_ = global_planner_.default_speed_ +
+                 (global_planner_.max_speed_ - global_planner_.default_speed_) * (1 - cur_risk);
+      }
     }
   } else {  // If risk based speed up is not activated, use default_speed_.
     speed_ = global_planner_.default_speed_;
-- 
2.43.0


From 7cd9bd86a1da7ab986dff9a711a83fa89d83f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:12 +0000
Subject: [PATCH 64/69] fix: parameter messages of the FCU are queued instead
 of replacing each other

---
 avoidance/src/avoidance_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index df92418..8b3eea5 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -26,7 +26,7 @@ AvoidanceNode::~AvoidanceNode() {
 
 void AvoidanceNode::init() {
   mavros_system_status_pub_ = nh_.advertise<mavros_msgs::CompanionProcessStatus>("mavros/companion_process/status", 1);
-  px4_param_sub_ = nh_.subscribe("mavros/param/param_value", 1, &AvoidanceNode::px4ParamsCallback, this);
+  px4_param_sub_ = nh_.subscribe("mavros/param/param_value", 1000, &AvoidanceNode::px4ParamsCallback, this);
   mission_sub_ = nh_.subscribe("mavros/mission/waypoints", 1, &AvoidanceNode::missionCallback, this);
   get_px4_param_client_ = nh_.serviceClient<mavros_msgs::ParamGet>("mavros/param/get");
 
-- 
2.43.0


From 9be4d483b350435bae2f14370a7a8e833bc4af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:12 +0000
Subject: [PATCH 65/69] fix: a node which ends makes no further FCU requests
 and takes no messages into freed members

---
 avoidance/src/avoidance_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/avoidance/src/avoidance_node.cpp b/avoidance/src/avoidance_node.cpp
index 8b3eea5..ad19c55 100644
--- a/avoidance/src/avoidance_node.cpp
+++ b/avoidance/src/avoidance_node.cpp
@@ -16,6 +16,9 @@ AvoidanceNode::AvoidanceNode(const ros::NodeHandle& nh, const ros::NodeHandle& n
 }
 
 AvoidanceNode::~AvoidanceNode() {
+  // the callbacks use members which are destroyed before the subscribers
+  px4_param_sub_.shutdown();
+  mission_sub_.shutdown();
   {
     std::lock_guard<std::mutex> lck(worker_mutex_);
     should_exit_ = true;
@@ -136,6 +139,7 @@ void AvoidanceNode::checkPx4Parameters() {
   auto& client = get_px4_param_client_;
   // the parameters are not locked during the request: it can take long and the planner needs them
   auto request_param = [this, &client](const std::string& name, float& val) {
+    if (should_exit_) return;
     mavros_msgs::ParamGet req;
     req.request.param_id = name;
     unsigned int updates;
-- 
2.43.0


From c625ae3752702cccdfefba5d29577d0a52e6f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:06 +0000
Subject: [PATCH 66/69] fix: the planned path is followed also while the
 parameters of the flight controller are not known

---
 local_planner/src/nodes/waypoint_generator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/local_planner/src/nodes/waypoint_generator.cpp b/local_planner/src/nodes/waypoint_generator.cpp
index f16643d..9ddf2d6 100644
--- a/local_planner/src/nodes/waypoint_generator.cpp
+++ b/local_planner/src/nodes/waypoint_generator.cpp
@@ -459,6 +459,10 @@ bool WaypointGenerator::isAltitudeChange() {
 void WaypointGenerator::setPlannerInfo(const avoidanceOutput& input) {
   std::lock_guard<std::mutex> lock(running_mutex_);
   planner_info_ = input;
+  // at startup parameters are NAN (a path could not be followed, same speed as in adaptSpeed)
+  if (!std::isfinite(planner_info_.cruise_velocity)) {
+    planner_info_.cruise_velocity = 2.f;
+  }
 }
 
 void WaypointGenerator::getOfftrackPointsForVisualization(Eigen::Vector3f& closest_pt, Eigen::Vector3f& deg60_pt) {
-- 
2.43.0


From 51cc8ea7c7da25dab32a055761611ab6de9e6fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:27 +0000
Subject: [PATCH 67/69] fix: an interrupted change to loiter height does not go
 on as a blind descent

---
 safe_landing_planner/src/nodes/waypoint_generator.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator.cpp b/safe_landing_planner/src/nodes/waypoint_generator.cpp
index e0f8dfc..9655171 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator.cpp
@@ -206,13 +206,14 @@ usm::Transition WaypointGenerator::runAltitudeChange() {
   if (state_changed_) {
     loiter_yaw_ = yaw_;
   }
-  goal_.z() = NAN;
   altitude_landing_area_percentile_ = landingAreaHeightPercentile(80.f);
   float direction = (fabsf(position_.z() - altitude_landing_area_percentile_) - loiter_height_) < 0.f ? 1.f : -1.f;
-  velocity_setpoint_.z() = direction * LAND_SPEED;
-  publishTrajectorySetpoints_(goal_, velocity_setpoint_, loiter_yaw_, yaw_speed_setpoint_);
-  ROS_INFO("\033[1;35m [WGN] altitudeChange %f %f %f - %f %f %f yaw %f \033[0m", goal_.x(), goal_.y(), goal_.z(),
-           velocity_setpoint_.x(), velocity_setpoint_.y(), velocity_setpoint_.z(), yaw_setpoint_);
+  // the goal and its velocity are kept for the states which follow, an interrupted descent must not go on there
+  Eigen::Vector3f pos_sp = Eigen::Vector3f(goal_.x(), goal_.y(), NAN);
+  Eigen::Vector3f vel_sp = Eigen::Vector3f(velocity_setpoint_.x(), velocity_setpoint_.y(), direction * LAND_SPEED);
+  publishTrajectorySetpoints_(pos_sp, vel_sp, loiter_yaw_, yaw_speed_setpoint_);
+  ROS_INFO("\033[1;35m [WGN] altitudeChange %f %f %f - %f %f %f yaw %f \033[0m", pos_sp.x(), pos_sp.y(), pos_sp.z(),
+           vel_sp.x(), vel_sp.y(), vel_sp.z(), yaw_setpoint_);
 
   ROS_INFO("[WGN] Landing Radius: xy  %f, z %f ", (goal_.topRows<2>() - position_.topRows<2>()).norm(),
            fabsf(position_.z() - altitude_landing_area_percentile_));
-- 
2.43.0


From 440081ce4174401130c3da937f4a36ddb24562a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:32 +0000
Subject: [PATCH 68/69] fix: a landing item which was interrupted by another
 mode starts again when the mission goes on

---
 .../safe_landing_planner/waypoint_generator_node.hpp      | 2 ++
 .../src/nodes/waypoint_generator_node.cpp                 | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
index 7adea5f..556df64 100644
--- a/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
+++ b/safe_landing_planner/include/safe_landing_planner/waypoint_generator_node.hpp
@@ -51,6 +51,8 @@ class WaypointGeneratorNode final {
   ros::Publisher marker_goal_pub_;
 
   bool grid_received_ = false;
+  bool follows_items_ = true;  ///< the flight controller is armed and follows mission items or lands
+  bool resume_item_ = false;   ///< the next item starts again because it was interrupted
   double spin_dt_ = 0.1;
   Eigen::Vector3f goal_visualization_ = Eigen::Vector3f::Zero();
 
diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index 300ff36..dea0a53 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -84,9 +84,10 @@ void WaypointGeneratorNode::positionCallback(const geometry_msgs::PoseStamped &m
 void WaypointGeneratorNode::trajectoryCallback(const mavros_msgs::Trajectory &msg) {
   bool new_item =
       msg.point_valid[1] == true && (avoidance::toEigen(msg.point_2.position) - goal_visualization_).norm() > 0.01;
-  bool update = new_item || waypointGenerator_.goal_.topRows<2>().array().hasNaN();
+  bool update = new_item || resume_item_ || waypointGenerator_.goal_.topRows<2>().array().hasNaN();
 
   if (update && msg.point_valid[0] == true) {
+    resume_item_ = false;
     // the decisions taken for the previous landing item do not hold for another item
     if (waypointGenerator_.is_land_waypoint_ && new_item) {
       waypointGenerator_.trigger_reset_ = true;
@@ -118,6 +119,11 @@ void WaypointGeneratorNode::stateCallback(const mavros_msgs::State &msg) {
     waypointGenerator_.is_land_waypoint_ = false;
     waypointGenerator_.trigger_reset_ = true;
   }
+
+  // an item which was interrupted starts again, even if it is the same one
+  bool follows_items = msg.armed && (msg.mode == "AUTO.LAND" || msg.mode == "AUTO.MISSION");
+  if (follows_items && !follows_items_) resume_item_ = true;
+  follows_items_ = follows_items;
 }
 
 void WaypointGeneratorNode::gridCallback(const safe_landing_planner::SLPGridMsg &msg) {
-- 
2.43.0


From ed4b2bfd2263aac140b837b41e2a7c50aa76b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:46 +0000
Subject: [PATCH 69/69] fix: decisions of an interrupted landing do not hold
 for the resumed item

---
 safe_landing_planner/src/nodes/waypoint_generator_node.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
index dea0a53..67bcb7e 100644
--- a/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
+++ b/safe_landing_planner/src/nodes/waypoint_generator_node.cpp
@@ -87,11 +87,11 @@ void WaypointGeneratorNode::trajectoryCallback(const mavros_msgs::Trajectory &ms
   bool update = new_item || resume_item_ || waypointGenerator_.goal_.topRows<2>().array().hasNaN();
 
   if (update && msg.point_valid[0] == true) {
-    resume_item_ = false;
     // the decisions taken for the previous landing item do not hold for another item
-    if (waypointGenerator_.is_land_waypoint_ && new_item) {
+    if (waypointGenerator_.is_land_waypoint_ && (new_item || resume_item_)) {
       waypointGenerator_.trigger_reset_ = true;
     }
+    resume_item_ = false;
     waypointGenerator_.goal_ = avoidance::toEigen(msg.point_1.position);
     waypointGenerator_.velocity_setpoint_ = avoidance::toEigen(msg.point_1.velocity);
     waypointGenerator_.is_land_waypoint_ = (msg.command[1] == static_cast<int>(MavCommand::MAV_CMD_NAV_LAND));
-- 
2.43.0

