From 7c3e6ae8ed64543a796aaa2531c295a88a1f8135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 01/27] fix: withdraw the regeneration request only together
 with the queued commands

---
 src/dynamic_trajectory.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 518ed2c..cbefd92 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -98,7 +98,9 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
-    generate_new_traj_ = generate_new_traj;
+    if (generate_new_traj) {
+      generate_new_traj_ = true;
+    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
@@ -246,7 +248,6 @@ namespace dynamic_traj_generator
         //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
         {
           DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          generate_new_traj_ = false;
           continue;
         }
         parameters_mutex_.lock();
@@ -274,7 +275,6 @@ namespace dynamic_traj_generator
           appendDronePositionWaypoint(next_trajectory_waypoint_);
         }
         generateTrajectory(next_trajectory_waypoint_, false);
-        generate_new_traj_ = false;
       }
 
       else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
@@ -580,6 +580,8 @@ namespace dynamic_traj_generator
   {
     DYNAMIC_LOG("Generating waypoints for the next trajectory");
     const std::lock_guard<std::mutex> lock(todo_mutex);
+    // every command queued so far is taken here, later ones raise the request again
+    generate_new_traj_ = false;
     DynamicWaypoint::Deque next_trajectory_waypoints;
     if (waypoints_to_be_set_.size() == 0)
     {
@@ -676,7 +678,6 @@ namespace dynamic_traj_generator
         swapTrajectory();
         swapDynamicWaypoints();
         computing_new_trajectory_ = false;
-        generate_new_traj_ = false;
       }
     }
     return true;
-- 
2.43.0


From 1e095659d8f72552ced973e64c359968cb59d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 02/27] fix: worker reads planner state shared with other
 threads only when synchronised

---
 .../dynamic_trajectory.hpp                          |  1 +
 src/dynamic_trajectory.cpp                          | 13 ++++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index be10cfa..15014c9 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -206,6 +206,7 @@ class DynamicTrajectory {
   bool checkStitchTrajectory();
   bool checkInSecurityZone();
   bool checkTrajectoryModifiers();
+  bool checkPendingModifications();
 
   bool checkTrajectoryGenerated();
   bool checkIfTrajectoryIsAlreadyGenerated() { return traj_ != nullptr; };
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index cbefd92..f918a46 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -266,7 +266,7 @@ namespace dynamic_traj_generator
           from_scratch_ = false;
           DYNAMIC_LOG("stitching new trajectory");
           next_trajectory_waypoint_ = stitchActualTrajectoryWithNewWaypoints(
-              parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
+              new_parameters_.last_local_time_evaluated, next_trajectory_waypoint_);
         }
         else
         {
@@ -277,7 +277,7 @@ namespace dynamic_traj_generator
         generateTrajectory(next_trajectory_waypoint_, false);
       }
 
-      else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
+      else if (checkPendingModifications() && !computing_new_trajectory_)
       {
         // DYNAMIC_LOG("Modifying waypoints");
         const std::lock_guard<std::mutex> lock(todo_mutex);
@@ -694,6 +694,12 @@ namespace dynamic_traj_generator
     return false;
   };
 
+  bool DynamicTrajectory::checkPendingModifications()
+  {
+    const std::lock_guard<std::mutex> lock(todo_mutex);
+    return !waypoints_to_be_modified_.empty();
+  };
+
   bool DynamicTrajectory::checkInSecurityZone()
   {
     if (traj_ == nullptr)
@@ -722,7 +728,8 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::checkIfTrajectoryCanBeGenerated()
   {
-    return !checkInSecurityZone() && !computing_new_trajectory_;
+    // the active trajectory may only be looked at while it cannot be swapped
+    return !computing_new_trajectory_ && !checkInSecurityZone();
   }
 
   void DynamicTrajectory::timeFittingWithVehiclePosition(ThreadSafeTrajectory &traj, const Eigen::Vector3d vehicle_position)
-- 
2.43.0


From f5615896aa2e9f721b39007f3e626bee5f58a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 03/27] fix: a modification applied to the active waypoints
 also reaches the waypoints still queued

---
 src/dynamic_trajectory.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index f918a46..1e344d5 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -284,6 +284,17 @@ namespace dynamic_traj_generator
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
+          // waypoints still waiting for the next trajectory carry the modification too
+          for (auto *pending : {&waypoints_to_be_set_, &waypoints_to_be_added_})
+          {
+            for (auto &waypoint : *pending)
+            {
+              if (waypoint.getName() == modification.first && modification.first != "")
+              {
+                waypoint.resetWaypoint(modification.second);
+              }
+            }
+          }
         }
         waypoints_to_be_modified_.clear();
       }
-- 
2.43.0


From 95111cb5ecd38db6a751ccd0e03fece84be771bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 04/27] fix: report every regeneration exactly once, after
 trajectory and waypoints are in place

---
 src/dynamic_trajectory.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 1e344d5..bd0e736 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -212,9 +212,7 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::getWasTrajectoryRegenerated()
   {
-    bool value = trajectory_regenerated_;
-    trajectory_regenerated_ = false;
-    return value;
+    return trajectory_regenerated_.exchange(false);
   }
   bool DynamicTrajectory::getGenerateNewTraj() const
   {
@@ -417,7 +415,6 @@ namespace dynamic_traj_generator
 
     traj_ = std::move(new_trajectory);
 
-    trajectory_regenerated_ = true;
     DYNAMIC_LOG("Trajectory swapped");
   };
 
@@ -688,6 +685,7 @@ namespace dynamic_traj_generator
       {
         swapTrajectory();
         swapDynamicWaypoints();
+        trajectory_regenerated_ = true;
         computing_new_trajectory_ = false;
       }
     }
-- 
2.43.0


From 882b1c7f97c439907c70e0b3fc5f3c714840d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 05/27] fix: destroying a planner waits for the computation in
 progress before releasing its state

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 15014c9..614edeb 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -127,6 +127,10 @@ class DynamicTrajectory {
   ~DynamicTrajectory() {
     stop_process_ = true;
     waitForGeneratingNewTraj_thread_.join();
+    // the computation in progress still uses the members
+    if (future_traj_.valid()) {
+      future_traj_.wait();
+    }
   }
 
   dynamic_traj_generator::DynamicWaypoint::Vector getNextTrajectoryWaypoints(){
-- 
2.43.0


From c3c3d10dff1a208627efe25bf3a64d056ebbff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 06/27] fix: release the future and waypoint mutexes when a
 call made under them throws

---
 src/dynamic_trajectory.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index bd0e736..cfd7047 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -387,9 +387,9 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::swapTrajectory()
   {
 
-    future_mutex_.lock();
+    std::unique_lock<std::mutex> future_lock(future_mutex_);
     auto new_trajectory = future_traj_.get();
-    future_mutex_.unlock();
+    future_lock.unlock();
 
     if (from_scratch_)
     {
@@ -420,9 +420,9 @@ namespace dynamic_traj_generator
 
   void DynamicTrajectory::swapDynamicWaypoints()
   {
-    dynamic_waypoints_mutex_.lock();
+    std::unique_lock<std::mutex> lock(dynamic_waypoints_mutex_);
     dynamic_waypoints_ = next_trajectory_waypoint_;
-    dynamic_waypoints_mutex_.unlock();
+    lock.unlock();
     DYNAMIC_LOG("Waypoints swapped");
   }
 
@@ -447,7 +447,7 @@ namespace dynamic_traj_generator
 
     if (global_time > 0)
     {
-      dynamic_waypoints_mutex_.lock();
+      std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
       for (auto &waypoint : dynamic_waypoints_)
       {
         if (waypoint.getName() == "")
@@ -456,7 +456,6 @@ namespace dynamic_traj_generator
         }
         refs += waypoint.trajectoryCompensation(global_time, order);
       }
-      dynamic_waypoints_mutex_.unlock();
     }
     return refs;
   }
-- 
2.43.0


From 85aad46c1e4d8b141088b1392ce3f83cc70c310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 07/27] fix: a failed computation no longer blocks every later
 regeneration

---
 src/dynamic_trajectory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index cfd7047..10adb48 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -682,7 +682,16 @@ namespace dynamic_traj_generator
       future_mutex_.unlock();
       if (traj_ready)
       {
-        swapTrajectory();
+        try
+        {
+          swapTrajectory();
+        }
+        catch (...)
+        {
+          // a failed computation is reported to the caller and must not block the next one
+          computing_new_trajectory_ = false;
+          throw;
+        }
         swapDynamicWaypoints();
         trajectory_regenerated_ = true;
         computing_new_trajectory_ = false;
-- 
2.43.0


From 27800ca7753466909c907ae297dc762810a7f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 08/27] fix: adopting a trajectory keeps the last evaluated
 time

---
 src/dynamic_trajectory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 10adb48..1f12a6e 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -410,6 +410,11 @@ namespace dynamic_traj_generator
     }
 
     parameters_mutex_.lock();
+    // the clock went on while the trajectory was computed
+    new_parameters_.last_global_time_evaluated = parameters_.last_global_time_evaluated;
+    new_parameters_.last_local_time_evaluated =
+        parameters_.last_global_time_evaluated -
+        new_parameters_.global_time_last_trajectory_generated;
     parameters_ = new_parameters_;
     parameters_mutex_.unlock();
 
-- 
2.43.0


From b4c1a5f55768f9c5b8ecec43804f6bea38752339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 09/27] fix: ThreadSafeTrajectory reads the shared pointer
 under its lock when copied or compared

---
 .../thread_safe_trajectory.hpp                | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
index 9549dd0..b0c41cc 100644
--- a/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/thread_safe_trajectory.hpp
@@ -24,6 +24,11 @@ private:
     std::lock_guard<std::mutex> lock_time(time_mutex_);
     trajectory_ptr_ = std::move(trajectory);
   }
+  std::shared_ptr<mav_trajectory_generation::Trajectory> get() const
+  {
+    std::lock_guard<std::mutex> lock_time(time_mutex_);
+    return trajectory_ptr_;
+  }
 
 public:
   ThreadSafeTrajectory(){
@@ -36,19 +41,19 @@ public:
   ThreadSafeTrajectory(const ThreadSafeTrajectory &other)
   {
     /* std::cout<<"ThreadSafeTrajectory copy constructor"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
   };
 
   ThreadSafeTrajectory(ThreadSafeTrajectory &&other)
   {
     /* std::cout<<"ThreadSafeTrajectory move constructor"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
   };
 
   ThreadSafeTrajectory &operator=(const ThreadSafeTrajectory &other)
   {
     /* std::cout<<"ThreadSafeTrajectory copy assignment"<<std::endl; */
-    this->reset(other.trajectory_ptr_);
+    this->reset(other.get());
     return *this;
   };
 
@@ -92,19 +97,19 @@ public:
 
   bool operator==(const ThreadSafeTrajectory &other) noexcept
   {
-    return other.trajectory_ptr_ == trajectory_ptr_;
+    return other.get() == get();
   }
   bool operator!=(const ThreadSafeTrajectory &other) noexcept
   {
-    return other.trajectory_ptr_ != trajectory_ptr_;
+    return other.get() != get();
   }
   bool operator==(const std::nullptr_t &other) noexcept
   {
-    return trajectory_ptr_ == nullptr;
+    return get() == nullptr;
   }
   bool operator!=(const std::nullptr_t &other) noexcept
   {
-    return trajectory_ptr_ != nullptr;
+    return get() != nullptr;
   }
 
   Eigen::VectorXd evaluate(double t, int derivative_order = 0) const
-- 
2.43.0


From a378259273709e07ea7855ab269bc5540fcd0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 10/27] fix: copying a waypoint keeps its last sigma

---
 src/dynamic_waypoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index 5d62c87..b1972b7 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -28,6 +28,7 @@ namespace dynamic_traj_generator
         t_assigned_(other.t_assigned_), name_(other.name_), index_(other.index_)
   {
     modifiers_ = other.modifiers_;
+    last_sigma_ = other.last_sigma_;
   }
 
   void DynamicWaypoint::setCurrentPosition(Eigen::Vector3d position, double actual_time)
-- 
2.43.0


From 7f60056dbab2ca2fd1e61b16893b544817c68db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 11/27] fix: positions and references are defined before they
 are first set

---
 .../dynamic_trajectory_generator/dynamic_trajectory.hpp   | 8 ++++----
 include/dynamic_trajectory_generator/dynamic_waypoint.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 614edeb..3cde76f 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -41,9 +41,9 @@
 namespace dynamic_traj_generator {
 
 struct References {
-  Eigen::Vector3d position;
-  Eigen::Vector3d velocity;
-  Eigen::Vector3d acceleration;
+  Eigen::Vector3d position = Eigen::Vector3d::Zero();
+  Eigen::Vector3d velocity = Eigen::Vector3d::Zero();
+  Eigen::Vector3d acceleration = Eigen::Vector3d::Zero();
 
   Eigen::Vector3d &operator[](int index) {
     switch (index) {
@@ -92,7 +92,7 @@ class DynamicTrajectory {
   const int dimension_ = 3;
   std::atomic_bool from_scratch_ = true;
   const double a_max_ = MAV_MAX_ACCEL;
-  Eigen::Vector3d vehicle_position_;
+  Eigen::Vector3d vehicle_position_ = Eigen::Vector3d::Zero();
 
   mutable std::mutex traj_mutex_;
   mutable std::mutex future_mutex_;
diff --git a/include/dynamic_trajectory_generator/dynamic_waypoint.hpp b/include/dynamic_trajectory_generator/dynamic_waypoint.hpp
index 48661bd..d1f4418 100644
--- a/include/dynamic_trajectory_generator/dynamic_waypoint.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_waypoint.hpp
@@ -14,8 +14,8 @@ namespace dynamic_traj_generator
   class DynamicWaypoint
   {
     mav_trajectory_generation::Vertex vertex_;
-    Eigen::Vector3d original_position_;
-    Eigen::Vector3d current_position_;
+    Eigen::Vector3d original_position_ = Eigen::Vector3d::Zero();
+    Eigen::Vector3d current_position_ = Eigen::Vector3d::Zero();
     double t_assigned_ = 0.0f;
     std::string name_ = "";
     int index_ = -1;
-- 
2.43.0


From c8ff10b19237345c440c7aabf338fc43e3b75eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 12/27] fix: acceleration compensation is the second derivative
 of the position compensation

---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 80d99da..e9ae819 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -62,7 +62,7 @@ public:
       value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     case 2:
-      value = ((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
+      value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     }
     value *= increment_;
-- 
2.43.0


From 1e4b845a9bc60ef318690c5a6d3f69f81f65c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 13/27] fix: range sampling and evaluation of trajectories at
 their end and without segments

Trajectory::evaluateRange accessed a segment past the last one when it was asked
to start exactly at the end of the trajectory, and sampled past t_end (recording
times before t_start) when t_start lay inside a segment. Trajectory::evaluate and
evaluateRange accessed a segment of a trajectory that has none.
---
 .../mav_trajectory_generation/src/trajectory.cpp      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 22d6dd7..b8f59b4 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -62,7 +62,7 @@ Eigen::VectorXd Trajectory::evaluate(double t, int derivative_order) const {
       break;
     }
   }
-  if (t > accumulated_time) {
+  if (segments_.empty() || t > accumulated_time) {
     LOG(ERROR) << "Time out of range of the trajectory!";
     return Eigen::VectorXd::Zero(D(), 1);
   }
@@ -108,14 +108,21 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
       break;
     }
   }
-  if (t_start > accumulated_time) {
+  if (segments_.empty() || t_start > accumulated_time) {
     LOG(ERROR) << "Start time out of range of the trajectory!";
     return;
   }
 
+  // Make sure we don't go off the end of the segments (can happen if t_start is
+  // equal to trajectory max time).
+  if (i >= segments_.size()) {
+    i = segments_.size() - 1;
+  }
   // Go back to the start of this segment.
   accumulated_time -= segments_[i].getTime();
   double time_in_segment = t_start - accumulated_time;
+  // The samples start at t_start, not at the start of its segment.
+  accumulated_time = t_start;
 
   // Get all the samples, incrementing the segments as we go.
   while (accumulated_time < t_end) {
-- 
2.43.0


From 7bb348be610b8ac35c429e05bb874f0a4ad22175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 14/27] fix: comparing polynomials of different size

Polynomial::operator== compared the coefficient vectors without comparing their
sizes first: comparing polynomials (and segments, trajectories) of different
degree aborted on Eigen's size assertion, or read past the shorter vector when
assertions are disabled.
---
 .../include/mav_trajectory_generation/polynomial.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index 6534a6f..a2b505b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -63,7 +63,7 @@ class Polynomial {
   int N() const { return N_; }
 
   inline bool operator==(const Polynomial& rhs) const {
-    return coefficients_ == rhs.coefficients_;
+    return N_ == rhs.N_ && coefficients_ == rhs.coefficients_;
   }
   inline bool operator!=(const Polynomial& rhs) const {
     return !operator==(rhs);
-- 
2.43.0


From 24a2f7987845ac645ec6b9e567cbd23215f35900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:19 +0000
Subject: [PATCH 15/27] fix: trajectory points built from values have no
 timestamp

---
 .../include/mav_msgs/eigen_mav_msgs.hpp                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
index a2a9ae6..5f4569d 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/eigen_mav_msgs.hpp
@@ -186,7 +186,8 @@ struct EigenTrajectoryPoint {
                        const Eigen::Vector3d& _angular_velocity,
                        const Eigen::Vector3d& _angular_acceleration,
                        const MavActuation& _degrees_of_freedom = MavActuation::DOF4)
-      : time_from_start_ns(_time_from_start_ns),
+      : timestamp_ns(-1),
+        time_from_start_ns(_time_from_start_ns),
         position_W(_position),
         velocity_W(_velocity),
         acceleration_W(_acceleration),
-- 
2.43.0


From 17fc60cdd28eb1336d3e61c60052002922bad43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:51 +0000
Subject: [PATCH 16/27] fix: a failed addTrajectories leaves the result
 untouched

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index b8f59b4..0d634e1 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -244,8 +244,9 @@ std::vector<double> Trajectory::getSegmentTimes() const {
 bool Trajectory::addTrajectories(const std::vector<Trajectory>& trajectories,
                                  Trajectory* merged) const {
   CHECK_NOTNULL(merged);
-  merged->clear();
-  *merged = *this;
+  // Collect in a local trajectory: merged stays untouched on failure and may be
+  // this trajectory.
+  Trajectory result = *this;
 
   for (const Trajectory& t : trajectories) {
     // Check dimensions and coefficients.
@@ -260,9 +261,10 @@ bool Trajectory::addTrajectories(const std::vector<Trajectory>& trajectories,
     // Add segments.
     Segment::Vector segments;
     t.getSegments(&segments);
-    merged->addSegments(segments);
+    result.addSegments(segments);
   }
 
+  *merged = result;
   return true;
 }
 
-- 
2.43.0


From ba3b1fe32ef09741a0d0e2309a412da19c70b58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 17/27] fix: extracting one dimension of a trajectory keeps the
 segment times

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 0d634e1..18a53c2 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -157,6 +157,7 @@ Trajectory Trajectory::getTrajectoryWithSingleDimension(int dimension) const {
   for (size_t k = 0; k < segments_.size(); ++k) {
     Segment segment(N_, 1);
     segment[0] = (segments_[k])[dimension];
+    segment.setTime(segments_[k].getTime());
     segments.push_back(segment);
   }
 
-- 
2.43.0


From 9ca31a098b15ba949e9ea0d09c6c299d30d7b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:13 +0000
Subject: [PATCH 18/27] fix: appending a dimension of another degree uses the
 time-scaled polynomials

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 8aa578e..d6c3a32 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -243,12 +243,12 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
     for (int i = 0; i < new_D; i++) {
       Polynomial polynomial_to_append(new_N);
       if (i < D_) {
-        if (!polynomials_[i].getPolynomialWithAppendedCoefficients(
+        if (!current_segment[i].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
       } else {
-        if (!segment_to_append[i - D_].getPolynomialWithAppendedCoefficients(
+        if (!segment_to_append_temp[i - D_].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
-- 
2.43.0


From 047019d319e978ef2422f646df0221e38097e142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 19/27] fix: a failed search for extremum candidates of a
 segment is reported

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index d6c3a32..8732645 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -140,8 +140,10 @@ bool Segment::computeMinMaxMagnitudeCandidates(
   CHECK_NOTNULL(candidates);
   // Find candidate times (roots + start + end).
   std::vector<double> candidate_times;
-  computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end, dimensions,
-                                       &candidate_times);
+  if (!computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,
+                                            dimensions, &candidate_times)) {
+    return false;
+  }
 
   // Evaluate candidate times.
   candidates->resize(candidate_times.size());
-- 
2.43.0


From 9582553278990c45d0543517154ef95ca2734a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 20/27] fix: a single dimension to search for extrema is
 checked like several

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 8732645..7bfffa9 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -123,10 +123,17 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
       return false;
     }
   } else {
+    const int dim = dimensions[0];
+    if (dim < 0 || dim >= D_) {
+      LOG(WARNING) << "Specified dimensions " << dim
+                   << " are out of bounds [0.." << D_ - 1 << "]."
+                   << std::endl;
+      return false;
+    }
     // For dimension.size() == 1  we can simply evaluate the roots of the
     // derivative.
-    if (!polynomials_[dimensions[0]].computeMinMaxCandidates(
-            t_start, t_end, derivative, candidate_times)) {
+    if (!polynomials_[dim].computeMinMaxCandidates(t_start, t_end, derivative,
+                                                   candidate_times)) {
       return false;
     }
   }
-- 
2.43.0


From 1f8d92b03446b76802dfa04585bc202d06442a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 21/27] fix: the minimal magnitude of one dimension is also
 searched where the value vanishes

---
 subpackages/mav_trajectory_generation/src/segment.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 7bfffa9..b11d466 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -136,6 +136,13 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
                                                    candidate_times)) {
       return false;
     }
+    // The magnitude is also minimal where the value itself changes sign.
+    std::vector<double> zeros;
+    if (!polynomials_[dim].computeMinMaxCandidates(t_start, t_end,
+                                                   derivative - 1, &zeros)) {
+      return false;
+    }
+    candidate_times->insert(candidate_times->end(), zeros.begin(), zeros.end());
   }
   return true;
 }
-- 
2.43.0


From 2f64710f3f78f48848f1a6f299f82d7ddbd74444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:46 +0000
Subject: [PATCH 22/27] fix: a trajectory whose limits cannot be computed is
 not reported to meet them

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 18a53c2..19e79df 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -405,7 +405,9 @@ bool Trajectory::scaleSegmentTimesToMeetConstraints(double v_max,
     // Quadrotors Using Safe Flight Corridors in 3-D Complex Environments." IEEE
     // Robotics and Automation Letters 2.3 (2017).
     double v_max_actual, a_max_actual;
-    computeMaxVelocityAndAcceleration(&v_max_actual, &a_max_actual);
+    if (!computeMaxVelocityAndAcceleration(&v_max_actual, &a_max_actual)) {
+      return false;
+    }
 
     // Reevaluate constraint/bound violation
     double velocity_violation = v_max_actual / v_max;
-- 
2.43.0


From 660d6a2f860e58687293e39ca6ef764f7dffcf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:47 +0000
Subject: [PATCH 23/27] fix: scaling to feasibility ignores a limit that was
 not constrained

---
 .../impl/polynomial_optimization_nonlinear_impl.h            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index b8bd10f..db806aa 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -370,8 +370,9 @@ void PolynomialOptimizationNonLinear<_N>::scaleSegmentTimesWithViolation() {
   poly_opt_.getTrajectory(&traj);
 
   // Get constraints
-  double v_max = 0.0;
-  double a_max = 0.0;
+  // A limit that is not constrained does not restrict the scaling.
+  double v_max = std::numeric_limits<double>::infinity();
+  double a_max = std::numeric_limits<double>::infinity();
   for (const auto& constraint : inequality_constraints_) {
     if (constraint->derivative == derivative_order::VELOCITY) {
       v_max = constraint->value;
-- 
2.43.0


From 9155c1c0e87e6ce42d0080c2bbbd15ec49be4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:51 +0000
Subject: [PATCH 24/27] fix: the timing registry is not synchronised although
 every planner uses it

---
 .../mav_trajectory_generation/timing.h        |  5 ++++-
 .../mav_trajectory_generation/src/timing.cpp  | 21 ++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index f30305d..acb4086 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -27,6 +27,7 @@
 #include <chrono>
 #include <limits>
 #include <map>
+#include <mutex>
 #include <string>
 #include <vector>
 
@@ -163,7 +164,7 @@ class Timing {
   static std::string Print();
   static std::string SecondsToTimeString(double seconds);
   static void Reset();
-  static const map_t& GetTimers() { return Instance().tag_map_; }
+  static map_t GetTimers();
 
  private:
   void AddTime(size_t handle, double seconds);
@@ -175,6 +176,8 @@ class Timing {
 
   typedef std::vector<TimerMapValue> list_t;
 
+  // Timers are used from every thread that plans.
+  std::recursive_mutex mutex_;
   list_t timers_;
   map_t tag_map_;
   size_t max_tag_length_;
diff --git a/subpackages/mav_trajectory_generation/src/timing.cpp b/subpackages/mav_trajectory_generation/src/timing.cpp
index 479ad7d..d44e1d2 100644
--- a/subpackages/mav_trajectory_generation/src/timing.cpp
+++ b/subpackages/mav_trajectory_generation/src/timing.cpp
@@ -43,6 +43,7 @@ Timing::~Timing() {}
 
 // Static functions to query the timers:
 size_t Timing::GetHandle(std::string const& tag) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   // Search for an existing tag.
   map_t::iterator i = Instance().tag_map_.find(tag);
   if (i == Instance().tag_map_.end()) {
@@ -61,6 +62,7 @@ size_t Timing::GetHandle(std::string const& tag) {
 }
 
 std::string Timing::GetTag(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   std::string tag;
 
   // Perform a linear search for the tag.
@@ -104,40 +106,47 @@ void Timer::Stop() {
 bool Timer::IsTiming() const { return timing_; }
 
 void Timing::AddTime(size_t handle, double seconds) {
+  std::lock_guard<std::recursive_mutex> lock(mutex_);
   timers_[handle].acc_.Add(seconds);
 }
 
 double Timing::GetTotalSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Sum();
 }
 double Timing::GetTotalSeconds(std::string const& tag) {
   return GetTotalSeconds(GetHandle(tag));
 }
 double Timing::GetMeanSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Mean();
 }
 double Timing::GetMeanSeconds(std::string const& tag) {
   return GetMeanSeconds(GetHandle(tag));
 }
 size_t Timing::GetNumSamples(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.TotalSamples();
 }
 size_t Timing::GetNumSamples(std::string const& tag) {
   return GetNumSamples(GetHandle(tag));
 }
 double Timing::GetVarianceSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.LazyVariance();
 }
 double Timing::GetVarianceSeconds(std::string const& tag) {
   return GetVarianceSeconds(GetHandle(tag));
 }
 double Timing::GetMinSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Min();
 }
 double Timing::GetMinSeconds(std::string const& tag) {
   return GetMinSeconds(GetHandle(tag));
 }
 double Timing::GetMaxSeconds(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return Instance().timers_[handle].acc_.Max();
 }
 double Timing::GetMaxSeconds(std::string const& tag) {
@@ -145,6 +154,7 @@ double Timing::GetMaxSeconds(std::string const& tag) {
 }
 
 double Timing::GetHz(size_t handle) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   return 1.0 / Instance().timers_[handle].acc_.RollingMean();
 }
 
@@ -157,6 +167,7 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::Print(std::ostream& out) {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
   map_t& tagMap = Instance().tag_map_;
 
   if (tagMap.empty()) {
@@ -197,7 +208,15 @@ std::string Timing::Print() {
   return ss.str();
 }
 
-void Timing::Reset() { Instance().tag_map_.clear(); }
+void Timing::Reset() {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
+  Instance().tag_map_.clear();
+}
+
+Timing::map_t Timing::GetTimers() {
+  std::lock_guard<std::recursive_mutex> lock(Instance().mutex_);
+  return Instance().tag_map_;
+}
 
 }  // namespace timing
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From 25edae6e0665dc15b142bb58716567d6ddb2df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:27 +0000
Subject: [PATCH 25/27] fix: reading an unusable file of segments threw or
 replaced the caller's segments

---
 .../include/mav_trajectory_generation/io.h    |  6 ++--
 .../mav_trajectory_generation/src/io.cpp      | 30 +++++++++++++++++--
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
index b3ca603..270235e 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
@@ -57,9 +57,11 @@ inline bool trajectoryFromFile(
     const std::string& filename,
     mav_trajectory_generation::Trajectory* trajectory) {
   mav_trajectory_generation::Segment::Vector segments;
-  bool success = segmentsFromFile(filename, &segments);
+  if (!segmentsFromFile(filename, &segments)) {
+    return false;
+  }
   trajectory->setSegments(segments);
-  return success;
+  return true;
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index bfa5159..03f58b9 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -166,10 +166,11 @@ bool segmentsToFile(
   return true;
 }
 
-bool segmentsFromFile(const std::string& filename,
-                      mav_trajectory_generation::Segment::Vector* segments) {
-  CHECK_NOTNULL(segments);
+namespace {
 
+// Throws a YAML::Exception if the file cannot be parsed or converted.
+bool readSegments(const std::string& filename,
+                  mav_trajectory_generation::Segment::Vector* segments) {
   // Check file exists and is readable.
   std::ifstream in(filename);
   if (!in.good()) {
@@ -189,6 +190,9 @@ bool segmentsFromFile(const std::string& filename,
         // Header.
         int N = segments_yaml[i][kNumCoefficientsKey].as<int>();
         int D = segments_yaml[i][kDimKey].as<int>();
+        if (N < 0 || D < 0) {
+          return false;  // Not the size of anything.
+        }
         mav_trajectory_generation::Segment segment(N, D);
         uint64_t t = segments_yaml[i][kSegmentTimeKey].as<uint64_t>();
         segment.setTimeNSec(t);
@@ -218,6 +222,26 @@ bool segmentsFromFile(const std::string& filename,
   return true;
 }
 
+}  // namespace
+
+bool segmentsFromFile(const std::string& filename,
+                      mav_trajectory_generation::Segment::Vector* segments) {
+  CHECK_NOTNULL(segments);
+
+  // Only a file that was read completely replaces the caller's segments.
+  mav_trajectory_generation::Segment::Vector result;
+  try {
+    if (!readSegments(filename, &result)) {
+      return false;
+    }
+  } catch (const YAML::Exception& e) {
+    LOG(WARNING) << "Cannot read " << filename << ": " << e.what();
+    return false;
+  }
+  *segments = result;
+  return true;
+}
+
 bool sampledTrajectoryStatesToFile(const std::string& filename,
                                    const Trajectory& trajectory) {
   // Print to file for matlab
-- 
2.43.0


From d9b9b22c771686fc8ce3ab3b7a4b7c08b7ea0e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:27 +0000
Subject: [PATCH 26/27] fix: writers of files reported success when the data
 could not be written

---
 subpackages/mav_trajectory_generation/src/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index 03f58b9..ac997ce 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -163,7 +163,7 @@ bool segmentsToFile(
   fout << out.c_str();
   fout.close();
 
-  return true;
+  return fout.good();
 }
 
 namespace {
@@ -299,7 +299,7 @@ bool sampledTrajectoryStatesToFile(const std::string& filename,
   }
   fs << output;
   fs.close();
-  return true;
+  return fs.good();
 }
 
 }  // namespace mav_trajectory_generation
-- 
2.43.0


From 0c1380ce2879b3be2f62357105edce70d7aad430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:44 +0000
Subject: [PATCH 27/27] fix: reject vertices of another dimension than the
 optimisation, and mismatching sizes before anything is set up

---
 .../impl/polynomial_optimization_linear_impl.h         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 4f7c6f9..16ff2e9 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -64,6 +64,13 @@ bool PolynomialOptimization<_N>::setupFromVertices(
       << "th order polynomial. This is not possible, you either need a higher "
          "order polynomial or a smaller derivative to optimize.";
 
+  CHECK(vertices.size() == times.size() + 1)
+      << "Size of times must be one less than positions.";
+  for (const Vertex& vertex : vertices) {
+    CHECK(vertex.D() == static_cast<int>(dimension_))
+        << "Dimension of the vertices does not match the optimization.";
+  }
+
   derivative_to_optimize_ = derivative_to_optimize;
   vertices_ = vertices;
   segment_times_ = times;
@@ -73,9 +80,6 @@ bool PolynomialOptimization<_N>::setupFromVertices(
 
   segments_.resize(n_segments_, Segment(N, dimension_));
 
-  CHECK(n_vertices_ == times.size() + 1)
-      << "Size of times must be one less than positions.";
-
   inverse_mapping_matrices_.resize(n_segments_);
   cost_matrices_.resize(n_segments_);
 
-- 
2.43.0

