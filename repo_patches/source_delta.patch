From b0228de26245623680d10db9dfb7eb31f10c9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 01/23] fix: make the polar angle comparison of ring points a
 strict weak order

Two points on the x axis were each smaller than the other, and float
rounding and underflow made the order of other points inconsistent, so
that std::sort read out of bounds.
---
 .../include/lidar_feature_extraction/ring.hpp   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/extraction/include/lidar_feature_extraction/ring.hpp b/extraction/include/lidar_feature_extraction/ring.hpp
index bac6aa2..1fff57a 100644
--- a/extraction/include/lidar_feature_extraction/ring.hpp
+++ b/extraction/include/lidar_feature_extraction/ring.hpp
@@ -64,8 +64,14 @@ struct AHasSmallerPolarAngleThanB
       return false;
     }
 
-    const double lena = a.x * a.x + a.y * a.y;
-    const double lenb = b.x * b.x + b.y * b.y;
+    // products of two floats are exact in double, and can neither overflow nor underflow
+    const double ax = a.x;
+    const double ay = a.y;
+    const double bx = b.x;
+    const double by = b.y;
+
+    const double lena = ax * ax + ay * ay;
+    const double lenb = bx * bx + by * by;
 
     if (lena == 0) {
       if (b.y == 0) {
@@ -81,6 +87,9 @@ struct AHasSmallerPolarAngleThanB
     }
 
     if (a.y == 0) {
+      if (b.y == 0) {
+        return a.x > 0 && b.x < 0;
+      }
       return (a.x >= 0) && (b.y >= 0);
     }
 
@@ -89,8 +98,8 @@ struct AHasSmallerPolarAngleThanB
     }
 
     // both have the same y sign
-    if (a.y * b.y > 0) {
-      const double det = a.x * b.y - a.y * b.x;
+    if (ay * by > 0) {
+      const double det = ax * by - ay * bx;
       return det > 0;
     }
 
-- 
2.43.0


From 6f921f184bf23013dcdd7002690c7198859a9c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 02/23] fix: return the angle of parallel vectors instead of
 NaN

Rounding made the cosine of vectors with the same direction larger than one,
so that points on the same beam were not neighbours.
---
 extraction/src/math.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extraction/src/math.cpp b/extraction/src/math.cpp
index d12c786..0226336 100644
--- a/extraction/src/math.cpp
+++ b/extraction/src/math.cpp
@@ -26,6 +26,7 @@
 // ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 // POSSIBILITY OF SUCH DAMAGE.
 
+#include <algorithm>
 #include <stdexcept>
 
 #include "lidar_feature_extraction/math.hpp"
@@ -42,5 +43,6 @@ double CalcRadian(const double x1, const double y1, const double x2, const doubl
   }
 
   const double cos_angle = dot / (norm1 * norm2);
-  return std::acos(cos_angle);
+  // rounding may put the cosine of (anti)parallel vectors slightly outside [-1, 1]
+  return std::acos(std::clamp(cos_angle, -1., 1.));
 }
-- 
2.43.0


From f26bb5479e0517c6aba28a22123281f310301467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 03/23] fix: let Range return the requested interval

Range::operator()(begin, end) returned the first end - begin distances.
---
 extraction/include/lidar_feature_extraction/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/range.hpp b/extraction/include/lidar_feature_extraction/range.hpp
index 6474fdc..015b657 100644
--- a/extraction/include/lidar_feature_extraction/range.hpp
+++ b/extraction/include/lidar_feature_extraction/range.hpp
@@ -59,7 +59,7 @@ public:
   {
     std::vector<double> ranges(end - begin);
     for (unsigned int i = 0; i < ranges.size(); i++) {
-      ranges.at(i) = (*this)(i);
+      ranges.at(i) = (*this)(begin + i);
     }
     return ranges;
   }
-- 
2.43.0


From 95b92dad0666798d2a1c4823cac1fc6d393ec346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 04/23] fix: keep the iterator in ByValue by value

The reference dangled when the iterator had to be converted to a
const_iterator.
---
 extraction/include/lidar_feature_extraction/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/include/lidar_feature_extraction/algorithm.hpp b/extraction/include/lidar_feature_extraction/algorithm.hpp
index f02f89b..867ad1a 100644
--- a/extraction/include/lidar_feature_extraction/algorithm.hpp
+++ b/extraction/include/lidar_feature_extraction/algorithm.hpp
@@ -59,7 +59,7 @@ public:
   }
 
 private:
-  const typename std::vector<T>::const_iterator & begin_;
+  const Iterator begin_;
 };
 
 template<typename Iterator, typename T = ValueType<Iterator>>
-- 
2.43.0


From e4b4cc5db80fc795d84a475e8c2b09d9f34804d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 05/23] fix: do not process a cloud that was refused

A cloud with NaN points or without rings was reported but still processed;
sorting NaN points is undefined behavior.
---
 extraction/app/feature_extraction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extraction/app/feature_extraction.cpp b/extraction/app/feature_extraction.cpp
index a045f05..c767154 100644
--- a/extraction/app/feature_extraction.cpp
+++ b/extraction/app/feature_extraction.cpp
@@ -98,6 +98,7 @@ private:
         this->get_logger(),
         "Point cloud is not in dense format, please remove NaN points first!");
       rclcpp::shutdown();
+      return;
     }
 
     if (!RingIsAvailable(cloud_msg->fields)) {
@@ -105,6 +106,7 @@ private:
         this->get_logger(),
         "Ring channel could not be found");
       rclcpp::shutdown();
+      return;
     }
 
     pcl::PointCloud<PointXYZIR>::Ptr edge(new pcl::PointCloud<PointXYZIR>());
-- 
2.43.0


From 81b5e6d942c273f51601ca232c340dd3da46d1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 06/23] fix: map [min, max] to [0, 255] in ValueToColor

The result was out of the range of uint8_t for min != 0, which is undefined
behavior.
---
 extraction/src/color_points.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extraction/src/color_points.cpp b/extraction/src/color_points.cpp
index 73c5dbe..3e2636c 100644
--- a/extraction/src/color_points.cpp
+++ b/extraction/src/color_points.cpp
@@ -70,6 +70,6 @@ std::vector<uint8_t> LabelToColor(const PointLabel & label)
 std::vector<uint8_t> ValueToColor(const double value, const double min, const double max)
 {
   const double v = std::clamp(value, min, max);
-  const uint8_t c = static_cast<uint8_t>(255. * v / (max - min));
+  const uint8_t c = static_cast<uint8_t>(255. * (v - min) / (max - min));
   return std::vector<uint8_t>{c, c, c};
 }
-- 
2.43.0


From 13aa212a1be0c532e9b461c5472c4206185a930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 07/23] fix: compute block boundaries exactly so that no block
 is empty

---
 extraction/src/index_range.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/extraction/src/index_range.cpp b/extraction/src/index_range.cpp
index 44187f8..eac7898 100644
--- a/extraction/src/index_range.cpp
+++ b/extraction/src/index_range.cpp
@@ -27,6 +27,8 @@
 // POSSIBILITY OF SUCH DAMAGE.
 
 
+#include <cstdint>
+
 #include "lidar_feature_extraction/index_range.hpp"
 
 IndexRange::IndexRange(const int start_index, const int end_index, const int n_blocks)
@@ -59,10 +61,11 @@ int IndexRange::End(const int j) const
 
 int IndexRange::Boundary(const int j) const
 {
-  const double s = static_cast<double>(start_index_);
-  const double e = static_cast<double>(end_index_);
-  const double n = static_cast<double>(n_blocks_);
-  return static_cast<int>(s * (1. - j / n) + e * j / n);
+  // in integers, because the rounding of doubles can shift a boundary and leave a block empty
+  const std::int64_t s = start_index_;
+  const std::int64_t e = end_index_;
+  const std::int64_t n = n_blocks_;
+  return static_cast<int>((s * (n - j) + e * j) / n);
 }
 
 void IndexRange::ThrowExceptionIfOutOfRange(const int j) const
-- 
2.43.0


From 2fa84a5b1dd45aa010a9cfdaad005d5ee145ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 08/23] fix: define the destructor of KalmanFilter

---
 kalman_filter/src/kalman_filter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kalman_filter/src/kalman_filter.cpp b/kalman_filter/src/kalman_filter.cpp
index 1bb57e6..f356cb3 100644
--- a/kalman_filter/src/kalman_filter.cpp
+++ b/kalman_filter/src/kalman_filter.cpp
@@ -36,6 +36,8 @@ KalmanFilter::KalmanFilter(
   assert(!hasZeroElements(R));
 }
 
+KalmanFilter::~KalmanFilter() = default;
+
 void KalmanFilter::init(const Eigen::VectorXd & x, const Eigen::MatrixXd & P0)
 {
   assert(!hasZeroElements(x));
-- 
2.43.0


From 55bf55251dce858b1e8061aada3e9ad98a1aa925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 09/23] fix: saturate the delay step instead of overflowing int

---
 ekf_localizer/include/ekf_localizer/delay.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/delay.hpp b/ekf_localizer/include/ekf_localizer/delay.hpp
index e01d921..c2ca08f 100644
--- a/ekf_localizer/include/ekf_localizer/delay.hpp
+++ b/ekf_localizer/include/ekf_localizer/delay.hpp
@@ -16,6 +16,8 @@
 #define EKF_LOCALIZER__DELAY_HPP_
 
 #include <algorithm>
+#include <cmath>
+#include <limits>
 
 
 inline double ComputeDelayTime(
@@ -27,7 +29,13 @@ inline double ComputeDelayTime(
 
 inline int ComputeDelayStep(const double delay_time, const double dt)
 {
-  return std::roundf(std::max(delay_time, 0.) / dt);
+  if (delay_time <= 0.) {
+    return 0;
+  }
+  // A stale stamp or an empty time step leads to a number of steps that int cannot hold
+  const double step = std::round(delay_time / dt);
+  return step < std::numeric_limits<int>::max() ?
+         static_cast<int>(step) : std::numeric_limits<int>::max();
 }
 
 #endif  // EKF_LOCALIZER__DELAY_HPP_
-- 
2.43.0


From 372f92e0545f90a9642ffa8eabd7781f953f6bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 10/23] fix: process every pending measurement once per tick

---
 ekf_localizer/src/pose_measurement.cpp  | 4 +++-
 ekf_localizer/src/twist_measurement.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index 7da742a..dcab67a 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -78,7 +78,9 @@ void PoseMeasurement::Update(
 {
   const Eigen::Matrix<double, 3, 6> C = PoseMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  // A message that is used up leaves the queue while it is processed
+  const size_t n_messages = messages_.size();
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto pose = messages_.pop();
 
     CheckFrameId(warning_, pose->header.frame_id, frame_id_);
diff --git a/ekf_localizer/src/twist_measurement.cpp b/ekf_localizer/src/twist_measurement.cpp
index c6a60dc..3464511 100644
--- a/ekf_localizer/src/twist_measurement.cpp
+++ b/ekf_localizer/src/twist_measurement.cpp
@@ -74,7 +74,9 @@ void TwistMeasurement::Update(
 {
   const Eigen::Matrix<double, 2, 6> C = TwistMeasurementMatrix();
 
-  for (size_t i = 0; i < messages_.size(); ++i) {
+  // A message that is used up leaves the queue while it is processed
+  const size_t n_messages = messages_.size();
+  for (size_t i = 0; i < n_messages; ++i) {
     const auto twist = messages_.pop();
 
     CheckFrameId(warning_, twist->header.frame_id, "base_link");
-- 
2.43.0


From 51b99f5040851e416d4e6ddd846deaa27de7e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 11/23] fix: take the yaw innovation across the +-pi boundary

---
 ekf_localizer/src/pose_measurement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/src/pose_measurement.cpp b/ekf_localizer/src/pose_measurement.cpp
index dcab67a..e7148c2 100644
--- a/ekf_localizer/src/pose_measurement.cpp
+++ b/ekf_localizer/src/pose_measurement.cpp
@@ -93,13 +93,15 @@ void PoseMeasurement::Update(
       continue;
     }
 
-    const Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
+    Eigen::Vector3d y = PoseMeasurementVector(pose->pose.pose);
 
     if (!CheckMeasurementMatrixNanInf(warning_, y)) {
       continue;
     }
 
     const Eigen::Vector3d y_ekf = GetPoseState(ekf->getX(delay_step));
+    // Take the yaw difference across the +-pi boundary
+    y(2) = y_ekf(2) + normalizeYaw(y(2) - y_ekf(2));
     const Eigen::Matrix3d P_y = PoseCovariance(ekf->getLatestP());
 
     if (!CheckMahalanobisGate(warning_, gate_dist_, y_ekf, y, P_y)) {
-- 
2.43.0


From 4c8e52ce73d3ddd98acb4f0c2776042f8721121a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 12/23] fix: do not access the first character of an empty
 frame id

---
 ekf_localizer/src/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekf_localizer/src/string.cpp b/ekf_localizer/src/string.cpp
index be6884e..a033629 100644
--- a/ekf_localizer/src/string.cpp
+++ b/ekf_localizer/src/string.cpp
@@ -18,7 +18,7 @@
 std::string EraseBeginSlash(const std::string & s)
 {
   std::string a = s;
-  if (a.front() == '/') {
+  if (!a.empty() && a.front() == '/') {
     a.erase(0, 1);
   }
   return a;
-- 
2.43.0


From 5d337120a65bda3af4d65ef080c90aa3442b441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 13/23] fix: do not use messages as format strings

---
 ekf_localizer/include/ekf_localizer/warning.hpp | 8 ++++----
 ekf_localizer/src/ekf_localizer.cpp             | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ekf_localizer/include/ekf_localizer/warning.hpp b/ekf_localizer/include/ekf_localizer/warning.hpp
index d0b02cc..0d50b8c 100644
--- a/ekf_localizer/include/ekf_localizer/warning.hpp
+++ b/ekf_localizer/include/ekf_localizer/warning.hpp
@@ -30,17 +30,17 @@ public:
 
   void Info(const std::string & message) const
   {
-    RCLCPP_INFO(node_->get_logger(), message.c_str());
+    RCLCPP_INFO(node_->get_logger(), "%s", message.c_str());
   }
 
   void Warn(const std::string & message) const
   {
-    RCLCPP_WARN(node_->get_logger(), message.c_str());
+    RCLCPP_WARN(node_->get_logger(), "%s", message.c_str());
   }
 
   void Error(const std::string & message) const
   {
-    RCLCPP_ERROR(node_->get_logger(), message.c_str());
+    RCLCPP_ERROR(node_->get_logger(), "%s", message.c_str());
   }
 
   void WarnThrottle(
@@ -50,7 +50,7 @@ public:
     RCLCPP_WARN_THROTTLE(
       node_->get_logger(), *(node_->get_clock()),
       std::chrono::milliseconds(duration_milliseconds).count(),
-      message.c_str());
+      "%s", message.c_str());
   }
 
 private:
diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 6adb883..8d8f36f 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -185,7 +185,7 @@ void EKFLocalizer::timerCallback()
         const double dt = interval_.Compute(current_time.seconds());
         return std::make_optional<double>(dt);
       } catch (const std::invalid_argument & e) {
-        RCLCPP_WARN(this->get_logger(), e.what());
+        RCLCPP_WARN(this->get_logger(), "%s", e.what());
         return std::nullopt;
       }
     }();
-- 
2.43.0


From 6d8a415e15b7e1a675a07acc6923de56b2f1a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 14/23] fix: keep height, roll and pitch finite

---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index 6cf61a8..d1ac76a 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -21,6 +21,7 @@
 #include <tf2_ros/transform_listener.h>
 
 #include <chrono>
+#include <cmath>
 #include <iostream>
 #include <memory>
 #include <queue>
@@ -73,6 +74,10 @@ public:
   }
   void update(const double obs, const double obs_stddev, const rclcpp::Time time)
   {
+    if (!std::isfinite(obs) || !std::isfinite(obs_stddev)) {
+      return;
+    }
+
     if (!initialized_) {
       init(obs, obs_stddev, time);
       return;
@@ -84,7 +89,8 @@ public:
     stddev_ = std::sqrt(stddev_ * stddev_ + proc_stddev_x_d * proc_stddev_x_d);
 
     // Update step
-    double kalman_gain = stddev_ * stddev_ / (stddev_ * stddev_ + obs_stddev * obs_stddev);
+    const double variance = stddev_ * stddev_ + obs_stddev * obs_stddev;
+    double kalman_gain = variance > 0. ? stddev_ * stddev_ / variance : 0.;
     x_ = x_ + kalman_gain * (obs - x_);
     stddev_ = std::sqrt(1 - kalman_gain) * stddev_;
 
-- 
2.43.0


From 1c8a88b826c6647d68ff52fd201fcbddc6635a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 15/23] fix: ignore an initial pose whose frame cannot be
 resolved

---
 ekf_localizer/src/ekf_localizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 8d8f36f..08afff1 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -242,6 +242,7 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
       fmt::format(
         "TF transform failed. parent = {}, child = {}",
         params.pose_frame_id_, initialpose->header.frame_id));
+    return;
   }
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
-- 
2.43.0


From 9025ed0d44f6bda9a5954b832d22c8a2e9667153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 16/23] fix: restart height, roll and pitch from a new initial
 pose

---
 ekf_localizer/include/ekf_localizer/ekf_localizer.hpp | 6 ++++++
 ekf_localizer/src/ekf_localizer.cpp                   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
index d1ac76a..94ed9aa 100644
--- a/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
+++ b/ekf_localizer/include/ekf_localizer/ekf_localizer.hpp
@@ -97,6 +97,12 @@ public:
     latest_time_ = time;
     return;
   }
+  void reset()
+  {
+    initialized_ = false;
+    x_ = 0;
+    stddev_ = 1e9;
+  }
   void set_proc_stddev(const double proc_stddev) {proc_stddev_x_c_ = proc_stddev;}
   double get_x() {return x_;}
 
diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 08afff1..1b3833f 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -255,6 +255,9 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
   const Matrix6d P = InitCovariance(initialpose->pose.covariance);
   ekf_.reset(new TimeDelayKalmanFilter(x, P, params.extend_state_step_));
 
+  z_filter_.reset();
+  roll_filter_.reset();
+  pitch_filter_.reset();
   updateSimple1DFilters(*initialpose);
 
   pose_measurement_.Clear();
-- 
2.43.0


From 60e1694847c19e82a1a6fbe91e7f60493a2babce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 17/23] fix: rotate the initial position into the pose frame

---
 ekf_localizer/src/ekf_localizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ekf_localizer/src/ekf_localizer.cpp b/ekf_localizer/src/ekf_localizer.cpp
index 1b3833f..46d7d3a 100644
--- a/ekf_localizer/src/ekf_localizer.cpp
+++ b/ekf_localizer/src/ekf_localizer.cpp
@@ -247,7 +247,8 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
 
   const Eigen::Vector3d initial_position = ToVector3d(initialpose->pose.pose.position);
   const Eigen::Vector3d translation = ToVector3d(maybe_transform->transform.translation);
-  const Eigen::Vector3d t = initial_position + translation;
+  const Eigen::Quaterniond rotation = ToQuaterniond(maybe_transform->transform.rotation);
+  const Eigen::Vector3d t = rotation * initial_position + translation;
   const double initial_yaw = tf2::getYaw(initialpose->pose.pose.orientation);
   const double yaw = tf2::getYaw(maybe_transform->transform.rotation);
 
@@ -258,7 +259,9 @@ void EKFLocalizer::callbackInitialPose(PoseWithCovarianceStamped::SharedPtr init
   z_filter_.reset();
   roll_filter_.reset();
   pitch_filter_.reset();
-  updateSimple1DFilters(*initialpose);
+  PoseWithCovarianceStamped transformed_pose = *initialpose;
+  transformed_pose.pose.pose.position = MakePoint(t);
+  updateSimple1DFilters(transformed_pose);
 
   pose_measurement_.Clear();
   twist_measurement_.Clear();
-- 
2.43.0


From 727ea5b1028e4f0d238c7b99bc194635275f080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 18/23] fix: trim the stamped store without stepping before its
 first entry

---
 .../stamp_sorted_objects.hpp                        | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
index 1c600a1..c6c7de9 100644
--- a/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
+++ b/localization/include/lidar_feature_localization/stamp_sorted_objects.hpp
@@ -90,18 +90,7 @@ public:
     // g is the first element in map that satisfies timestamp < g
     const auto g = objects_.upper_bound(timestamp);
 
-    if (g == objects_.end()) {
-      return;
-    }
-
-    const auto boundary = std::prev(g);
-
-    auto curr = std::prev(objects_.end());
-    while (curr != boundary) {
-      auto prev = std::prev(curr);
-      objects_.erase(curr);
-      curr = prev;
-    }
+    objects_.erase(g, objects_.end());
   }
 
 private:
-- 
2.43.0


From d619ab390b73ce3f2c8edc30c4e2a3b742ff3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 19/23] fix: return only the neighbors that were found

---
 localization/src/kdtree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/localization/src/kdtree.cpp b/localization/src/kdtree.cpp
index ff77c76..5be4c85 100644
--- a/localization/src/kdtree.cpp
+++ b/localization/src/kdtree.cpp
@@ -55,8 +55,9 @@ std::tuple<Eigen::MatrixXd, std::vector<double>> KDTreeEigen::NearestKSearch(
   kdtree_->index->findNeighbors(result, &queryvec[0], nanoflann::SearchParams(10));
   // kdtree_->query(&query[0], n_neighbors, &indices[0], &distances[0]);
 
-  indices.resize(n_neighbors);
-  distances.resize(n_neighbors);
+  // The map can have less points than n_neighbors
+  indices.resize(result.size());
+  distances.resize(result.size());
 
   const Eigen::MatrixXd X = GetRows(map_, indices);
   return std::make_tuple(X, distances);
-- 
2.43.0


From f3f9fcf8e9852ba2c1385ecf9ad491f7fc2c2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 20/23] fix: do not broadcast a transform that is not finite

---
 map_tf_generator/src/map_tf_generator_node.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/map_tf_generator/src/map_tf_generator_node.cpp b/map_tf_generator/src/map_tf_generator_node.cpp
index 0c140da..bf04277 100644
--- a/map_tf_generator/src/map_tf_generator_node.cpp
+++ b/map_tf_generator/src/map_tf_generator_node.cpp
@@ -14,6 +14,7 @@
 
 #include <pcl/point_cloud.h>
 #include <pcl/point_types.h>
+#include <pcl/common/point_tests.h>
 #include <pcl_conversions/pcl_conversions.h>
 #include <tf2/LinearMath/Quaternion.h>
 #include <tf2_ros/static_transform_broadcaster.h>
@@ -56,13 +57,22 @@ private:
     PointCloud clouds;
     pcl::fromROSMsg<pcl::PointXYZ>(*clouds_ros, clouds);
 
-    const unsigned int sum = clouds.points.size();
+    unsigned int sum = 0;
     double coordinate[3] = {0, 0, 0};
-    for (unsigned int i = 0; i < sum; i++) {
+    for (unsigned int i = 0; i < clouds.points.size(); i++) {
+      if (!pcl::isFinite(clouds.points[i])) {
+        continue;
+      }
+      sum++;
       coordinate[0] += clouds.points[i].x;
       coordinate[1] += clouds.points[i].y;
       coordinate[2] += clouds.points[i].z;
     }
+    if (sum == 0) {
+      RCLCPP_WARN(get_logger(), "The map has no finite point. No tf is broadcast");
+      return;
+    }
+
     coordinate[0] = coordinate[0] / sum;
     coordinate[1] = coordinate[1] / sum;
     coordinate[2] = coordinate[2] / sum;
-- 
2.43.0


From 76b80e75e52dd93c1bba885f9089279119943663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:25 +0000
Subject: [PATCH 21/23] fix: convert clouds with a field in the four bytes
 after z

---
 point_type_converter/point_type_converter/convert.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 209b473..66a1100 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -181,19 +181,18 @@ class PointTypeConverter(Node):
             PointCloud2, '/points_converted', reliable_keep_all())
 
     def callback(self, input_cloud):
-        input_fields = input_cloud.fields
-        input_fields.append(make_point_field('padding', 12, np.float32, 1))
-        input_fields = sorted(input_fields, key=lambda f: f.offset)
+        input_fields = sorted(input_cloud.fields, key=lambda f: f.offset)
         unpacked = unpack_point_bytes(
             input_cloud.data, input_fields,
             input_cloud.point_step, input_cloud.is_bigendian)
 
         output_fields = make_fields()
+        data_fields = [f for f in output_fields if f.name != 'padding']
         unpacked = tuple(c for c in unpacked if nonzero(c))
-        filtered = filter_point_data(unpacked, input_fields, output_fields)
+        filtered = filter_point_data(unpacked, input_fields, data_fields)
 
         data = pack_point_data(
-            filtered, output_fields, output_point_step, False)
+            filtered, data_fields, output_point_step, False)
 
         output_cloud = PointCloud2()
         output_cloud.header = input_cloud.header
-- 
2.43.0


From fbcf20c82b2ea4312a002c874d1afaed548d12f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:25 +0000
Subject: [PATCH 22/23] fix: take x, y, z, intensity and ring by name and not
 by their order

---
 point_type_converter/point_type_converter/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/point_type_converter/point_type_converter/convert.py b/point_type_converter/point_type_converter/convert.py
index 66a1100..aa1ebb9 100644
--- a/point_type_converter/point_type_converter/convert.py
+++ b/point_type_converter/point_type_converter/convert.py
@@ -122,11 +122,12 @@ def split(collection, chunk_size):
 
 
 def find_indices(fields, retained_names):
-    return [i for i in range(len(fields)) if fields[i].name in retained_names]
+    names = [f.name for f in fields]
+    return [names.index(name) for name in retained_names]
 
 
 def filter_point_data(point_tuples, input_fields, output_fields):
-    output_names = {f.name for f in output_fields}
+    output_names = [f.name for f in output_fields]
     indices = find_indices(input_fields, output_names)
     return tuple(tuple(chunk[i] for i in indices) for chunk in point_tuples)
 
@@ -188,8 +189,8 @@ class PointTypeConverter(Node):
 
         output_fields = make_fields()
         data_fields = [f for f in output_fields if f.name != 'padding']
-        unpacked = tuple(c for c in unpacked if nonzero(c))
         filtered = filter_point_data(unpacked, input_fields, data_fields)
+        filtered = tuple(c for c in filtered if nonzero(c))
 
         data = pack_point_data(
             filtered, data_fields, output_point_step, False)
-- 
2.43.0


From 535051f81c53cad20f3f2102a8d72f558a3bb261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:45 +0000
Subject: [PATCH 23/23] fix: linearise the update at the quaternion the
 jacobians belong to

---
 .../include/lidar_feature_localization/optimizer.hpp        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/localization/include/lidar_feature_localization/optimizer.hpp b/localization/include/lidar_feature_localization/optimizer.hpp
index d6efc57..9e2caa2 100644
--- a/localization/include/lidar_feature_localization/optimizer.hpp
+++ b/localization/include/lidar_feature_localization/optimizer.hpp
@@ -110,7 +110,11 @@ public:
       prev_scale = scale;
 
       const Eigen::VectorXd weights = ComputeWeights(normalized);
-      const auto [dq, dt] = CalcUpdate(q, weights, jacobians, residuals);
+
+      // The jacobians are derivatives with respect to the quaternion computed from the pose,
+      // whose sign can differ from that of q
+      const Eigen::Quaterniond pose_q(pose.rotation());
+      const auto [dq, dt] = CalcUpdate(pose_q, weights, jacobians, residuals);
 
       q = q * dq;
       t = t + dt;
-- 
2.43.0

