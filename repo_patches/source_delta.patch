From ca7a2c43d5c860eb93c2fc798535a0056ba0a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 01/30] fix: use rolling_depth for the local scan matching
 window

The window start was computed as size - 10 whatever rolling_depth is: with a
smaller rolling_depth it wraps around and reads before the first scan, with a
larger one only 10 scans were used.
---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 711f683..7712b49 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -501,7 +501,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     if (!graph_->scans.empty())
     {
       // Determine rolling window
-      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - 10;
+      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
-- 
2.43.0


From fbb1162deed167ecce6662dff3488485fce4a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 02/30] fix: do not build an NDT from an empty range of scans

Without scans the bounding box is (max - min) of untouched limits, the NDT
constructor then converts -inf to size_t. Happens when localizing without a map.
---
 src/scan_matcher_ndt.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index daa1413..89b8f38 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -49,6 +49,13 @@ void ScanMatcherNDT::initialize(const std::string & name, rclcpp::Node * node, d
 void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
                               const std::vector<ScanPtr>::const_iterator& end)
 {
+  // Nothing to build a map from
+  if (begin == end)
+  {
+    ndt_.reset();
+    return;
+  }
+
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
   double max_x_ = std::numeric_limits<double>::min();
-- 
2.43.0


From a277e5a43590cb68df4577a8ba4b90b058581ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 03/30] fix: start the upper bounds of the NDT at lowest(), not
 min()

numeric_limits<double>::min() is a tiny positive number, so a map in the
negative quadrant was extended up to the origin.
---
 src/scan_matcher_ndt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 89b8f38..3be5488 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -58,9 +58,9 @@ void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
 
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
-  double max_x_ = std::numeric_limits<double>::min();
+  double max_x_ = std::numeric_limits<double>::lowest();
   double min_y_ = std::numeric_limits<double>::max();
-  double max_y_ = std::numeric_limits<double>::min();
+  double max_y_ = std::numeric_limits<double>::lowest();
   for (auto scan = begin; scan != end; ++scan)
   {
     Pose2d pose = (*scan)->getPose();
-- 
2.43.0


From 8af13c0fab2d64eaeceb9f32761eb532dd31117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 04/30] fix: subtract the mean in the scan matching covariance

The covariance is E[xx'] - E[x]E[x]' (Olson 2009, eq. 13).
---
 src/scan_matcher_ndt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 3be5488..4abe500 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -150,7 +150,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k + (1 / (s * s) * u * u.transpose());
+  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
 
   return best_score / scan_points_to_use;
 }
-- 
2.43.0


From b358eaf13dc318526b13a9dff4456830997c77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 05/30] fix: keep scan matching scores and covariance finite
 without overlap

A scan without points scored 0 / 0, and a scan without overlap had a covariance
of 0 / 0: the NaN reaches the typical matcher response, the particle weights and
the information of the odometry constraint.
---
 src/scan_matcher_ndt.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 4abe500..7f19e6c 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -149,6 +149,15 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
     }
   }
 
+  // Without any overlap, we know nothing beyond the size of the search window
+  if (s == 0.0)
+  {
+    covariance = Eigen::Vector3d(linear_size_ * linear_size_,
+                                 linear_size_ * linear_size_,
+                                 angular_size_ * angular_size_).asDiagonal();
+    return 0.0;
+  }
+
   // Compute covariance
   covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
 
@@ -162,8 +171,8 @@ double ScanMatcherNDT::scoreScan(const ScanPtr & scan) const
 
 double ScanMatcherNDT::scorePoints(const std::vector<Point> & points, const Pose2d & pose) const
 {
-  // Need a valid NDT
-  if (!ndt_) return 0.0;
+  // Need a valid NDT, and something to score
+  if (!ndt_ || points.empty()) return 0.0;
 
   // Transform points to the pose
   const Eigen::Isometry3d t = toEigen(pose);
-- 
2.43.0


From 4f9da4479f5ce3bb2e88c3faa356604ca45bdf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 06/30] fix: keep particle weights finite when every particle
 scores zero

---
 src/particle_filter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index eefcdc7..5d884a1 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -168,9 +168,17 @@ void ParticleFilter::updateStatistics()
   {
     sum_weight += w;
   }
-  for (auto & w : weights_)
+  if (sum_weight == 0.0)
+  {
+    // No particle is any better than another
+    weights_.assign(weights_.size(), 1.0 / weights_.size());
+  }
+  else
   {
-    w /= sum_weight;
+    for (auto & w : weights_)
+    {
+      w /= sum_weight;
+    }
   }
 
   // Temporary mean and correlation
-- 
2.43.0


From 048dadb20c2f5fddbc617f657d2fd63401949baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 07/30] fix: do not accumulate the heading variance over
 updates

---
 src/particle_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index 5d884a1..bedef0d 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -218,6 +218,7 @@ void ParticleFilter::updateStatistics()
   }
 
   // Compute covariance for theta
+  cov_(2, 2) = 0.0;
   for (size_t i = 0; i < particles_.size(); ++i)
   {
     double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));
-- 
2.43.0


From 57304b96f3cf549fa9147a0578cf7f245b6939d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 08/30] fix: bound the occupancy grid by the current scans,
 including their poses

The bounds were only extended for new scans, and only by their points: moving a
scan (graph optimization), loading a smaller map, or a pose outside of the bounding
box of all points made the raytracing write outside of the grid.
---
 include/ndt_2d/occupancy_grid.hpp |  3 +--
 src/occupancy_grid.cpp            | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/ndt_2d/occupancy_grid.hpp b/include/ndt_2d/occupancy_grid.hpp
index 1439e61..f68a4a1 100644
--- a/include/ndt_2d/occupancy_grid.hpp
+++ b/include/ndt_2d/occupancy_grid.hpp
@@ -60,9 +60,8 @@ private:
 
   double resolution_;
   double occ_thresh_;
-  // Bounds are recalculated when scan vector increases in size
+  // Bounds are recalculated for each message
   double min_x_, max_x_, min_y_, max_y_;
-  size_t num_scans_;
 };
 
 typedef std::shared_ptr<OccupancyGrid> OccupancyGridPtr;
diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d9257e6..3fa5af8 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -39,19 +39,15 @@ OccupancyGrid::OccupancyGrid(const double resolution, const double occ_thresh)
   min_x_(0),
   max_x_(0),
   min_y_(0),
-  max_y_(0),
-  num_scans_(0)
+  max_y_(0)
 {
 }
 
 void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
                            nav_msgs::msg::OccupancyGrid & grid)
 {
-  // Update size of the occupancy grid, if needed
-  if (scans.size() != num_scans_)
-  {
-    updateBounds(scans);
-  }
+  // Update size of the occupancy grid, scans might have been added or moved
+  updateBounds(scans);
 
   // Pad the map just a bit
   double pad = 5 * resolution_;
@@ -153,17 +149,22 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
 void OccupancyGrid::updateBounds(std::vector<ndt_2d::ScanPtr>& scans)
 {
-  size_t start_idx = num_scans_;
-  num_scans_ = scans.size();
+  min_x_ = max_x_ = min_y_ = max_y_ = 0.0;
 
-  // Iterate through new scans
-  for (size_t i = start_idx; i < num_scans_; ++i)
+  // Iterate through scans
+  for (size_t i = 0; i < scans.size(); ++i)
   {
     double x = scans[i]->getPose().x;
     double y = scans[i]->getPose().y;
     double cos_th = cos(scans[i]->getPose().theta);
     double sin_th = sin(scans[i]->getPose().theta);
 
+    // Rays start at the pose
+    min_x_ = std::min(x, min_x_);
+    max_x_ = std::max(x, max_x_);
+    min_y_ = std::min(y, min_y_);
+    max_y_ = std::max(y, max_y_);
+
     // Iterate through points in the scan
     for (auto & point : scans[i]->getPoints())
     {
-- 
2.43.0


From 598c64ed883156fd3e04a1b8cce058cf9d90bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 09/30] fix: pass the squared search radius to nanoflann

---
 src/graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 96b724f..b7137b4 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -178,7 +178,8 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   const double query[2] = {pose.x, pose.y};
   std::vector<std::pair<unsigned, double>> matches;
   nanoflann::SearchParams params;
-  tree.radiusSearch(query, dist, matches, params);
+  // Note: for L2 metrics, nanoflann expects the squared distance
+  tree.radiusSearch(query, dist * dist, matches, params);
 
   std::vector<size_t> indicies;
   for (size_t i = 0; i < matches.size(); ++i)
-- 
2.43.0


From af110195133180c91340d3c935898f10f0480b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 10/30] fix: do not abort when no constraint touches the first
 scan

---
 src/ceres_solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index f819d77..021bd71 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -87,6 +87,11 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
 
   // Make first node fixed
   auto first_node_ = nodes_.find(scans[0]->getId());
+  for (int i = 0; i < 3; ++i)
+  {
+    // Ceres aborts if the node isn't part of any constraint, so make sure it is known
+    problem_->AddParameterBlock(&first_node_->second(i), 1);
+  }
   problem_->SetParameterBlockConstant(&first_node_->second(0));
   problem_->SetParameterBlockConstant(&first_node_->second(1));
   problem_->SetParameterBlockConstant(&first_node_->second(2));
-- 
2.43.0


From a62d8e7001bfc7a3f5ca0f91522ad44ae026321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 11/30] fix: weight residuals by the upper Cholesky factor of
 the information

|L e|^2 is e'L'Le, not e'LL'e = e' information e.
---
 src/ceres_solver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index 021bd71..884dc5d 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -134,7 +134,8 @@ ceres::ResidualBlockId CeresSolver::addConstraint(const ConstraintPtr & constrai
   auto begin_node = nodes_.find(begin->getId());
   auto end_node = nodes_.find(end->getId());
 
-  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixL();
+  // With information = L * L^T, the squared residual is |L^T * error|^2
+  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixU();
 
   ceres::CostFunction * cost_function =
     PoseGraph2dErrorTerm::Create(constraint->transform(0),
-- 
2.43.0


From e426e349ff1919e7c34ff0ea1cc75b0c63a28947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 12/30] fix: release the ceres problem with the solver

---
 include/ndt_2d/ceres_solver.hpp | 3 ++-
 src/ceres_solver.cpp            | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ceres_solver.hpp b/include/ndt_2d/ceres_solver.hpp
index 5d87545..895a24f 100644
--- a/include/ndt_2d/ceres_solver.hpp
+++ b/include/ndt_2d/ceres_solver.hpp
@@ -31,6 +31,7 @@
 
 #include <Eigen/Core>
 #include <ceres/ceres.h>
+#include <memory>
 #include <unordered_map>
 #include <vector>
 #include <ndt_2d/graph.hpp>
@@ -59,7 +60,7 @@ private:
                                        std::vector<ScanPtr> & scans);
 
   // Incrementally build the problem to avoid large initialization time
-  ceres::Problem * problem_;
+  std::unique_ptr<ceres::Problem> problem_;
   ceres::Solver::Options options_;
 
   // Duplicate each node/scan pose so that failed optimizations don't break our map
diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index 884dc5d..689bd40 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -39,7 +39,7 @@ CeresSolver::CeresSolver()
   options_.max_num_iterations = 100;
   options_.linear_solver_type = ceres::SPARSE_NORMAL_CHOLESKY;
 
-  problem_ = new ceres::Problem();
+  problem_ = std::make_unique<ceres::Problem>();
 }
 
 void CeresSolver::setVerbose(bool verbose)
@@ -98,7 +98,7 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
 
   // Run the solver
   ceres::Solver::Summary summary;
-  ceres::Solve(options_, problem_, &summary);
+  ceres::Solve(options_, problem_.get(), &summary);
 
   if (!summary.IsSolutionUsable())
   {
-- 
2.43.0


From fdc61510c55c1cf2887474fbe9453e8d645b4376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 13/30] fix: do not score against a cell whose points are all
 the same

The covariance is singular, its inverse and the score are NaN.
---
 src/ndt_model.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index e1f9b7c..cfa958d 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -85,6 +85,11 @@ void Cell::compute()
   Eigen::Vector2d eigenvalues = solver.eigenvalues().real();
   double small = eigenvalues(0), large = eigenvalues(1);
   if (small > large) std::swap(small, large);
+  // All points are the same, there is no distribution
+  if (large <= 0.0)
+  {
+    return;
+  }
   if (small < 0.001 * large)
   {
     // Special case
@@ -104,7 +109,7 @@ void Cell::compute()
 
 double Cell::score(const Eigen::Vector2d & point)
 {
-  if (n < 5)
+  if (!valid || n < 5)
   {
     // Need at least five points for our mean/cov to be valid
     return 0.0;
-- 
2.43.0


From 23301487a656fca22bef4d2137af0be30a830681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 14/30] fix: check NDT bounds before converting the cell number
 to integer

---
 src/ndt_model.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index cfa958d..63a923a 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -207,18 +207,23 @@ double NDT::likelihood(const ScanPtr & scan)
 
 int NDT::getIndex(double x, double y)
 {
-  if (x < origin_x_ || y < origin_y_)
+  // Written such that NaN is outside
+  if (!(x >= origin_x_ && y >= origin_y_))
   {
     return -1;
   }
 
-  unsigned int grid_x = (x - origin_x_) / cell_size_;
-  unsigned int grid_y = (y - origin_y_) / cell_size_;
-  if (grid_x >= size_x_ || grid_y >= size_y_)
+  // Check before converting to integer, far away coordinates would wrap around
+  const double cells_x = (x - origin_x_) / cell_size_;
+  const double cells_y = (y - origin_y_) / cell_size_;
+  if (!(cells_x < size_x_ && cells_y < size_y_))
   {
     return -1;
   }
 
+  unsigned int grid_x = cells_x;
+  unsigned int grid_y = cells_y;
+
   return (grid_y * size_x_) + grid_x;
 }
 
-- 
2.43.0


From dc31a2576d8139bdc8176096efcdb5f4240f3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 15/30] fix: give the KD tree bins around zero the size of all
 others

Truncation put everything between -size and +size in one bin.
---
 include/ndt_2d/kd_tree.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/kd_tree.hpp b/include/ndt_2d/kd_tree.hpp
index 0012054..b9f0f34 100644
--- a/include/ndt_2d/kd_tree.hpp
+++ b/include/ndt_2d/kd_tree.hpp
@@ -30,6 +30,7 @@
 #define NDT_2D__KD_TREE_HPP_
 
 #include <Eigen/Core>
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <utility>
@@ -97,9 +98,9 @@ public:
   void insert(Eigen::Vector3d & cont_key, T & value)
   {
     int key[3];
-    key[0] = static_cast<int>(cont_key(0) / cell_size_(0));
-    key[1] = static_cast<int>(cont_key(1) / cell_size_(1));
-    key[2] = static_cast<int>(cont_key(2) / cell_size_(2));
+    key[0] = static_cast<int>(std::floor(cont_key(0) / cell_size_(0)));
+    key[1] = static_cast<int>(std::floor(cont_key(1) / cell_size_(1)));
+    key[2] = static_cast<int>(std::floor(cont_key(2) / cell_size_(2)));
 
     if (nodes_.empty())
     {
-- 
2.43.0


From 7f0ea74ba84ddf062784c9c1fc946dcaeba9b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 16/30] fix: drop beams of infinite range

REP 117 reports an object closer than range_min as -inf, which is not above
max_range: its point was added to the scan with infinite or NaN coordinates.
---
 src/ndt_mapper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 7712b49..8afd973 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -409,8 +409,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = msg->ranges.size() - 1; i > 0; --i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = -(msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
@@ -432,8 +432,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = (msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
-- 
2.43.0


From 8003cf112dc309c5d33a6ccbb5aaa6991ba76fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 17/30] fix: ignore laser scans without measurements

size() - 1 wrapped around: the inverted branch read ranges[SIZE_MAX], and the
end of the scan was looked up far in the future and divided by zero.
---
 src/ndt_mapper.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 8afd973..1a81d96 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -266,6 +266,13 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
 
 void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& msg)
 {
+  // Nothing can be done with a scan that has no measurements
+  if (msg->ranges.empty())
+  {
+    RCLCPP_WARN(logger_, "Ignoring laser scan without measurements");
+    return;
+  }
+
   // Save data from laser scan message
   if (range_max_ < 0) range_max_ = msg->range_max;
   if (laser_frame_ == "")
-- 
2.43.0


From fa97f9f6855a14f890dae3440affee53e2305fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 18/30] fix: use the first measurement of an inverted laser

---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 1a81d96..531c767 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -414,8 +414,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Using this scan, convert ROS msg into ndt_2d style scan
   if (laser_inverted_)
   {
-    for (size_t i = msg->ranges.size() - 1; i > 0; --i)
+    for (size_t n = msg->ranges.size(); n > 0; --n)
     {
+      size_t i = n - 1;
       // Filter out NANs, infinities and scans beyond max range
       if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
-- 
2.43.0


From 6a91705f14623dc45847b8c7af379c67eadc658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 19/30] fix: take the shortest rotation between start and end
 of a laser scan

When the heading crosses +-pi within one scan, the beams were spread over
a full turn of the robot.
---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 531c767..7a6a94f 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -393,7 +393,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   Pose2d translation = fromMsg(end_odom_pose_tf);
   translation.x -= odom_pose.x;
   translation.y -= odom_pose.y;
-  translation.theta -= odom_pose.theta;
+  translation.theta = angles::shortest_angular_distance(odom_pose.theta, translation.theta);
 
   // Now scale it by number of measurements
   Pose2d trans_per_meas;
-- 
2.43.0


From 78e32dcd7c8e4c2ffd1a0e235ed3f69c167834a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 20/30] fix: apply the movement during a laser scan in the
 robot frame

The movement was measured along the axes of the odometry frame but added to
points in the robot frame.
---
 src/ndt_mapper.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 7a6a94f..478a877 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -391,8 +391,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
   // Determine movement between start and end of laser scan
   Pose2d translation = fromMsg(end_odom_pose_tf);
-  translation.x -= odom_pose.x;
-  translation.y -= odom_pose.y;
+  double odom_dx = translation.x - odom_pose.x;
+  double odom_dy = translation.y - odom_pose.y;
+  // Points are in the robot frame (at start of laser scan), so movement must be as well
+  translation.x = cos(odom_pose.theta) * odom_dx + sin(odom_pose.theta) * odom_dy;
+  translation.y = -sin(odom_pose.theta) * odom_dx + cos(odom_pose.theta) * odom_dy;
   translation.theta = angles::shortest_angular_distance(odom_pose.theta, translation.theta);
 
   // Now scale it by number of measurements
-- 
2.43.0


From 6cf2bb9dfd775da11146e5b910567df40392d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 21/30] fix: apply movement to the beams of an inverted laser
 in order of time

The header stamp is the time of beam 0 for an inverted laser as well: beam i was
measured after i time increments, but got the movement of the time that remained.
---
 src/ndt_mapper.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 478a877..ee70eaf 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -430,11 +430,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       Point point(cos_lt * lp.x - sin_lt * lp.y + laser_transform_.x,
                   sin_lt * lp.x + cos_lt * lp.y + laser_transform_.y);
       // Apply laser movement
-      double cos_tt = cos(translation.theta - (trans_per_meas.theta * i));
-      double sin_tt = sin(translation.theta - (trans_per_meas.theta * i));
-      Point translated(
-        cos_tt * point.x - sin_tt * point.y +(translation.x - (trans_per_meas.x * i)),
-        sin_tt * point.x + cos_tt * point.y + (translation.y - (trans_per_meas.y * i)));
+      double cos_tt = cos(trans_per_meas.theta * i);
+      double sin_tt = sin(trans_per_meas.theta * i);
+      Point translated(cos_tt * point.x - sin_tt * point.y + (trans_per_meas.x * i),
+                       sin_tt * point.x + cos_tt * point.y + (trans_per_meas.y * i));
       // Add point to scan
       points.push_back(translated);
     }
-- 
2.43.0


From d60b715584a62c53264a4e12bd55256e186e8476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 22/30] fix: publish the map after an initial pose extends it,
 lock the poses it sets

The publishing thread could combine the new robot pose with the old odometry pose.
---
 src/ndt_mapper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index ee70eaf..2eb3b1d 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -253,9 +253,11 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     covariance(2, 2) = msg->pose.covariance[35];
     ConstraintPtr constraint = makeConstraint(graph_->scans[nearest[0]], scan, covariance);
     graph_->constraints.push_back(constraint);
+    map_update_available_ = true;
   }
 
   // Localize robot
+  std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
   prev_odom_pose_ = fromMsg(odom_to_robot);
   prev_odom_pose_is_initialized_ = true;
-- 
2.43.0


From 12cc6b4e420f0efb9e63542ef3b319889de834ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 23/30] fix: make the flags shared between the threads of the
 mapper atomic

map_update_available_, enable_mapping_ and typical_matcher_response_ are written in
callbacks and read or cleared in the loop closure and publishing threads.
---
 include/ndt_2d/ndt_mapper.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 9fe6ae4..3bb1ed0 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -32,6 +32,7 @@
 #include <tf2_ros/buffer.h>
 #include <tf2_ros/transform_listener.h>
 #include <tf2_ros/transform_broadcaster.h>
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <string>
@@ -75,7 +76,7 @@ protected:
 
   // Thread for publishing map and transforms
   void mapPublishThread();
-  bool map_update_available_;
+  std::atomic<bool> map_update_available_;
   std::unique_ptr<std::thread> map_publish_thread_;
 
   // Mapping parameters
@@ -104,7 +105,7 @@ protected:
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
   std::string scan_matcher_type_;
-  double typical_matcher_response_;
+  std::atomic<double> typical_matcher_response_;
 
   // ROS 2 interfaces
   rclcpp::Logger logger_;
@@ -121,7 +122,7 @@ protected:
   // Map data
   GraphPtr graph_;
   std::mutex graph_mutex_;
-  bool enable_mapping_;
+  std::atomic<bool> enable_mapping_;
   std::mutex prev_pose_mutex_;
   // The previous odom_frame_->robot_frame_
   Pose2d prev_odom_pose_;
-- 
2.43.0


From 4494cf1a8084cfdc320833441d6f37040c359c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 24/30] fix: hold the graph mutex wherever the graph is shared
 between threads

The loop closure thread moves scans that the laser callback reads to build its
matcher and constraint, and that the publishing thread reads; the publishing
thread also read the vector of scans while the callback extended it.
---
 src/ndt_mapper.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 2eb3b1d..c709e47 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -307,7 +307,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       // When localizing, global scan matcher uses ALL scans
       global_scan_matcher_ = scan_matcher_loader_.createSharedInstance(scan_matcher_type_);
       global_scan_matcher_->initialize("global_scan_matcher", this, range_max_);
-      // Note: no need to lock graph here, since this thread is the only one that adds scans
+      // Lock graph, loop closure may be moving scans
+      std::lock_guard<std::mutex> lock(graph_mutex_);
       global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
     }
     else
@@ -518,7 +519,11 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
       // Create scan matcher with rolling window scans
       local_scan_matcher_->reset();
-      local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      {
+        // Lock graph, loop closure may be moving scans
+        std::lock_guard<std::mutex> lock(graph_mutex_);
+        local_scan_matcher_->addScans(rolling, graph_->scans.end());
+      }
 
       // Local consistency - match new scan against last 10 scans
       Pose2d correction;
@@ -536,15 +541,16 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       scan->setPose(correction);
 
       // Add odom constraint to the graph
-      ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
       std::lock_guard<std::mutex> lock(graph_mutex_);
+      ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
       graph_->constraints.push_back(constraint);
     }
 
     RCLCPP_INFO(logger_, "Corrected: %f, %f, %f",
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
-    // Append new scan to our graph
+    // Append new scan to our graph, loop closure may move it from there on
+    robot_pose = scan->getPose();
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
       graph_->scans.push_back(scan);
@@ -553,7 +559,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     // Update previous pose tracking (under lock)
     std::lock_guard<std::mutex> lock(prev_pose_mutex_);
     prev_odom_pose_ = odom_pose;
-    prev_robot_pose_ = scan->getPose();
+    prev_robot_pose_ = robot_pose;
     map_update_available_ = true;
   }
   else
@@ -664,12 +670,12 @@ void Mapper::loopClosureThread()
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
+            lock.lock();  // lock before moving scan and adding constraint
             scan->setPose(correction);
 
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            lock.lock();  // lock before adding constraint
             graph_->constraints.push_back(constraint);
             map_update_available_ = true;
           }
@@ -726,7 +732,12 @@ void Mapper::mapPublishThread()
     }
 
     // Publish TF
-    if (!graph_->scans.empty())
+    bool have_scans;
+    {
+      std::lock_guard<std::mutex> lock(graph_mutex_);
+      have_scans = !graph_->scans.empty();
+    }
+    if (have_scans)
     {
       // Lock previous poses before accessing
       std::unique_lock<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


From 410d79c249d960719befb8aa608a5a24139f227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 25/30] fix: start loop closure over when a map is loaded

Loop closure kept the solver, which holds nodes and constraints of the previous
graph, and its indices into it: constraints of the new graph were not optimized
and scans could be accessed out of range.
---
 src/ndt_mapper.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index c709e47..9ccda05 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -586,6 +586,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
 void Mapper::loopClosureThread()
 {
+  // The graph that we have been working on
+  GraphPtr graph;
+
   while (rclcpp::ok())
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
@@ -600,7 +603,15 @@ void Mapper::loopClosureThread()
     size_t num_scans;
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      num_scans = graph_->scans.size();
+      if (graph != graph_)
+      {
+        // Another map was loaded, nothing that we remember applies to it
+        graph = graph_;
+        solver_ = std::make_shared<CeresSolver>();
+        global_scans_processed_ = 0;
+        optimization_last_ = 0;
+      }
+      num_scans = graph->scans.size();
     }
 
     // Can't do a global search until we have at least enough scans
@@ -629,8 +640,8 @@ void Mapper::loopClosureThread()
         std::vector<size_t> scans;
         {
           std::lock_guard<std::mutex> lock(graph_mutex_);
-          scan = graph_->scans[global_scans_processed_];
-          scans = graph_->findNearest(scan, global_search_size_, rolling);
+          scan = graph->scans[global_scans_processed_];
+          scans = graph->findNearest(scan, global_search_size_, rolling);
         }
 
         // Now do global loop closure scan matching
@@ -639,14 +650,14 @@ void Mapper::loopClosureThread()
         {
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
-          const auto candidate = graph_->scans[i];
+          const auto candidate = graph->scans[i];
           if (candidate->getPoints().empty()) continue;
 
           // Take one additional scan on either side of candidate
           size_t begin_idx = (i > 0) ? i - 1: i;
           size_t end_idx = (i < rolling) ? i + 1 : i;
-          auto begin = graph_->scans.begin() + begin_idx;
-          auto end = graph_->scans.begin() + end_idx;
+          auto begin = graph->scans.begin() + begin_idx;
+          auto end = graph->scans.begin() + end_idx;
 
           // Build NDT of candidate region
           global_scan_matcher_->reset();
@@ -676,7 +687,7 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            graph_->constraints.push_back(constraint);
+            graph->constraints.push_back(constraint);
             map_update_available_ = true;
           }
           else
@@ -695,8 +706,8 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      solver_->optimize(graph_->constraints, graph_->scans);
-      optimization_last_ = graph_->scans.size();
+      solver_->optimize(graph->constraints, graph->scans);
+      optimization_last_ = graph->scans.size();
       map_update_available_ = true;
     }
   }
-- 
2.43.0


From 5a228e9fcac3b0ca89505bdf70f2da5f7e662c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 26/30] fix: do not share the global scan matcher between
 threads without a lock

With a map loaded, loop closure used the matcher before the first laser scan had
created it. It also went on using it after mapping had been disabled.
---
 include/ndt_2d/ndt_mapper.hpp |  2 ++
 src/ndt_mapper.cpp            | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/ndt_2d/ndt_mapper.hpp b/include/ndt_2d/ndt_mapper.hpp
index 3bb1ed0..971729c 100644
--- a/include/ndt_2d/ndt_mapper.hpp
+++ b/include/ndt_2d/ndt_mapper.hpp
@@ -101,6 +101,8 @@ protected:
   // Scan matchers
   // Used for loop closure when mapping, and localization
   ScanMatcherPtr global_scan_matcher_;
+  // Protects the above, to be locked before graph_mutex_
+  std::mutex global_matcher_mutex_;
   // Used for odometric correction when mapping
   ScanMatcherPtr local_scan_matcher_;
   pluginlib::ClassLoader<ScanMatcher> scan_matcher_loader_;
diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 9ccda05..36996e9 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -300,6 +300,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       return;
     }
     laser_frame_ = msg->header.frame_id;
+    std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
 
     // range_max_ must be set before building the global scan matcher NDT
     if (use_particle_filter_ || !enable_mapping_)
@@ -484,7 +485,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
                          robot_delta(1), robot_delta(2));
 
     filter_->update(robot_delta(0), robot_delta(1), robot_delta(2));
-    filter_->measure(global_scan_matcher_, scan);
+    {
+      std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
+      filter_->measure(global_scan_matcher_, scan);
+    }
     filter_->resample(kld_err_, kld_z_);
 
     auto mean = filter_->getMean();
@@ -567,8 +571,10 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     // Not using particle filter, nor mapping, just track motion of robot
     Pose2d correction;
     Eigen::Matrix3d covariance;
+    std::unique_lock<std::mutex> matcher_lock(global_matcher_mutex_);
     double uncorrected_score = global_scan_matcher_->scoreScan(scan);
     double score = global_scan_matcher_->matchScan(scan, correction, covariance);
+    matcher_lock.unlock();
     RCLCPP_INFO(logger_, "           %f, %f, %f (%f -> %f)",
                 correction.x, correction.y, correction.theta, uncorrected_score, score);
 
@@ -599,6 +605,12 @@ void Mapper::loopClosureThread()
       continue;
     }
 
+    // The matcher is created when the first laser scan arrives
+    {
+      std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
+      if (!global_scan_matcher_) continue;
+    }
+
     // Determine number of scans (under lock)
     size_t num_scans;
     {
@@ -648,6 +660,10 @@ void Mapper::loopClosureThread()
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
+          // The matcher is not ours when localizing
+          std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
+          if (!enable_mapping_) break;
+
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
           const auto candidate = graph->scans[i];
-- 
2.43.0


From 01c1075c782b5332ce8a16e87a4c8deb47680472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 27/30] fix: localize against the current map after mapping is
 disabled or a map loaded

The global scan matcher kept the region of the last loop closure, the map loaded
at start or, if mapping was enabled at start, nothing at all.
---
 src/ndt_mapper.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 36996e9..e7760e7 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -256,6 +256,18 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     map_update_available_ = true;
   }
 
+  // When localizing, global scan matcher uses ALL scans: mapping or loading may have changed them
+  if (use_particle_filter_ || !enable_mapping_)
+  {
+    std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
+    std::lock_guard<std::mutex> lock(graph_mutex_);
+    if (global_scan_matcher_)
+    {
+      global_scan_matcher_->reset();
+      global_scan_matcher_->addScans(graph_->scans.begin(), graph_->scans.end());
+    }
+  }
+
   // Localize robot
   std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
-- 
2.43.0


From 5a08ab20bb24dfa15f41c2fbbf140daf7eb3d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 28/30] fix: do not map while localizing with the particle
 filter

Loop closure ran over the loaded map: it changed the graph and replaced the scans
in the global scan matcher, against which the particles are measured.
---
 src/ndt_mapper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index e7760e7..fa0f3c8 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -88,6 +88,11 @@ Mapper::Mapper(const rclcpp::NodeOptions & options)
   }
 
   enable_mapping_ = this->declare_parameter<bool>("enable_mapping", true);
+  if (use_particle_filter_ && enable_mapping_)
+  {
+    RCLCPP_WARN(logger_, "Particle filter is for localization only, disabling mapping");
+    enable_mapping_ = false;
+  }
   scan_matcher_type_ = this->declare_parameter<std::string>("scan_matcher_type",
                                                             "ndt_2d::ScanMatcherNDT");
 
@@ -158,8 +163,15 @@ void Mapper::configure(const std::shared_ptr<srv::Configure::Request> request,
   // Enable/disable
   if (request->action & srv::Configure::Request::ENABLE_MAPPING)
   {
-    RCLCPP_INFO(logger_, "Enabling mapping");
-    enable_mapping_ = true;
+    if (use_particle_filter_)
+    {
+      RCLCPP_ERROR(logger_, "Cannot enable mapping while using particle filter");
+    }
+    else
+    {
+      RCLCPP_INFO(logger_, "Enabling mapping");
+      enable_mapping_ = true;
+    }
   }
   else if (request->action & srv::Configure::Request::DISABLE_MAPPING)
   {
-- 
2.43.0


From 9b33851351015ff995a4dd720c236a2213f3e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 29/30] fix: include the scan after the candidate in loop
 closure

addScans() excludes the end of the range.
---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index fa0f3c8..ee2f6f1 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -695,7 +695,7 @@ void Mapper::loopClosureThread()
 
           // Take one additional scan on either side of candidate
           size_t begin_idx = (i > 0) ? i - 1: i;
-          size_t end_idx = (i < rolling) ? i + 1 : i;
+          size_t end_idx = (i + 1 < rolling) ? i + 2 : i + 1;
           auto begin = graph->scans.begin() + begin_idx;
           auto end = graph->scans.begin() + end_idx;
 
-- 
2.43.0


From d214d3a4b3574ecd041ff2bb3f6f67f99a0e4696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 30/30] fix: global_search_limit of zero means no candidates,
 not all of them

---
 src/ndt_mapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index ee2f6f1..de30c3f 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -684,6 +684,8 @@ void Mapper::loopClosureThread()
         size_t num_scans_to_check = global_search_limit_;
         for (auto i : scans)
         {
+          if (num_scans_to_check == 0) break;
+
           // The matcher is not ours when localizing
           std::lock_guard<std::mutex> matcher_lock(global_matcher_mutex_);
           if (!enable_mapping_) break;
@@ -736,7 +738,7 @@ void Mapper::loopClosureThread()
                                  candidate->getId(), scan->getId(), score);
           }
 
-          if (--num_scans_to_check == 0) break;
+          --num_scans_to_check;
         }
       }
     }
-- 
2.43.0

