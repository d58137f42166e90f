From 4cb070ba063344de9be0c5302301dcce2cab567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:37 +0000
Subject: [PATCH 01/19] fix: clear inliers before refilling them in the
 unrestricted axis range filter

Calling Filter() twice on the same input appended every index a second
time when no limit was configured.
---
 pre_processors/filter_axis_range.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pre_processors/filter_axis_range.cc b/pre_processors/filter_axis_range.cc
index f25513c..0426464 100644
--- a/pre_processors/filter_axis_range.cc
+++ b/pre_processors/filter_axis_range.cc
@@ -50,6 +50,7 @@ void AxisRange::Filter(const data::InnerCloudType::Ptr& cloud) {
   if (min_ == -std::numeric_limits<float>::max() &&
       max_ == std::numeric_limits<float>::max()) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
-- 
2.43.0


From 6613192d7eadffbb05e33cb584aea6773440d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:37 +0000
Subject: [PATCH 02/19] fix: clear inliers before refilling them in the
 keep-all random sampler

Calling Filter() twice on the same input appended every index a second
time when the sampling rate was 1.
---
 pre_processors/filter_random_sample.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pre_processors/filter_random_sample.cc b/pre_processors/filter_random_sample.cc
index 5c5c68d..1e1797f 100644
--- a/pre_processors/filter_random_sample.cc
+++ b/pre_processors/filter_random_sample.cc
@@ -43,6 +43,7 @@ void RandomSampler::Filter(const data::InnerCloudType::Ptr& cloud) {
   }
   if (sampling_rate_ > 0.999) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
-- 
2.43.0


From f2b938402b71c27dbf0189ee7d8c810d83eeeded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:58 +0000
Subject: [PATCH 03/19] fix: divide time stamps by the smallest int without
 overflow

Negating INT_MIN overflowed, so the quotient came out negative and the
stored time was garbage.
---
 common/simple_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/simple_time.cc b/common/simple_time.cc
index 420f22e..a507697 100644
--- a/common/simple_time.cc
+++ b/common/simple_time.cc
@@ -86,7 +86,7 @@ SimpleTime &SimpleTime::operator/=(const int &a) {
     return *this;
   }
 
-  int div = a;
+  int64_t div = a;
   if (div < 0) {
     PRINT_WARNING("/a -> /(-a)!");
     div = -div;
-- 
2.43.0


From eddd586248a45974cdb26b854697ebf939ca709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:29 +0000
Subject: [PATCH 04/19] fix: accept rounding when building a cube from two
 corners

Splitting a cube twice aborted for most centres and sizes, because the
edge lengths recomputed from the corners differ in the last digit.
---
 common/bounding_box.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/bounding_box.cc b/common/bounding_box.cc
index 3274604..c962c96 100644
--- a/common/bounding_box.cc
+++ b/common/bounding_box.cc
@@ -41,8 +41,8 @@ CubeBoundingBox::CubeBoundingBox(const Eigen::Vector3d& min,
       max_(max),
       size_(max[0] - min[0]),
       half_size_(0.5 * size_) {
-  CHECK_DOUBLE_EQ(max[1] - min[1], size_);
-  CHECK_DOUBLE_EQ(max[2] - min[2], size_);
+  CHECK_NEAR(max[1] - min[1], size_, 1e-6);
+  CHECK_NEAR(max[2] - min[2], size_, 1e-6);
 }
 
 std::vector<CubeBoundingBox> CubeBoundingBox::GenerateSubBoxes() const {
-- 
2.43.0


From fda0da8ec58ad46fbf0475224b17b0be000f506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:24 +0000
Subject: [PATCH 05/19] fix: do not translate the normals of a transformed
 cloud

---
 builder/data/cloud_types.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 67bc517..4bea08e 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -296,6 +296,8 @@ void EigenPointCloud::ApplyTransform(const Eigen::Matrix4d& transform) {
 
   if (normals.cols() > 0) {
     CHECK_EQ(normals.cols(), points_count);
+    // Normals are directions, they do not move with the translation.
+    homo_data.setConstant(0.);
     homo_data.block(0, 0, 3, points_count) = normals;
     normals = (transform * homo_data).block(0, 0, 3, points_count);
   }
-- 
2.43.0


From 2da92da080ea46f5016f34d61184e3cb8716de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:24 +0000
Subject: [PATCH 06/19] fix: use the given motion in motion compensation
 instead of an uninitialised matrix

---
 builder/data/cloud_types.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 4bea08e..892384e 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -311,11 +311,11 @@ void EigenPointCloud::ApplyMotionCompensation(
   CHECK_EQ(cloud_size, factors.size());
 
   for (size_t i = 0; i < cloud_size; ++i) {
-    const Eigen::Matrix4d transform = common::InterpolateTransform(
+    const Eigen::Matrix4d point_transform = common::InterpolateTransform(
         Eigen::Matrix4d::Identity().eval(), transform, factors[i]);
     const Eigen::Vector3d new_point_start =
-        transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
-        transform.block(0, 3, 3, 1);
+        point_transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
+        point_transform.block(0, 3, 3, 1);
     points.col(i).topRows(3) = new_point_start;
   }
 
-- 
2.43.0


From f6c3befcb861e4fc9698a9df6a8a50a9822bf55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:24 +0000
Subject: [PATCH 07/19] fix: report failure when a saved cloud ends inside a
 point

---
 builder/data/cloud_types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 892384e..fcdac43 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -155,7 +155,7 @@ int InnerPointType::Serialize(std::fstream* stream) const {
 int InnerPointType::Deserialize(std::fstream* stream) {
   if (stream && stream->is_open()) {
     stream->read(reinterpret_cast<char*>(this), sizeof(InnerPointType));
-    if (stream->good() || stream->eof()) {
+    if (stream->good()) {
       return sizeof(InnerPointType);
     } else {
       return -1;
-- 
2.43.0


From 97a73996cbd026ca162586af824aa846a189ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:24 +0000
Subject: [PATCH 08/19] fix: set width and height when converting to a pcl
 cloud

---
 builder/data/cloud_types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index fcdac43..8080b4d 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -280,7 +280,7 @@ void ToPclPointCloud(const InnerCloudType& cloud,
     for (const auto& point : cloud.points) {
       PointT pcl_point;
       ToPclPoint(point, &pcl_point);
-      pcl_cloud->points.push_back(pcl_point);
+      pcl_cloud->push_back(pcl_point);
     }
   }
 }
-- 
2.43.0


From 234bb323d09a9ba40f3378882ebb63c1920452b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:57 +0000
Subject: [PATCH 09/19] fix: start the view graph's upper bounds at the lowest
 value

---
 back_end/view_graph.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/back_end/view_graph.cc b/back_end/view_graph.cc
index b199c66..381bdda 100644
--- a/back_end/view_graph.cc
+++ b/back_end/view_graph.cc
@@ -35,8 +35,8 @@ namespace back_end {
 ViewGraph::ViewGraph() {
   min_bounding_ << std::numeric_limits<double>::max(),
       std::numeric_limits<double>::max();
-  max_bounding_ << std::numeric_limits<double>::min(),
-      std::numeric_limits<double>::min();
+  max_bounding_ << std::numeric_limits<double>::lowest(),
+      std::numeric_limits<double>::lowest();
 }
 
 void ViewGraph::AddEdge(const int64_t a, const int64_t b,
-- 
2.43.0


From de7a393a605e266f2457f65645b0d4f5e2bf34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:05:11 +0000
Subject: [PATCH 10/19] fix: configure the submap voxel filter under its own
 name

---
 builder/submap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/submap.cc b/builder/submap.cc
index c643af4..0133ce4 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -146,7 +146,7 @@ void Submap::InsertFrame(const std::shared_ptr<Frame>& frame) {
       pre_processers::filter::VoxelGrid voxel_filter;
 
       const std::string filter_config_text =
-          "<filter name=\"RandomSampler\" >"
+          "<filter name=\"VoxelGrid\" >"
           "<param type=\"1\" name=\"voxel_size\">" +
           std::to_string(options_.voxel_size) +
           "</param>"
-- 
2.43.0


From 45444d757febfa9224c1530d6cf7fc01ba27c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:32 +0000
Subject: [PATCH 11/19] fix: synchronise the cloud pre-processing thread with
 its users

The worker looked at the queue of incoming clouds without holding its lock and
polled a plain bool which the destructor sets from another thread. Check the
queue under the lock and make the flag atomic.
---
 builder/data/data_collector.cc | 14 ++++++++------
 builder/data/data_collector.h  |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 42461d3..0b5c3b2 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -122,16 +122,18 @@ void DataCollector::CloudPreProcessing() {
     if (kill_cloud_preprocessing_thread_) {
       break;
     }
-    if (cloud_data_before_preprocessing_.empty()) {
-      SimpleTime::FromSec(0.005).Sleep();
-      continue;
-    }
 
     InnerCloudType::Ptr data;
     {
       Locker locker(mutex_[kPointCloudData]);
-      data = cloud_data_before_preprocessing_.front();
-      cloud_data_before_preprocessing_.pop_front();
+      if (!cloud_data_before_preprocessing_.empty()) {
+        data = cloud_data_before_preprocessing_.front();
+        cloud_data_before_preprocessing_.pop_front();
+      }
+    }
+    if (data == nullptr) {
+      SimpleTime::FromSec(0.005).Sleep();
+      continue;
     }
 
     // filtering cloud
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index f5c7154..1693c00 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -137,7 +137,7 @@ class DataCollector {
   std::deque<InnerCloudType::Ptr> cloud_data_;
   std::deque<InnerCloudType::Ptr> cloud_data_before_preprocessing_;
 
-  bool kill_cloud_preprocessing_thread_ = false;
+  std::atomic_bool kill_cloud_preprocessing_thread_{false};
   std::thread cloud_processing_thread_;
   pre_processers::filter::Factory* filter_factory_;
   std::vector<ImuData> imu_data_;
-- 
2.43.0


From bece971116caf7c0cce6929315325396873f6d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:32 +0000
Subject: [PATCH 12/19] fix: lock the gps and odometry data in the data
 collector's readers

GetGpsReference, RawGpsDataToFile and RawOdomDataToFile read data which
AddSensorData may be changing in another thread at the same time.
---
 builder/data/data_collector.cc | 3 +++
 builder/data/data_collector.h  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 0b5c3b2..ed6edfc 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -57,6 +57,7 @@ DataCollector::~DataCollector() {
 }
 
 void DataCollector::RawGpsDataToFile(const std::string& filename) const {
+  Locker locker(mutex_[kGpsData]);
   if (!enu_path_cloud_.empty()) {
     PRINT_INFO_FMT("output raw gps data into file: %s", filename.c_str());
     pcl::io::savePCDFileBinaryCompressed(filename, enu_path_cloud_);
@@ -64,6 +65,7 @@ void DataCollector::RawGpsDataToFile(const std::string& filename) const {
 }
 
 void DataCollector::RawOdomDataToFile(const std::string& filename) const {
+  Locker locker(mutex_[kOdometryData]);
   if (!odom_path_cloud_.empty()) {
     PRINT_INFO_FMT("output raw odom data into file: %s", filename.c_str());
     pcl::io::savePCDFileBinaryCompressed(filename, odom_path_cloud_);
@@ -299,6 +301,7 @@ std::unique_ptr<Eigen::Matrix4d> DataCollector::InterpolateOdom(
 
 boost::optional<GeographicLib::LocalCartesian> DataCollector::GetGpsReference()
     const {
+  Locker locker(mutex_[kGpsData]);
   return reference_gps_point_;
 }
 
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index 1693c00..68de076 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -131,7 +131,7 @@ class DataCollector {
  private:
   /// every kind of data has its own mutex
   /// avoiding resource competition between different kind of data
-  std::mutex mutex_[kDataTypeCount];
+  mutable std::mutex mutex_[kDataTypeCount];
   const DataCollectorOptions options_;
 
   std::deque<InnerCloudType::Ptr> cloud_data_;
-- 
2.43.0


From 1affe2d74d0e5c92dfc73554021c7102b93cfddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:06 +0000
Subject: [PATCH 13/19] fix: refuse an incomplete file when a cloud is loaded
 again

The result of reading the file was ignored, so a file cut off in the
middle was taken as the whole cloud.
---
 builder/data/cloud_types.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 8080b4d..d3899cd 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -448,7 +448,8 @@ bool InnerPointCloudData::CloudInMemory() {
     InnerCloudType::Ptr inner_cloud(new InnerCloudType);
     std::fstream bin_fs(filename_, std::ios::in | std::ios::binary);
     CHECK(bin_fs.is_open()) << "Could not open file: " << filename_;
-    inner_cloud->Deserialize(&bin_fs);
+    CHECK_GE(inner_cloud->Deserialize(&bin_fs), 0)
+        << "Could not read file: " << filename_;
     bin_fs.close();
 
     SetInnerCloudImpl(inner_cloud);
-- 
2.43.0


From 9769c9959ff1620856029195388890d8a5b98cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:06 +0000
Subject: [PATCH 14/19] fix: do not load an outdated file for a changed cloud

A cloud which was saved, then replaced or transformed and released,
came back as it was before the change.
---
 builder/data/cloud_types.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index d3899cd..4897787 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -397,6 +397,8 @@ void InnerPointCloudData::Clear() {
 void InnerPointCloudData::TransformCloud(const Eigen::Matrix4d& T) {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
+  // The file, if any, does not hold this cloud anymore.
+  filename_.clear();
   if (!EmptyImpl()) {
     inner_cloud_->ApplyTransformInplace(T);
   }
@@ -414,6 +416,8 @@ void InnerPointCloudData::CalculateNormals() {
 void InnerPointCloudData::SetInnerCloud(const InnerCloudType::Ptr cloud) {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
+  // The file, if any, does not hold this cloud anymore.
+  filename_.clear();
   SetInnerCloudImpl(cloud);
 }
 
-- 
2.43.0


From 609003194953f25cbe8b25b7200b333d1fcf2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:34:32 +0000
Subject: [PATCH 15/19] fix: drop an outdated prediction when a pose is added

A prediction already made for the time of the added pose was returned
instead of that pose.
---
 builder/pose_extrapolator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index be3ff6a..64a0f39 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -90,10 +90,11 @@ SimpleTime PoseExtrapolator::GetLastExtrapolatedTime() {
 void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
   common::MutexLocker locker(&mutex_);
   timed_pose_queue_.emplace_back(time, pose);
+  // A pose extrapolated from the former poses is outdated.
+  cached_extrapolated_pose_.time = time;
+  cached_extrapolated_pose_.pose = pose;
   if (timed_pose_queue_.size() == 1u) {
     // It's the first pose and the only pose.
-    cached_extrapolated_pose_.time = time;
-    cached_extrapolated_pose_.pose = pose;
     return;
   }
 
-- 
2.43.0


From d02b99fd3caa06a771e9214835d0337fdf314904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:17:20 +0000
Subject: [PATCH 16/19] fix: keep an empty output directory of the
 configuration empty

An empty export_file_path or map_package_path passed the directory check and
then had back() called on it. The result was undefined, usually the file system
root. An empty name now stays empty and means the working directory.
---
 builder/map_builder_options.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/map_builder_options.cc b/builder/map_builder_options.cc
index f3ebe7d..26a5d9d 100644
--- a/builder/map_builder_options.cc
+++ b/builder/map_builder_options.cc
@@ -113,14 +113,16 @@ MapBuilderOptions& MapBuilder::Initialise(const char* config_file_name) {
   GET_SINGLE_OPTION(static_map_node, "whole_options", "export_file_path",
                     whole_options.export_file_path, string, string);
   CHECK(common::CreateDir(whole_options.export_file_path)) << strerror(errno);
-  if (whole_options.export_file_path.back() != '/') {
+  if (!whole_options.export_file_path.empty() &&
+      whole_options.export_file_path.back() != '/') {
     whole_options.export_file_path += "/";
   }
 
   GET_SINGLE_OPTION(static_map_node, "whole_options", "map_package_path",
                     whole_options.map_package_path, string, string);
   CHECK(common::CreateDir(whole_options.map_package_path)) << strerror(errno);
-  if (whole_options.map_package_path.back() != '/') {
+  if (!whole_options.map_package_path.empty() &&
+      whole_options.map_package_path.back() != '/') {
     whole_options.map_package_path += "/";
   }
 
-- 
2.43.0


From 76abab4de8b44a7675fec457ffa1a59696983cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:54:01 +0000
Subject: [PATCH 17/19] fix: set up the attitude trackers with the first pose

AddPose returned before creating them when it was given the first pose. A
predictor made by InitializeWithImu and asked for a pose then dereferenced a
null tracker.
---
 builder/pose_extrapolator.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 64a0f39..4250a84 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -93,11 +93,6 @@ void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
   // A pose extrapolated from the former poses is outdated.
   cached_extrapolated_pose_.time = time;
   cached_extrapolated_pose_.pose = pose;
-  if (timed_pose_queue_.size() == 1u) {
-    // It's the first pose and the only pose.
-    return;
-  }
-
   while (timed_pose_queue_.size() > 2 &&
          timed_pose_queue_[1].time <= time - pose_queue_duration_) {
     timed_pose_queue_.pop_front();
-- 
2.43.0


From a84cefd155821e7bdb37860ab74d533c35508e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:54:01 +0000
Subject: [PATCH 18/19] fix: take the rotation of the newest pose when adding
 odometry

AddOdometryData built a 3x3 matrix from the 3x1 translation of the pose, which
Eigen refuses at run time.
---
 builder/pose_extrapolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 4250a84..d5f951d 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -161,7 +161,7 @@ void PoseExtrapolator::AddOdometryData(const data::OdomMsg& odometry_data) {
           common::Translation(odometry_pose_delta) / odometry_time_delta;
   const Eigen::Quaterniond orientation_at_newest_odometry_time =
       Eigen::Quaterniond(
-          Eigen::Matrix3d(timed_pose_queue_.back().pose.block(0, 3, 3, 1))) *
+          Eigen::Matrix3d(timed_pose_queue_.back().pose.block(0, 0, 3, 3))) *
       ExtrapolateRotation(odometry_data_newest.header.stamp,
                           odometry_imu_tracker_.get());
   linear_velocity_from_odometry_ =
-- 
2.43.0


From 17116ba4f717c7480d1a049aee2a958066374c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:10:52 +0000
Subject: [PATCH 19/19] fix: keep the file name of a message per thread

The buffer was shared: two threads printing a message at the same time
wrote to it together.
---
 common/macro_defines.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/macro_defines.cc b/common/macro_defines.cc
index 4fbb55e..05a2796 100644
--- a/common/macro_defines.cc
+++ b/common/macro_defines.cc
@@ -29,7 +29,7 @@
 
 namespace static_map {
 
-static char filename[128] = {'\0'};
+static thread_local char filename[128] = {'\0'};
 char* splited_file_name(const char* file) {
   memset(filename, 0, sizeof(filename));
   std::string str = file;
-- 
2.43.0

