#include "builder/submap.h"
#include "common.h"
#include <unordered_map>
using namespace vf;
using namespace static_map;
using data::InnerCloudType;

// rotations about z by multiples of 90 degrees and quarter translations: products are exact
static Eigen::Matrix4d pose() {
  static const int cs[] = {1, 0, -1, 0}, sn[] = {0, 1, 0, -1};
  int a = in(0, 3), ax = in(0, 2);
  Eigen::Matrix3d r = Eigen::Matrix3d::Identity();
  int i = (ax + 1) % 3, j = (ax + 2) % 3;
  r(i, i) = cs[a], r(i, j) = -sn[a], r(j, i) = sn[a], r(j, j) = cs[a];
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.block<3, 3>(0, 0) = r;
  for (int k = 0; k < 3; ++k) m(k, 3) = in(-40, 40) / 4.0;
  return m;
}
static InnerCloudType::Ptr cloud(int n) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = SimpleTime(in(0, 1000000), in(0, 999999999));
  for (int i = 0; i < n; ++i) {
    data::InnerPointType p;
    p.x = in(-24, 24) / 4.f, p.y = in(-24, 24) / 4.f, p.z = in(-24, 24) / 4.f;
    p.intensity = in(0, 255), p.factor = in(0, 64) / 64.f;
    c->points.push_back(p);
  }
  return c;
}
static bool close(const Eigen::Matrix4d& a, const Eigen::Matrix4d& b) { return (a - b).cwiseAbs().maxCoeff() < 1e-9; }

int main() {
  setup();
  while (more()) {
    SubmapOptions o;
    o.frame_count = chance(0.03) ? in(20, 60) : in(1, 8);
    o.enable_check = chance(0.5);
    o.enable_voxel_filter = chance(0.3);
    o.voxel_size = o.enable_voxel_filter ? in(3, 70) / 10.f : 0.1f;
    SubmapId id;
    id.trajectory_index = in(0, 5), id.submap_index = in(0, 1000);
    at("submap (%d,%d) of %d frames%s", id.trajectory_index, id.submap_index, o.frame_count,
       o.enable_voxel_filter ? ", voxel grid" : "");
    Submap s(o);
    s.SetId(id);
    std::vector<std::shared_ptr<Frame>> fs;
    std::vector<Eigen::Matrix4d, Eigen::aligned_allocator<Eigen::Matrix4d>> g;
    std::vector<data::InnerPointType> all;
    SimpleTime cloud_stamp;
    Eigen::Matrix4d cur;
    std::vector<Eigen::Matrix4d, Eigen::aligned_allocator<Eigen::Matrix4d>> rels;
    for (int k = 0; k < o.frame_count; ++k) {
      EXPECT(!s.Full(), "full after %d frames", k);
      auto f = std::make_shared<Frame>();
      g.push_back(pose());
      f->SetGlobalPose(g[k]);
      f->SetTimeStamp(SimpleTime(in(0, 1000000), in(0, 999999999)));
      auto c = cloud(in(1, 9));
      if (!k) cur = g[0];
      if (k && chance(0.1)) {
        cur = pose();
        s.SetGlobalPose(cur);
        add(", moved before frame %d", k);
        if (chance(0.5)) {
          s.UpdateInnerFramePose();
          for (int j = 0; j < k; ++j) g[j] = cur * rels[j];
        }
      }
      Eigen::Matrix4d rel = cur.inverse() * g[k];
      rels.push_back(rel);
      for (auto p : c->points) {
        Eigen::Vector4d q = rel * Eigen::Vector4d(p.x, p.y, p.z, 1);
        p.x = q[0], p.y = q[1], p.z = q[2];
        all.push_back(p);
      }
      if (!k) cloud_stamp = c->stamp;
      f->SetCloud(std::make_shared<data::InnerPointCloudData>(c));
      fs.push_back(f);
      s.InsertFrame(f);
      EXPECT(f->id_.frame_index == k && f->id_.submap_index == id.submap_index &&
                 f->id_.trajectory_index == id.trajectory_index,
             "frame %d got identifier %s", k, f->id_.DebugString().c_str());
      EXPECT(close(f->LocalPose(), rel), "local pose of frame %d", k);
      EXPECT(close(s.GlobalPose(), cur), "pose of the submap after frame %d", k);
      EXPECT(s.GetTimeStamp().ToNanoSec() == fs[0]->GetTimeStamp().ToNanoSec(), "time stamp of the submap after frame %d", k);
      EXPECT(close(f->GlobalPose(), g[k]), "global pose of frame %d changed", k);
    }
    EXPECT(s.Full(), "not full after %d frames", o.frame_count);
    if (chance(0.01)) EXPECT(aborts([&] { s.InsertFrame(fs[0]); }), "a full submap accepted a frame");
    for (int k = -1; k <= o.frame_count; ++k) {
      FrameId q;
      q.trajectory_index = id.trajectory_index, q.submap_index = id.submap_index, q.frame_index = k;
      if (k < 0) q.frame_index = 0, q.submap_index++;
      auto r = s.GetFrame(q);
      EXPECT(r == (k >= 0 && k < o.frame_count ? fs[k] : nullptr), "frame number %d", k);
    }
    auto c = s.Cloud()->GetInnerCloud();
    EXPECT(c->stamp.ToNanoSec() == cloud_stamp.ToNanoSec(), "time stamp of the cloud");
    if (!o.enable_voxel_filter) {
      EXPECT(c->points.size() == all.size(), "%zu points, %zu expected", c->points.size(), all.size());
      for (size_t i = 0; i < all.size(); ++i) {
        auto &a = c->points[i], &b = all[i];
        EXPECT(near(a.x, b.x, 1e-4) && near(a.y, b.y, 1e-4) && near(a.z, b.z, 1e-4) && a.intensity == b.intensity &&
                   a.factor == b.factor,
               "point %zu is (%g %g %g), expected (%g %g %g)", i, a.x, a.y, a.z, b.x, b.y, b.z);
      }
    } else {
      std::map<std::vector<long>, int> cells;
      bool tie = false;
      for (auto& p : all) {
        std::vector<long> key;
        for (float v : {p.x, p.y, p.z}) {
          double r = v / o.voxel_size;
          if (std::fabs(r - std::floor(r) - 0.5) < 1e-3) tie = true;
          key.push_back(std::lround(r));
        }
        ++cells[key];
      }
      if (!tie)
        EXPECT(c->points.size() == cells.size(), "%zu points in the reduced cloud, %zu voxels of size %g occupied", c->points.size(),
               cells.size(), o.voxel_size);
    }
    Eigen::Matrix4d m = pose();
    s.SetGlobalPose(m);
    s.UpdateInnerFramePose();
    for (int k = 0; k < o.frame_count; ++k) {
      EXPECT(close(fs[k]->GlobalPose(), m * rels[k]), "updated pose of frame %d", k);
      EXPECT(close(fs[k]->LocalPose(), rels[k]), "local pose of frame %d changed", k);
    }
  }
  return done();
}
