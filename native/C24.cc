#include "builder/multi_resolution_voxel_map.h"
#include "common.h"
using namespace vf;
using namespace static_map;  // NOLINT

// Stored occupancy of the cell holding p, in 1/256; -1 when there is none.
// Seen through the output: the largest threshold that still lists the cell.
int Occ(MultiResolutionVoxelMap* m, const Eigen::Vector3f& p) {
  auto listed = [&](int t) {
    pcl::PointCloud<pcl::PointXYZI>::Ptr out(new pcl::PointCloud<pcl::PointXYZI>);
    m->OutputToPointCloud(t / 256.f, out);
    for (auto& q : out->points)
      if (std::floor(q.x) == std::floor(p[0]) && std::floor(q.y) == std::floor(p[1]) && std::floor(q.z) == std::floor(p[2])) return true;
    return false;
  };
  if (!listed(0)) return -1;
  int lo = 0, hi = 256;
  while (hi - lo > 1) {
    int t = (lo + hi) / 2;
    (listed(t) ? lo : hi) = t;
  }
  return lo;
}
data::InnerCloudType::Ptr Cloud(const std::vector<Eigen::Vector3f>& ps) {
  data::InnerCloudType::Ptr c(new data::InnerCloudType);
  for (auto& p : ps) {
    data::InnerPointType q;
    q.x = p[0], q.y = p[1], q.z = p[2];
    q.intensity = in(0, 200);
    q.factor = 0;
    c->points.push_back(q);
  }
  return c;
}

int main() {
  setup();
  while (more()) {
    MrvmSettings s;
    s.high_resolution = 1.f;
    s.output_average = chance(0.5);
    s.max_point_num_in_cell = in(1, 4);
    static const float w[] = {-1, 0, 0.05f, 0.1f, 0.2f, 0.4f, 0.48f, 0.499f, 0.5f, 0.501f, 0.55f, 0.7f, 0.9f, 0.95f, 1, 2};
    s.hit_prob = w[in(0, 15)];
    s.miss_prob = w[in(0, 15)];
    float h = std::min(0.9f, std::max(0.501f, s.hit_prob)), mi = std::min(0.499f, std::max(0.1f, s.miss_prob));
    MrvmSettings c = s;
    c.hit_prob = h, c.miss_prob = mi;
    MultiResolutionVoxelMap a, b;
    a.Initialise(s);
    b.Initialise(c);
    at("hit %g miss %g average %d:", s.hit_prob, s.miss_prob, s.output_average);
    Eigen::Vector3f near_(1.5f, 0.5f, 0.5f), far_(4.5f, 0.5f, 0.5f), side(0.5f, 3.5f, 0.5f), o(0.5f, 0.5f, 0.5f), own(0.75f, 0.5f, 0.5f);
    if (chance(0.3)) near_ = Eigen::Vector3f(-1.5f, -1.5f, 0.5f), far_ = Eigen::Vector3f(-4.5f, -4.5f, 0.5f);
    int n = in(1, 25);
    for (int k = 0; k < n; ++k) {
      int before[4] = {Occ(&a, near_), Occ(&a, far_), Occ(&a, side), Occ(&a, own)};
      int op = in(0, 4);
      add(" %d", op);
      auto cl = op == 0 ? Cloud({near_}) : op == 1 ? Cloud({far_}) : op == 2 ? Cloud({far_, side}) : op == 3 ? Cloud({near_, side}) : Cloud({own});
      a.InsertPointCloud(cl, o);
      b.InsertPointCloud(cl, o);
      int after[4] = {Occ(&a, near_), Occ(&a, far_), Occ(&a, side), Occ(&a, own)};
      add("(%d,%d,%d,%d)", after[0], after[1], after[2], after[3]);
      bool hit[4] = {op == 0 || op == 3, op == 1 || op == 2, op == 2 || op == 3, op == 4},
           miss[4] = {op == 1 || op == 2, false, false, op != 4};
      for (int q = 0; q < 4; ++q) {
        if (after[q] >= 0) EXPECT(after[q] >= 25 && after[q] <= 230, "cell %d: occupancy %d outside the limits", q, after[q]);
        if (hit[q]) {
          EXPECT(after[q] >= (before[q] < 0 ? 128 : before[q]), "cell %d: hit lowered it", q);
        } else if (miss[q]) {
          EXPECT(before[q] < 0 ? after[q] < 0 : after[q] <= before[q] && after[q] >= 0, "cell %d: miss raised it", q);
          EXPECT(before[q] <= 25 || after[q] < before[q], "cell %d: miss did not lower it", q);
        } else {
          EXPECT(after[q] == before[q], "cell %d: changed without being seen", q);
        }
      }
      // (two beams of one scan may pass the own cell at the same time and one update be lost)
      EXPECT(Occ(&b, near_) == after[0] && Occ(&b, far_) == after[1] && Occ(&b, side) == after[2], "weights not clamped");
    }
  }
  return done();
}
