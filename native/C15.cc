#include <algorithm>
#include <iostream>
#include <map>

#include "common.h"
#include "common/octree.h"
using namespace vf;
using namespace static_map::common;

int main() {
  setup();
  while (more()) {
    OctreeConfig c;
    double s = std::ldexp(1.0, in(0, 5));
    c.center = Eigen::Vector3d(in(-8, 8), in(-8, 8), in(-8, 8));
    c.max_size = 2 * s;
    c.max_depth = in(0, 5);
    c.max_num_points_in_voxel = in(0, 6);
    int n = chance(0.1) ? 0 : in(1, chance(0.1) ? 300 : 40);
    Eigen::MatrixXd m(3 + in(0, 1), n);
    int inside = 0;
    std::map<std::vector<double>, int> left;
    for (int i = 0; i < n; ++i) {
      bool in_ = true;
      for (int a = 0; a < 3; ++a) {
        double f = chance(0.2) ? in(-2, 2) / 2.0 : in(-66, 66) / 64.0;
        if (chance(0.3) && i) f = (m(a, i - 1) - c.center[a]) / s;
        m(a, i) = c.center[a] + f * s;
        if (std::fabs(f) > 1) in_ = false;
      }
      if (m.rows() == 4) m(3, i) = 77;
      if (in_) {
        ++inside;
      }
      left[{m(0, i), m(1, i), m(2, i)}] += in_;
    }
    at("%d points (%d inside) size %g depth %d capacity %d", n, inside, 2 * s, c.max_depth, c.max_num_points_in_voxel);
    if (n <= 12)
      for (int i = 0; i < n; ++i) add(" (%g %g %g)", m(0, i), m(1, i), m(2, i));
    Octree t(c);
    t.InitWithPointCloud(m);
    EXPECT(t.GetMaxDepth() >= 0 && t.GetMaxDepth() <= c.max_depth, "depth %d", t.GetMaxDepth());
    std::stringstream out;
    std::cout.precision(17);
    auto* old = std::cout.rdbuf(out.rdbuf());
    t.RecursiveOutput();
    std::cout.rdbuf(old);
    bool rootleaf = c.max_depth == 0 || n <= c.max_num_points_in_voxel;
    double x, y, z;
    std::string colon;
    int d, seen = 0, deepest = 0;
    char ch;
    // cell of a point at depth d -> number of points there
    std::map<std::vector<int64_t>, int> cell;
    while (out >> x >> y >> z >> ch >> d) {
      ++seen;
      deepest = std::max(deepest, d);
      EXPECT(d <= c.max_depth, "leaf at depth %d", d);
      std::vector<double> key{x, y, z};
      if (!rootleaf) EXPECT(left[key]-- > 0, "point %g %g %g appears too often", x, y, z);
      std::vector<int64_t> k{d};
      double w = 2 * s / std::ldexp(1.0, d);
      double p[3] = {x, y, z};
      for (int a = 0; a < 3; ++a) {
        int64_t q = static_cast<int64_t>(std::floor((p[a] - (c.center[a] - s)) / w));
        if (q == (int64_t)1 << d) --q;  // far border
        k.push_back(q);
      }
      ++cell[k];
    }
    EXPECT(seen == (rootleaf ? n : inside), "%d points in leaves, %d expected", seen, rootleaf ? n : inside);
    if (!rootleaf)
      for (auto& k : cell)
        if (k.first[0] < c.max_depth) EXPECT(k.second <= c.max_num_points_in_voxel, "leaf with %d points", k.second);
    EXPECT(deepest <= t.GetMaxDepth(), "reported depth %d, leaf at %d", t.GetMaxDepth(), deepest);
  }
  return done();
}
