#include <set>

#include "common.h"
#include "common/math.h"
using namespace vf;
typedef Eigen::Vector3f V;

int main() {
  setup();
  while (more()) {
    float step = std::ldexp(1.f, in(-3, 3));
    int64_t m = chance(0.3) ? 3 : chance(0.7) ? 40 : 600;
    V a, b;
    for (int i = 0; i < 3; ++i) {
      a[i] = in(-m * 4, m * 4) / 4.f * step;
      b[i] = chance(0.15) ? a[i] : in(-m * 4, m * 4) / 4.f * step;
    }
    at("(%g %g %g) -> (%g %g %g) step %g", a[0], a[1], a[2], b[0], b[1], b[2], step);
    int s[3], e[3], longest = 0;
    for (int i = 0; i < 3; ++i) {
      s[i] = static_cast<int>(std::floor(a[i] / step));
      e[i] = static_cast<int>(std::floor(b[i] / step));
      longest = std::max(longest, std::abs(s[i] - e[i]));
    }
    for (int which = 0; which < 2; ++which) {
      auto v = which ? static_map::common::VoxelCastingDDA(a, b, step)
                     : static_map::common::VoxelCastingBresenham(a, b, step);
      const char* n = which ? "DDA" : "Bresenham";
      EXPECT(static_cast<int>(v.size()) == longest + 1, "%s: %zu voxels, %d expected", n, v.size(), longest + 1);
      std::set<std::vector<int>> seen;
      for (size_t k = 0; k < v.size(); ++k) {
        EXPECT(seen.insert({v[k][0], v[k][1], v[k][2]}).second, "%s: voxel %zu revisited", n, k);
        for (int i = 0; i < 3; ++i) {
          if (k == 0) EXPECT(v[k][i] == s[i], "%s: first voxel", n);
          if (k + 1 == v.size()) EXPECT(v[k][i] == e[i], "%s: last voxel", n);
          if (k) EXPECT(std::abs(v[k][i] - v[k - 1][i]) <= 1, "%s: jump at %zu", n, k);
        }
      }
    }
  }
  return done();
}
