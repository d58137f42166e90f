#include "common.h"
#include "common/bounding_box.h"
using namespace vf;
using static_map::common::CubeBoundingBox;
typedef Eigen::Vector3d V;

static bool inside(const V& c, double h, const V& p) {
  return std::fabs(p[0] - c[0]) <= h && std::fabs(p[1] - c[1]) <= h && std::fabs(p[2] - c[2]) <= h;
}

int main() {
  setup();
  while (more()) {
    // dyadic numbers: every operation is exact
    double h = std::ldexp(1.0, in(-3, 5)) * in(1, 5);
    V c(in(-64, 64) / 4.0, in(-64, 64) / 4.0, in(-64, 64) / 4.0);
    at("centre %g %g %g half %g", c[0], c[1], c[2], h);
    CubeBoundingBox b = chance(0.5) ? CubeBoundingBox(c, 2 * h) : CubeBoundingBox(c - V::Constant(h), c + V::Constant(h));
    if (chance(0.2)) {  // ordinary numbers: splitting must not fail
      V r(uni(-50, 50), uni(-50, 50), uni(-50, 50));
      double s = uni(1, 200);
      add(" splitting %.17g %.17g %.17g size %.17g", r[0], r[1], r[2], s);
      CubeBoundingBox d(r, s);
      for (auto& x : d.GenerateSubBoxes()) EXPECT(x.GenerateSubBoxes().size() == 8, "number of sub-boxes");
    }
    EXPECT((b.GetCenter() - c).norm() == 0, "centre");
    auto sub = b.GenerateSubBoxes();
    EXPECT(sub.size() == 8, "%zu sub-boxes", sub.size());
    for (int k = 0; k < 8; ++k) {
      V o = sub[k].GetCenter() - c;
      for (int a = 0; a < 3; ++a) EXPECT(std::fabs(o[a]) == h / 2, "centre of sub-box %d is off by %g on axis %d", k, o[a], a);
      for (int m = 0; m < k; ++m) EXPECT((sub[m].GetCenter() - sub[k].GetCenter()).norm() > 0, "sub-boxes %d and %d coincide", m, k);
    }
    for (int q = 0; q < 12; ++q) {
      V p;
      for (int a = 0; a < 3; ++a) {
        int w = in(0, 9);
        static const double f[] = {-1, 0, 1, -0.5, 0.5, 0.25, -0.25, 1.25, -1.0625, 0};
        p[a] = c[a] + (w == 9 ? in(-80, 80) / 64.0 * h : f[w] * h);
      }
      ++cases();
      bool i = inside(c, h, p);
      EXPECT(b.ContainsPoint(p) == i, "containment of %g %g %g is %d", p[0], p[1], p[2], b.ContainsPoint(p));
      int k = b.GetSubBoxIndexForPoint(p);
      EXPECT(i ? k >= 0 && k < 8 : k == -1, "octant of %g %g %g is %d", p[0], p[1], p[2], k);
      if (!i) continue;
      EXPECT(sub[k].ContainsPoint(p), "octant %d does not contain %g %g %g", k, p[0], p[1], p[2]);
      EXPECT(inside(sub[k].GetCenter(), h / 2, p), "octant %d is not around %g %g %g", k, p[0], p[1], p[2]);
    }
    for (int k = 0; k < 8; ++k)
      for (int m = 0; m < 8; ++m) {
        V d = sub[m].GetCenter() - sub[k].GetCenter();
        EXPECT(sub[k].ContainsPoint(sub[k].GetCenter() + V(h / 2, -h / 2, h / 2)), "sub-box %d is too small", k);
        EXPECT(!sub[k].ContainsPoint(sub[k].GetCenter() + V(h / 2 * 1.0625, 0, 0)), "sub-box %d is too large", k);
        (void)d;
      }
  }
  return done();
}
