#include "builder/data/cloud_types.h"
#include "common.h"
using namespace vf;
using namespace static_map::data;

static float value() { return chance(0.05) ? std::numeric_limits<float>::quiet_NaN() : static_cast<float>(num(500)); }
static bool same(float a, float b) { return !memcmp(&a, &b, 4); }
static void fill(pcl::PointXYZ* p) { p->x = value(), p->y = value(), p->z = value(); }
static void fill(pcl::PointXYZI* p) { p->x = value(), p->y = value(), p->z = value(), p->intensity = value(); }
static float inten(const pcl::PointXYZ&) { return 0; }
static float inten(const pcl::PointXYZI& p) { return p.intensity; }

template <typename T>
static void run(const char* what) {
  pcl::PointCloud<T> c;
  int n = chance(0.1) ? 0 : in(0, 50);
  c.header.stamp = in(0, 4294967295ll) * 1000000ull + in(0, 999999);
  at("%s, %d points, stamp %llu", what, n, static_cast<unsigned long long>(c.header.stamp));
  for (int i = 0; i < n; ++i) {
    T p;
    fill(&p);
    c.push_back(p);
    if (i < 6) add(" (%g %g %g %g)", p.x, p.y, p.z, inten(p));
  }
  const pcl::PointCloud<T> c0 = c;
  InnerCloudType::Ptr k = ToInnerPointCloud<T>(c);
  EXPECT(k->points.size() == static_cast<size_t>(n), "%zu points", k->points.size());
  EXPECT(k->stamp.ToNanoSec() == static_cast<int64_t>(c.header.stamp * 1000), "time stamp %lld", static_cast<long long>(k->stamp.ToNanoSec()));
  for (int i = 0; i < n; ++i) {
    const auto& p = k->points[i];
    const T& q = c0.points[i];
    EXPECT(same(p.x, q.x) && same(p.y, q.y) && same(p.z, q.z), "coordinates of point %d", i);
    EXPECT(same(p.intensity, inten(q)), "intensity of point %d: %g", i, p.intensity);
  }
  const uint64_t us = c.header.stamp;
  k->stamp = static_map::SimpleTime(us / 1000000, us % 1000000 * 1000 + in(0, 999));
  const InnerCloudType k0 = *k;
  pcl::PointCloud<T> b;
  for (int i = in(0, 4); i > 0; --i) b.push_back(T());
  ToPclPointCloud<T>(*k, &b);
  EXPECT(b.size() == static_cast<size_t>(n), "back: %zu points", b.size());
  EXPECT(static_cast<size_t>(b.width) * b.height == b.size(), "back: width %u height %u for %zu points", b.width, b.height, b.size());
  EXPECT(b.header.stamp == c0.header.stamp, "back: time stamp");
  for (int i = 0; i < n; ++i) {
    const T &p = b.points[i], &q = c0.points[i];
    EXPECT(same(p.x, q.x) && same(p.y, q.y) && same(p.z, q.z) && same(inten(p), inten(q)), "back: point %d", i);
  }
  if (n == 0) return;
  EigenPointCloud e;
  if (chance(0.3)) e.FromPointCloud(std::vector<InnerPointType>(in(1, 9)));
  e.FromPointCloud(k0.points);
  EXPECT(e.points.cols() == n && e.points.rows() == 3 && e.factors.size() == size_t(n) && e.indices.size() == size_t(n), "matrix form: sizes");
  for (int i = 0; i < n; ++i) {
    const auto& p = k0.points[i];
    EXPECT(std::fabs(e.factors[i] - double(i) / n) < 1e-12, "factor %d of %d: %g", i, n, e.factors[i]);
    EXPECT(e.indices[i] == i, "index %d", i);
    EXPECT(same(e.points(0, i), p.x) && same(e.points(1, i), p.y) && same(e.points(2, i), p.z), "matrix form: point %d", i);
  }
}

int main() {
  setup();
  while (more()) {
    run<pcl::PointXYZ>("xyz");
    run<pcl::PointXYZI>("xyzi");
  }
  return done();
}
