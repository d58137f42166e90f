#include "collector.h"
#include "pre_processors/filter_factory.h"
#include <deque>
#include <thread>

template <typename P>
static float intensity(const P&);
template <>
float intensity(const pcl::PointXYZI& p) { return p.intensity; }
template <>
float intensity(const pcl::PointXYZ&) { return 0; }
static void paint(pcl::PointXYZI& p, float v) { p.intensity = v; }
static void paint(pcl::PointXYZ&, float) {}

struct Cloud {
  uint64_t us;
  std::vector<std::array<float, 4>> pts;
};

static std::deque<Cloud> want;
static void take(DataCollector& c, bool wait) {
  for (int spin = 0; !want.empty(); ++spin) {
    auto r = c.GetNewCloud();
    if (!r) {
      if (!wait) return;
      EXPECT(spin < 20000, "a cloud was never delivered");
      std::this_thread::sleep_for(std::chrono::microseconds(500));
      continue;
    }
    Cloud w = want.front();
    want.pop_front();
    EXPECT(r->stamp.ToNanoSec() == int64_t(w.us * 1000), "cloud stamped %ld, first scan %lu", (long)r->stamp.ToNanoSec(), w.us * 1000);
    EXPECT(r->points.size() == w.pts.size(), "%zu points delivered, %zu given", r->points.size(), w.pts.size());
    for (size_t i = 0; i < w.pts.size(); ++i) {
      const auto& p = r->points[i];
      EXPECT(p.x == w.pts[i][0] && p.y == w.pts[i][1] && p.z == w.pts[i][2] && p.intensity == w.pts[i][3],
             "point %zu of %zu: (%g %g %g %g), given (%g %g %g %g)", i, w.pts.size(), p.x, p.y, p.z, p.intensity, w.pts[i][0],
             w.pts[i][1], w.pts[i][2], w.pts[i][3]);
    }
  }
}

template <typename P>
static void history() {
  pre_processers::filter::Factory f;
  data::DataCollectorOptions o;
  o.accumulate_cloud_num = chance(0.1) ? in(-2, 0) : in(1, 6);
  at("%d scans per cloud", o.accumulate_cloud_num);
  ++cases();
  DataCollector c(o, &f);
  int n = in(1, 30);
  uint64_t us = in(1, 1u << 30);
  Cloud cur;
  int count = 0;
  want.clear();
  for (int i = 0; i < n; ++i) {
    typename pcl::PointCloud<P>::Ptr s(new pcl::PointCloud<P>);
    us += in(1, 100000);
    s->header.stamp = us;
    int m = count == 0 ? in(1, 12) : in(0, 12);
    if (count == 0) cur = Cloud{us, {}};
    for (int k = 0; k < m; ++k) {
      P p;
      p.x = in(-1000, 1000) / 8.f, p.y = in(-1000, 1000) / 8.f, p.z = in(-1000, 1000) / 8.f;
      paint(p, in(0, 255));
      s->push_back(p);
      cur.pts.push_back({p.x, p.y, p.z, intensity(p)});
    }
    c.AddSensorData<P>(s);
    if (++count >= o.accumulate_cloud_num) want.push_back(cur), count = 0;
    s->clear();
    if (chance(0.2)) take(c, chance(0.5));
  }
  take(c, true);
  std::this_thread::sleep_for(std::chrono::milliseconds(chance(0.1) ? 12 : 0));
  EXPECT(c.GetRemainingCloudSize() == 0 && !c.GetNewCloud(), "a cloud was delivered twice");
}

int main() {
  setup();
  std::vector<std::thread> ts;
  while (more()) {
    history<pcl::PointXYZI>();
    history<pcl::PointXYZ>();
  }
  return done();
}
