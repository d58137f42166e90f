#include <map>
#include <tuple>

#include "filters.h"
using namespace vf;

int main() {
  setup();
  auto* f = new F::VoxelGrid;
  while (more()) {
    static const float sizes[] = {0.25f, 0.5f, 1.f, 2.f, 4.f, 0.125f, 16.f};
    float size = sizes[in(0, 6)];
    pugi::xml_document doc;
    auto node = doc.append_child("filter");
    node.append_attribute("name") = "VoxelGrid";
    auto p = node.append_child("param");
    p.append_attribute("type") = "1";
    p.append_attribute("name") = "voxel_size";
    p.text() = size;
    if (!f->InitFromXmlNode(node)) mismatch("valid voxel size refused");
    auto c = cloud(chance(0.1) ? in(0, 1) : in(1, 60), false);
    auto out = cloud(in(0, 5));
    at("size %g, %zu points:", size, c->points.size());
    std::map<std::tuple<long, long, long>, std::vector<InnerPointType>> want;
    for (auto& q : c->points) {
      add(" (%g %g %g %g)", q.x, q.y, q.z, q.intensity);
      want[std::make_tuple(std::lround(q.x / size), std::lround(q.y / size), std::lround(q.z / size))].push_back(q);
    }
    auto before = c->points;
    f->SetInputCloud(c);
    f->Filter(out);
    if (before.empty()) continue;
    EXPECT(out->points.size() == want.size(), "%zu output points, %zu occupied voxels", out->points.size(), want.size());
    EXPECT(out->stamp == c->stamp, "time stamp differs");
    EXPECT(c->points.size() == before.size(), "input changed");
    std::vector<bool> used(out->points.size(), false);
    for (auto& w : want) {
      double s[4] = {0, 0, 0, 0};
      for (auto& q : w.second) s[0] += q.x, s[1] += q.y, s[2] += q.z, s[3] += q.intensity;
      bool found = false;
      for (size_t i = 0; i < out->points.size() && !found; ++i) {
        auto& q = out->points[i];
        double n = w.second.size();
        if (!used[i] && std::fabs(q.x - s[0] / n) < 1e-4 && std::fabs(q.y - s[1] / n) < 1e-4 && std::fabs(q.z - s[2] / n) < 1e-4 &&
            std::fabs(q.intensity - s[3] / n) < 1e-3)
          used[i] = found = true;
      }
      EXPECT(found, "no output point is the mean of the %zu points of a voxel (mean %g %g %g %g)", w.second.size(),
             s[0] / w.second.size(), s[1] / w.second.size(), s[2] / w.second.size(), s[3] / w.second.size());
    }
  }
  return done();
}
