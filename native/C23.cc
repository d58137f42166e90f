#include <sstream>

#include "back_end/view_graph.h"
#include "common.h"
using namespace vf;
using static_map::back_end::ViewGraph;

struct Vertex {
  Eigen::Matrix4d pose;
  std::vector<std::pair<int64_t, Eigen::Matrix4d>> edges;
};

int main() {
  setup();
  std::cout.setstate(std::ios_base::failbit);
  std::cerr.setstate(std::ios_base::failbit);
  while (more()) {
    ViewGraph g;
    std::map<int64_t, Vertex, std::less<int64_t>, Eigen::aligned_allocator<std::pair<const int64_t, Vertex>>> ref;
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
    double off[2] = {chance(0.5) ? num(200) : 0, chance(0.5) ? num(200) : 0};
    at("graph at %g %g:", off[0], off[1]);
    int n = chance(0.02) ? in(50, 300) : in(1, 20);
    int64_t ids = chance(0.3) ? 3 : in(2, 40);
    for (int k = 0; k < n; ++k) {
      Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
      for (int r = 0; r < 3; ++r)
        for (int c = 0; c < 4; ++c) m(r, c) = num(6);
      if (chance(0.6)) {
        int64_t i = in(-2, ids);
        m(0, 3) += off[0], m(1, 3) += off[1];
        if (n < 20) add(" vertex %ld (%g %g)", i, m(0, 3), m(1, 3));
        g.AddVertex(i, m);
        ref[i].pose = m;
        for (int a = 0; a < 2; ++a) lo[a] = std::min(lo[a], m(a, 3)), hi[a] = std::max(hi[a], m(a, 3));
      } else {
        int64_t a = in(-2, ids), b = in(-2, ids);
        if (n < 20) add(" edge %ld-%ld", a, b);
        g.AddEdge(a, b, m);
        if (ref.count(a) && ref.count(b)) ref[a].edges.push_back({b, m});
      }
    }
    auto got = g.GetWholeGraph();
    EXPECT(got.size() == ref.size(), "%zu vertices, %zu expected", got.size(), ref.size());
    for (auto& r : ref) {
      EXPECT(got.count(r.first), "vertex %ld missing", r.first);
      EXPECT(got[r.first].self_pose == r.second.pose, "pose of vertex %ld is not the last added", r.first);
      auto& e = got[r.first].connections;
      EXPECT(e.size() == r.second.edges.size(), "vertex %ld has %zu edges, %zu expected", r.first, e.size(),
             r.second.edges.size());
      for (size_t i = 0; i < e.size(); ++i)
        EXPECT(e[i].first == r.second.edges[i].first && e[i].second == r.second.edges[i].second,
               "edge %zu of vertex %ld differs", i, r.first);
    }
    if (chance(0.05)) {  // the listing holds the same vertices and edges
      g.SaveTextFile("graph.txt");
      std::ifstream f("graph.txt");
      std::stringstream s, want;
      s << f.rdbuf();
      for (auto& r : ref) {
        want << r.first << " > ";
        for (auto& e : r.second.edges) want << e.first << ", ";
        want << "\n";
      }
      EXPECT(s.str() == want.str(), "listing is \"%s\", expected \"%s\"", s.str().c_str(), want.str().c_str());
    }
    if (chance(0.05) && !ref.empty()) {  // the image spans the bounds and a margin of one
      g.SaveImage("graph.bmp", 1.0);
      std::ifstream f("graph.bmp", std::ios::binary);
      char h[26] = {0};
      f.read(h, 26);
      int32_t w, t;
      memcpy(&w, h + 18, 4), memcpy(&t, h + 22, 4);
      EXPECT(w == static_cast<int>(hi[0] - lo[0] + 2) && std::abs(t) == static_cast<int>(hi[1] - lo[1] + 2),
             "image of %d x %d for positions spanning %g x %g", w, t, hi[0] - lo[0], hi[1] - lo[1]);
    }
  }
  return done();
}
