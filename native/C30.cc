#include "builder/submap.h"
#include "common.h"
#include <unistd.h>
using namespace vf;
using namespace static_map;
using data::InnerCloudType;
using data::InnerPointCloudData;

static InnerCloudType::Ptr cloud(int n) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = SimpleTime(in(0, 1000000), in(0, 999999999));
  for (int i = 0; i < n; ++i) {
    data::InnerPointType p;
    p.x = in(-24, 24) / 4.f, p.y = in(-24, 24) / 4.f, p.z = in(-24, 24) / 4.f;
    p.intensity = in(0, 255), p.factor = in(0, 64) / 64.f;
    c->points.push_back(p);
  }
  return c;
}
// matrix: also its matrix form (computing normals drops columns there)
static void same(const InnerPointCloudData& h, const InnerCloudType& w, bool matrix = true) {
  const auto& g = *h.GetInnerCloud();
  EXPECT(g.stamp.ToNanoSec() == w.stamp.ToNanoSec() && h.GetTime().ToNanoSec() == w.stamp.ToNanoSec(), "another time stamp");
  EXPECT(g.points.size() == w.points.size(), "%zu points, saved %zu", g.points.size(), w.points.size());
  if (matrix) EXPECT(size_t(h.GetEigenCloud()->points.cols()) == w.points.size(), "matrix form of %d points", int(h.GetEigenCloud()->points.cols()));
  for (size_t i = 0; i < w.points.size(); ++i) {
    const auto &a = g.points[i], &b = w.points[i];
    EXPECT(a.x == b.x && a.y == b.y && a.z == b.z && a.intensity == b.intensity && a.factor == b.factor, "point %zu changed", i);
    if (matrix) EXPECT(h.GetEigenCloud()->points(0, i) == b.x && h.GetEigenCloud()->points(1, i) == b.y && h.GetEigenCloud()->points(2, i) == b.z,
           "column %zu of the matrix form", i);
  }
}

static void history() {
  int n = chance(0.02) ? in(100, 3000) : in(1, 20);
  auto c = cloud(n);
  InnerCloudType want = *c;
  InnerPointCloudData h(c);
  std::string file = "cloud" + std::to_string(in(0, 2)) + ".bin", log;
  bool saved = false, mem = true, stale = false;
  int steps = in(1, 8);
  for (int k = 0; k < steps; ++k) {
    int what = in(0, 6);
    log += " " + std::to_string(what);
    at("history of %d points:%s", n, log.c_str());
    if (what == 0 && mem) {
      EXPECT(h.SaveToFile(file), "saving failed");
      saved = true, stale = false;
      same(h, want);
    } else if (what == 1 || what == 2) {
      if (!saved || stale) continue;  // dealt with below
      auto out = h.GetInnerCloud();
      size_t before = out->points.size();
      h.Clear();
      mem = false;
      EXPECT(out->points.size() == before, "points handed out were changed by the release");
      EXPECT(h.GetInnerCloud()->points.empty(), "points are kept in memory");
    } else if (what == 3) {
      EXPECT(h.CloudInMemory(), "not in memory after use");
      mem = true;
      same(h, want);
    } else if (what == 4 && mem) {
      auto d = cloud(in(1, 20));
      want = *d;
      h.SetInnerCloud(d);
      stale = saved;
      same(h, want);
    } else if (what == 5 && mem) {
      Eigen::Matrix4d t = Eigen::Matrix4d::Identity();
      for (int i = 0; i < 3; ++i) t(i, 3) = in(1, 40) / 4.0;
      h.TransformCloud(t);
      for (auto& p : want.points) p.x += t(0, 3), p.y += t(1, 3), p.z += t(2, 3);
      stale = saved;
      same(h, want);
    }
  }
  if (mem && stale && chance(0.05)) {
    at("history of %d points:%s, changed after it was saved, then released and used", n, log.c_str());
    EXPECT(aborts([&] {
             h.Clear();
             h.CloudInMemory();
             same(h, want);
             abort();  // the changed cloud came back: fine as well
           }),
           "the outdated file was taken for the cloud");
  }
  if (saved && !stale && chance(0.02)) {
    at("history of %d points:%s, file cut off", n, log.c_str());
    h.Clear();
    EXPECT(!truncate(file.c_str(), 20 + 20 * (want.points.size() - 1) + in(0, 19)), "truncate");
    if (want.points.size() > 1) EXPECT(aborts([&] { h.CloudInMemory(); }), "an incomplete file was taken for the cloud");
  }
}

static void submap() {
  SubmapOptions o;
  o.frame_count = in(1, 4);
  o.enable_voxel_filter = false;
  o.enable_disk_saving = chance(0.8);
  o.disk_saving_delay = in(0, 6);
  SubmapId id;
  id.trajectory_index = in(0, 5), id.submap_index = in(0, 100);
  at("submap of %d frames, files %d", o.frame_count, o.enable_disk_saving);
  Submap s(o);
  s.SetId(id);
  s.SetSavePath("./");
  std::vector<std::shared_ptr<Frame>> fs;
  std::vector<InnerCloudType> ws;
  for (int k = 0; k < o.frame_count; ++k) {
    auto f = std::make_shared<Frame>();
    f->SetGlobalPose(Eigen::Matrix4d::Identity());
    auto c = cloud(in(1, 9));
    ws.push_back(*c);
    f->SetCloud(std::make_shared<InnerPointCloudData>(c));
    s.InsertFrame(f);
    fs.push_back(f);
  }
  auto own = s.Cloud();
  InnerCloudType want = *own->GetInnerCloud();
  auto inmem = [&] { return !own->GetInnerCloud()->points.empty(); };
  s.UpdateInactiveTime(1000);
  EXPECT(inmem(), "a submap was released before it was saved");
  s.UpdateInactiveTime(0);
  s.Cloud();
  s.SetMatchedTransformedToNext(Eigen::Matrix4d::Identity());
  int idle = 0;
  for (int k = 0; k < 10; ++k) {
    if (chance(0.6)) {
      int dt = in(0, 4);
      idle += dt;
      s.UpdateInactiveTime(dt);
      if (o.enable_disk_saving && idle > o.disk_saving_delay) EXPECT(!inmem(), "kept after %d s", idle);
    } else {
      same(*s.Cloud(), want, false);
      idle = 0;
    }
    if (idle == 0 || !o.enable_disk_saving)
      EXPECT(inmem() || idle > o.disk_saving_delay || k == 0 || idle == 0, "released while in use");
  }
  same(*s.Cloud(), want, false);
  for (int k = 0; k < o.frame_count; ++k) {
    auto h = fs[k]->Cloud();
    same(*h, ws[k]);
  }
}

int main() {
  setup();
  while (more()) {
    for (int i = 0; i < 20; ++i) ++cases(), history();
    ++cases(), submap();
  }
  return done();
}
