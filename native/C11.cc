#include "builder/data/cloud_types.h"
#include "common.h"
#include <unistd.h>
using namespace vf;
using namespace static_map::data;

static float any() {
  if (chance(0.6)) return static_cast<float>(num(100));
  uint32_t b = static_cast<uint32_t>(in(0, 4294967295ll));  // any bit pattern
  float f;
  memcpy(&f, &b, 4);
  return f;
}
static InnerCloudType make(int n) {
  InnerCloudType c;
  c.stamp = static_map::SimpleTime(static_cast<uint32_t>(in(0, 4294967295ll)), static_cast<uint32_t>(in(0, 999999999)));
  for (int i = 0; i < n; ++i) {
    InnerPointType p;
    p.x = any(), p.y = any(), p.z = any(), p.intensity = any(), p.factor = any();
    c.points.push_back(p);
  }
  return c;
}
static bool same(const InnerPointType& a, const InnerPointType& b) {
  return !memcmp(&a.x, &b.x, 4) && !memcmp(&a.y, &b.y, 4) && !memcmp(&a.z, &b.z, 4) &&
         !memcmp(&a.intensity, &b.intensity, 4) && !memcmp(&a.factor, &b.factor, 4);
}
static bool same(const InnerCloudType& a, const InnerCloudType& b) {
  if (a.stamp.ToNanoSec() != b.stamp.ToNanoSec() || a.points.size() != b.points.size()) return false;
  for (size_t i = 0; i < a.points.size(); ++i)
    if (!same(a.points[i], b.points[i])) return false;
  return true;
}

int main() {
  setup();
  // the working directory is a scratch directory of the check
  const std::string file = "cloud.bin";
  while (more()) {
    int n = chance(0.1) ? 0 : chance(0.02) ? in(100, 5000) : in(0, 20);
    int k = in(1, 3);
    std::vector<InnerCloudType> cs;
    std::vector<long> ends;
    at("%d clouds of about %d points", k, n);
    {
      std::fstream f(file, std::ios::out | std::ios::binary);
      for (int i = 0; i < k; ++i) {
        cs.push_back(make(i ? in(0, 8) : n));
        const InnerCloudType c0 = cs.back();
        EXPECT(cs.back().Serialize(&f) == 0, "writing failed");
        EXPECT(same(c0, cs.back()), "writing changed the cloud");
        ends.push_back(static_cast<long>(f.tellp()));
      }
      f.close();
      EXPECT(cs[0].Serialize(&f) < 0, "writing to a closed file");
      EXPECT(cs[0].Serialize(nullptr) < 0, "writing to no file");
    }
    {
      std::fstream f(file, std::ios::in | std::ios::binary);
      for (int i = 0; i < k; ++i) {
        InnerCloudType r = make(in(0, 30));
        EXPECT(r.Deserialize(&f) == 0, "reading cloud %d failed", i);
        EXPECT(same(r, cs[i]), "cloud %d of %zu points differs", i, cs[i].points.size());
        EXPECT(static_cast<long>(f.tellg()) == ends[i], "read up to %ld, written up to %ld", static_cast<long>(f.tellg()), ends[i]);
      }
      InnerCloudType r = make(2);
      EXPECT(r.Deserialize(&f) < 0, "reading at the end of the file");
      f.close();
      EXPECT(r.Deserialize(&f) < 0, "reading a closed file");
      EXPECT(r.Deserialize(nullptr) < 0, "reading no file");
    }
    // every kind of cut: inside the heading, at a point boundary, inside a point
    for (int t = 0; t < 3; ++t) {
      long cut = t == 0 ? in(0, ends[0] - 1) : t == 1 && n ? ends[0] - 20 * in(1, n) : ends[0] - 1;
      add(" cut at %ld of %ld", cut, ends[0]);
      std::fstream f(file, std::ios::out | std::ios::binary);
      cs[0].Serialize(&f);
      f.close();
      EXPECT(!truncate(file.c_str(), cut), "truncate");
      f.open(file, std::ios::in | std::ios::binary);
      InnerCloudType r = make(in(0, 3));
      EXPECT(r.Deserialize(&f) < 0, "a file cut at %ld of %ld bytes reads as %zu points", cut, ends[0], r.points.size());
    }
  }
  return done();
}
