#include "filters.h"
using namespace vf;

int main() {
  setup();
  while (more()) {
    const int kind = in(0, 3);
    Case c = make(kind);
    at("%s", c.xml.c_str());
    EXPECT(c.f->InitFromXmlText(c.xml.c_str()), "valid configuration refused");
    InnerCloudType::Ptr out(new InnerCloudType), input;
    int steps = in(1, 6);
    for (int s = 0; s < steps; ++s) {
      ++cases();
      int op = in(0, 9);
      if (op == 0) {
        add("; input null");
        input.reset();
        c.f->SetInputCloud(input);
      } else if (op == 1) {
        add("; input empty");
        c.f->SetInputCloud(InnerCloudType::Ptr(new InnerCloudType));
        input.reset();
      } else if (op <= 6 || !input) {
        input = cloud(size());
        add("; input %zu points", input->points.size());
        c.f->SetInputCloud(input);
      }
      if (s > 0 && chance(0.25)) {  // the same filter, configured anew
        Case d = make(kind, true);
        add("; %s", d.xml.c_str());
        EXPECT(c.f->InitFromXmlText(d.xml.c_str()), "valid configuration refused");
        c.keep = d.keep;
      }
      if (chance(0.3)) out = cloud(in(0, 9));
      int runs = chance(0.3) ? 2 : 1;
      for (int r = 0; r < runs; ++r) {
        auto I0 = c.f->Inliers(), O0 = c.f->Outliers();
        InnerCloudType before = *out, in0;
        if (input) in0 = *input;
        if (chance(0.1)) {
          add("; filter to null");
          c.f->Filter(nullptr);
          EXPECT(c.f->Inliers() == I0 && c.f->Outliers() == O0, "lists changed without an output cloud");
          continue;
        }
        add("; filter");
        c.f->Filter(out);
        const auto &I = c.f->Inliers(), &O = c.f->Outliers();
        if (!input) {
          EXPECT(I == I0 && O == O0 && out->points.size() == before.points.size(), "changed without an input cloud");
          for (size_t i = 0; i < before.points.size(); ++i)
            EXPECT(same(before.points[i], out->points[i]), "output changed without an input cloud");
          continue;
        }
        size_t n = in0.points.size();
        EXPECT(I.size() + O.size() == n, "%zu inliers and %zu outliers for %zu points", I.size(), O.size(), n);
        std::vector<int> seen(n, 0);
        for (size_t i = 0; i < I.size(); ++i) {
          EXPECT(I[i] >= 0 && I[i] < (int)n && !seen[I[i]]++, "inlier %zu is %d", i, I[i]);
          EXPECT(i == 0 || I[i - 1] < I[i], "inliers not increasing at %zu", i);
        }
        for (size_t i = 0; i < O.size(); ++i) {
          EXPECT(O[i] >= 0 && O[i] < (int)n && !seen[O[i]]++, "outlier %zu is %d", i, O[i]);
          EXPECT(i == 0 || O[i - 1] < O[i], "outliers not increasing at %zu", i);
        }
        EXPECT(out->points.size() == I.size(), "%zu output points for %zu inliers", out->points.size(), I.size());
        for (size_t i = 0; i < I.size(); ++i)
          EXPECT(same(out->points[i], in0.points[I[i]]), "output %zu is not input %d", i, I[i]);
        if (c.keep)
          for (size_t i = 0; i < I.size(); ++i) EXPECT(c.keep(in0.points[I[i]]), "inlier %d does not meet the criterion", I[i]);
        if (c.keep)
          for (size_t i = 0; i < O.size(); ++i) EXPECT(!c.keep(in0.points[O[i]]), "outlier %d meets the criterion", O[i]);
      }
    }
  }
  return done();
}
