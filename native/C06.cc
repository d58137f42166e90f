#include "filters.h"
using namespace vf;

int main() {
  setup();
  while (more()) {
    Case c = make(in(0, 2));
    auto input = cloud(size());
    auto copy = *input;
    at("%s on %zu points", c.xml.c_str(), input->points.size());
    EXPECT(c.f->InitFromXmlText(c.xml.c_str()), "valid configuration refused");
    InnerCloudType::Ptr out(new InnerCloudType);
    if (chance(0.5)) *out = *cloud(in(0, 5));
    c.f->SetInputCloud(input);
    c.f->Filter(out);
    size_t k = 0;
    for (size_t i = 0; i < copy.points.size(); ++i) {
      EXPECT(same(copy.points[i], input->points[i]), "input point %zu changed", i);
      if (!c.keep(copy.points[i])) continue;
      EXPECT(k < out->points.size(), "point %zu %s meets the criterion but is missing", i, show(copy.points[i]).c_str());
      EXPECT(same(out->points[k], copy.points[i]), "output %zu is %s, expected input %zu %s", k,
             show(out->points[k]).c_str(), i, show(copy.points[i]).c_str());
      ++k;
    }
    EXPECT(k == out->points.size(), "%zu points kept, %zu expected; first extra %s", out->points.size(), k,
           show(out->points[k]).c_str());
    EXPECT(out->stamp.ToNanoSec() == copy.stamp.ToNanoSec(), "time stamp differs");
  }
  return done();
}
