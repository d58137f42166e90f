#include "filters.h"
#include "pre_processors/filter_factory.h"
using namespace vf;

static Case pick() {
  if (chance(0.2)) {
    Case c;
    c.f.reset(new F::VoxelGrid);
    c.xml = "<filter name=\"VoxelGrid\">" + param("voxel_size", in(1, 8) / 2.0) + "</filter>";
    return c;
  }
  return make(in(0, 2));
}

int main() {
  setup();
  std::cout.setstate(std::ios_base::failbit);  // parameter listings
  while (more()) {
    int n = chance(0.1) ? 0 : in(1, 5);
    std::vector<Case> cs;
    std::string xml = "<filters>";
    for (int i = 0; i < n; ++i) {
      cs.push_back(pick());
      xml += cs.back().xml;
      if (chance(0.1)) xml += "<filter name=\"NoSuchFilter\"><param type=\"0\" name=\"a\">1</param></filter>";
    }
    xml += "</filters>";
    pugi::xml_document doc;
    if (!doc.load_string(xml.c_str())) return 3;
    F::Factory chain;
    chain.InitFromXmlNode(doc.first_child());
    for (auto& c : cs) EXPECT(c.f->InitFromXmlText(c.xml.c_str()), "valid configuration refused");
    InnerCloudType::Ptr out(new InnerCloudType);
    int runs = in(1, 3);
    for (int r = 0; r < runs; ++r) {
      auto input = cloud(std::min(size(), 900), false);
      auto copy = *input;
      at("%s on %zu points, run %d", xml.c_str(), input->points.size(), r);
      InnerCloudType cur = copy;
      for (auto& c : cs) {
        if (cur.points.empty()) break;
        InnerCloudType::Ptr a(new InnerCloudType(cur)), b(new InnerCloudType);
        c.f->SetInputCloud(a);
        c.f->Filter(b);
        cur = *b;
      }
      if (chance(0.3)) out = cloud(in(0, 9));
      chain.SetInputCloud(input);
      chain.Filter(out);
      EXPECT(out->points.size() == cur.points.size(), "%zu points, %zu expected", out->points.size(), cur.points.size());
      for (size_t i = 0; i < cur.points.size(); ++i)
        EXPECT(same(out->points[i], cur.points[i]), "point %zu is %s, expected %s", i, show(out->points[i]).c_str(),
               show(cur.points[i]).c_str());
      EXPECT(out->stamp.ToNanoSec() == copy.stamp.ToNanoSec(), "time stamp differs");
      EXPECT(input->points.size() == copy.points.size(), "input size changed");
      for (size_t i = 0; i < copy.points.size(); ++i)
        EXPECT(same(input->points[i], copy.points[i]), "input point %zu changed", i);
    }
  }
  std::cout.clear();
  return done();
}
