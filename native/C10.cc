#include "filters.h"
using namespace vf;

// parameter values are read back through the listing every filter prints
static std::map<std::string, std::string> values(F::Interface* f) {
  std::stringstream s;
  auto* old = std::cout.rdbuf(s.rdbuf());
  f->DisplayAllParams();
  std::cout.rdbuf(old);
  std::map<std::string, std::string> m;
  std::string name, arrow, v;
  while (s >> name >> arrow >> v) m[name] = v;
  return m;
}
static std::string text(double v) {
  std::stringstream s;
  s << static_cast<float>(v);
  return s.str();
}
struct Kind {
  const char* name;
  std::vector<const char*> params;
};
static const Kind kinds[] = {{"Range", {"min_range", "max_range"}},
                             {"AxisRange", {"min", "max", "axis_index"}},
                             {"BoundingBoxRemoval", {"min_x", "min_y", "min_z", "max_x", "max_y", "max_z"}},
                             {"RandomSampler", {"sampling_rate"}},
                             {"VoxelGrid", {"voxel_size"}}};
static std::shared_ptr<F::Interface> create(int k) {
  switch (k) {
    case 0: return std::make_shared<F::Range>();
    case 1: return std::make_shared<F::AxisRange>();
    case 2: return std::make_shared<F::BoundingBoxRemoval>();
    case 3: return std::make_shared<F::RandomSampler>();
  }
  return std::make_shared<F::VoxelGrid>();
}

int main() {
  setup();
  while (more()) {
    int k = in(0, 4);
    auto f = create(k);
    auto cur = values(f.get());
    std::map<std::string, double> num;
    for (auto& p : cur) num[p.first] = strtod(p.second.c_str(), nullptr);
    int rounds = in(1, 3);
    at("%s", kinds[k].name);
    for (int r = 0; r < rounds; ++r) {
      int other = chance(0.15) ? in(0, 4) : k;
      std::string xml = std::string("<filter name=\"") + kinds[other].name + "\">";
      int n = in(0, 8);
      auto want = cur;
      auto wnum = num;
      bool unknown = false;
      for (int i = 0; i < n; ++i) {
        std::string p = kinds[k].params[in(0, kinds[k].params.size() - 1)];
        if (chance(0.005)) p += "_", unknown = true;
        bool ip = p == "axis_index";
        int type = chance(0.15) ? in(0, 1) : ip ? 0 : 1;
        double v = std::round(vf::num(20) * 4) / 4;
        if (k == 3 && chance(0.8)) v = in(0, 8) / 8.0;
        if (ip && chance(0.8)) v = in(-1, 3);
        if (k == 4 && chance(0.7)) v = std::fabs(v);
        if (std::fabs(v) > 1000) v = std::fmod(v, 1000);
        v = std::round(v * 8) / 8 + 0.0;
        if (ip || type == 0) v = std::trunc(v) + 0.0;
        xml += param(p.c_str(), v, type);
        want[p + "_"] = text(v);
        wnum[p + "_"] = v;
      }
      xml += "</filter>";
      add("; %s", xml.c_str());
      if (unknown && other == k) {
        EXPECT(aborts([&] { f->InitFromXmlText(xml.c_str()); }), "unknown parameter accepted");
        break;
      }
      bool ok = f->InitFromXmlText(xml.c_str());
      auto got = values(f.get());
      if (other != k) want = cur, wnum = num;
      for (auto& p : want)
        if (cur.count(p.first))
          EXPECT(got[p.first] == p.second, "%s is %s, expected %s", p.first.c_str(), got[p.first].c_str(), p.second.c_str());
      bool valid = other == k;
      if (k == 1) valid = valid && wnum["max_"] > wnum["min_"] && wnum["axis_index_"] >= 0 && wnum["axis_index_"] <= 2;
      if (k == 2)
        for (const char* a : {"x_", "y_", "z_"}) valid = valid && wnum[std::string("min_") + a] < wnum[std::string("max_") + a];
      if (k == 3) valid = valid && wnum["sampling_rate_"] >= 0 && wnum["sampling_rate_"] <= 1;
      if (k == 4) valid = valid && wnum["voxel_size_"] > 1e-6;
      EXPECT(ok == valid, "initialisation returned %d, expected %d", ok, valid);
      cur = want;
      num = wnum;
    }
  }
  return done();
}
