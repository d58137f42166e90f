// Clouds, configurations and reference criteria for the filter harnesses.
#pragma once
#include <memory>

#include "common.h"
#include "pre_processors/filter_axis_range.h"
#include "pre_processors/filter_bounding_box.h"
#include "pre_processors/filter_random_sample.h"
#include "pre_processors/filter_range.h"
#include "pre_processors/filter_voxel_grid.h"

namespace vf {
using static_map::data::InnerCloudType;
using static_map::data::InnerPointType;
namespace F = static_map::pre_processers::filter;

// multiples of 1/4: distances and comparisons are exact or far from a tie
inline float q(double span = 8) { return static_cast<float>(std::round(num(span) * 4) / 4); }
inline float coord(bool special) {
  if (special && chance(0.03)) return std::numeric_limits<float>::quiet_NaN();
  if (special && chance(0.03)) return chance(0.5) ? INFINITY : -INFINITY;
  float v = q();
  return std::fabs(v) > 64 ? std::fmod(v, 64.f) : v;
}
inline InnerCloudType::Ptr cloud(int n, bool special = true) {
  InnerCloudType::Ptr c(new InnerCloudType);
  c->stamp = static_map::SimpleTime(static_cast<uint32_t>(in(0, 4000000000ll)), static_cast<uint32_t>(in(0, 999999999)));
  for (int i = 0; i < n; ++i) {
    InnerPointType p;
    p.x = coord(special);
    p.y = coord(special);
    p.z = coord(special);
    if (chance(0.2)) {  // exact distances
      static const float t[][3] = {{3, 4, 0}, {0, 3, 4}, {4, 0, 3}, {1, 2, 2}, {2, 3, 6}, {2, 0, 0}, {0, -5, 0}, {0, 0, 0}};
      const float* s = t[in(0, 7)];
      p.x = s[0], p.y = s[1], p.z = s[2];
    }
    p.intensity = static_cast<float>(in(0, 255));
    p.factor = static_cast<float>(in(0, 4096)) / 4096.f;
    c->points.push_back(p);
  }
  return c;
}
inline int size() {
  double r = uni();
  return r < 0.1 ? in(1, 3) : r < 0.9 ? in(1, 60) : r < 0.99 ? in(60, 900) : in(900, 6000);
}
inline bool same(const InnerPointType& a, const InnerPointType& b) { return !memcmp(&a, &b, sizeof a); }
inline std::string show(const InnerPointType& p) {
  char b[160];
  snprintf(b, sizeof b, "(%g %g %g i%g f%g)", p.x, p.y, p.z, p.intensity, p.factor);
  return b;
}
inline std::string param(const char* name, double v, int type = 1) {
  char b[200];
  snprintf(b, sizeof b, type ? "<param type=\"1\" name=\"%s\">%.9g</param>" : "<param type=\"0\" name=\"%s\">%.0f</param>",
           name, v);
  return b;
}

// One configured filter with the criterion the property states for it.
struct Case {
  std::shared_ptr<F::Interface> f;
  std::string xml;
  std::function<bool(const InnerPointType&)> keep;  // empty: random
};
// full: every parameter is written out (for a filter configured before)
inline Case make(int kind, bool full = false) {
  Case c;
  if (kind == 0) {
    float lo = std::fabs(q(6)), hi = std::fabs(q(9));
    if (lo > 60) lo = 3;
    if (hi > 60) hi = 5;
    if (lo > hi) std::swap(lo, hi);
    c.f.reset(new F::Range);
    int which = in(0, 3);
    if (which == 1) lo = 0;
    if (which == 2) hi = std::numeric_limits<float>::max();
    if (which == 3 && chance(0.5)) lo = hi = 5;
    c.xml = "<filter name=\"Range\">" + (which == 1 && !full ? "" : param("min_range", lo)) +
            (which == 2 && !full ? "" : param("max_range", hi)) + "</filter>";
    c.keep = [lo, hi](const InnerPointType& p) {
      double r2 = double(p.x) * p.x + double(p.y) * p.y + double(p.z) * p.z;
      return r2 >= double(lo) * lo && r2 <= double(hi) * hi && !std::isinf(r2);
    };
  } else if (kind == 1) {
    float lo = q(6), hi = q(6);
    int ax = in(0, 2);
    if (lo > hi) std::swap(lo, hi);
    if (lo == hi) hi += 0.25f;
    c.f.reset(new F::AxisRange);
    int which = in(0, 5);
    if (which == 1) lo = -std::numeric_limits<float>::max();
    if (which == 2) hi = std::numeric_limits<float>::max();
    if (which == 3) lo = -std::numeric_limits<float>::max(), hi = std::numeric_limits<float>::max();
    c.xml = "<filter name=\"AxisRange\">" + ((which == 1 || which == 3) && !full ? "" : param("min", lo)) +
            ((which == 2 || which == 3) && !full ? "" : param("max", hi)) + (ax == 2 && !full && chance(0.5) ? "" : param("axis_index", ax, 0)) +
            "</filter>";
    bool unset = which == 3;
    c.keep = [=](const InnerPointType& p) {
      float v = ax == 0 ? p.x : ax == 1 ? p.y : p.z;
      return unset || !(v < lo || v > hi);
    };
  } else if (kind == 2) {
    float lo[3], hi[3];
    std::string s;
    static const char* nl[] = {"min_x", "min_y", "min_z"};
    static const char* nh[] = {"max_x", "max_y", "max_z"};
    for (int a = 0; a < 3; ++a) {
      lo[a] = q(5), hi[a] = q(5);
      if (lo[a] > hi[a]) std::swap(lo[a], hi[a]);
      if (lo[a] == hi[a]) hi[a] += 0.5f;
      s += param(nl[a], lo[a]) + param(nh[a], hi[a]);
    }
    c.f.reset(new F::BoundingBoxRemoval);
    c.xml = "<filter name=\"BoundingBoxRemoval\">" + s + "</filter>";
    float l0 = lo[0], l1 = lo[1], l2 = lo[2], h0 = hi[0], h1 = hi[1], h2 = hi[2];
    c.keep = [=](const InnerPointType& p) {
      return !(p.x >= l0 && p.x <= h0 && p.y >= l1 && p.y <= h1 && p.z >= l2 && p.z <= h2);
    };
  } else {
    double r = chance(0.4) ? 1.0 : chance(0.2) ? 0.0 : in(0, 20) / 20.0;
    c.f.reset(new F::RandomSampler);
    c.xml = "<filter name=\"RandomSampler\">" + (r == 1.0 && !full && chance(0.5) ? "" : param("sampling_rate", r)) + "</filter>";
  }
  return c;
}
}  // namespace vf
