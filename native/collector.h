// Histories of samples for the sensor data collector.
#pragma once
#include "builder/data/data_collector.h"
#include "common.h"
using namespace vf;
using namespace static_map;
using data::DataCollector;
using Eigen::Vector3d;
using Eigen::Matrix4d;

static const uint64_t G = 1000000000ull;
static SimpleTime T(uint64_t ns) { return SimpleTime(ns / G, ns % G); }
static std::vector<uint64_t> times(int n, const std::vector<uint64_t>& gaps) {
  std::vector<uint64_t> t;
  uint64_t x = in(1, 2000000) * G + in(0, G - 1);
  if (chance(0.3)) x = in(1, 2000000) * G;
  for (int i = 0; i < n; ++i) {
    t.push_back(x);
    uint64_t g = gaps[in(0, gaps.size() - 1)];
    x += chance(0.3) ? g + in(0, 5) : g;
  }
  return t;
}
// a time worth asking for: at, near and between the samples
static uint64_t ask(const std::vector<uint64_t>& t) {
  if (t.empty()) return in(0, 100) * G;
  uint64_t a = t[in(0, t.size() - 1)];
  switch (in(0, 7)) {
    case 0: return a;
    case 1: return a + in(1, 3);
    case 2: return a - in(1, 3);
    case 3: return t.front() - in(0, 4) * in(0, G);
    case 4: return t.back() + in(0, 4) * in(0, G);
    default: {
      uint64_t lo = t.front(), hi = t.back();
      size_t i = in(0, t.size() - 1);
      if (i + 1 < t.size()) lo = t[i], hi = t[i + 1];
      return lo + in(0, hi - lo);
    }
  }
}
static data::NavSatFixMsg fix(uint64_t t, bool good) {
  data::NavSatFixMsg m;
  m.header.stamp = T(t);
  m.status.status = good ? data::STATUS_FIX : chance(0.5) ? data::STATUS_NO_FIX : data::STATUS_SBAS_FIX;
  m.latitude = 30 + in(-1000, 1000) * 1e-5;
  m.longtitude = 120 + in(-1000, 1000) * 1e-5;
  m.altitude = in(-100, 1000) / 4.0;
  return m;
}
struct Fixes {
  std::vector<uint64_t> t;
  std::vector<char> good;
  std::vector<Vector3d> pos;
  bool started = false;
  GeographicLib::LocalCartesian ref;
  void add(DataCollector& c, uint64_t when, bool ok) {
    auto m = fix(when, ok);
    c.AddSensorData(m);
    if (!started && !ok) return;
    if (!started) ref = GeographicLib::LocalCartesian(m.latitude, m.longtitude, m.altitude), started = true;
    Vector3d p;
    ref.Forward(m.latitude, m.longtitude, m.altitude, p[0], p[1], p[2]);
    t.push_back(when), good.push_back(ok), pos.push_back(p);
  }
  bool pairok(size_t i) const { return good[i] && good[i + 1] && t[i + 1] - t[i] <= G / 5; }
  // checks one answer; from: index of the first sample still stored
  void check(const Vector3d* r, uint64_t q, double th) const {
    if (t.empty()) EXPECT(!r, "a position without data");
    if (t.empty()) return;
    if (t.size() == 1) {
      uint64_t d = q > t[0] ? q - t[0] : t[0] - q;
      if (std::fabs(d * 1e-9 - th) < 1e-6) return;  // rounding of seconds
      bool want = good[0] && d * 1e-9 <= th;
      EXPECT(!!r == want, "single sample at %lu: %s", t[0], r ? "a position" : "none");
      if (r) EXPECT((*r - pos[0]).norm() < 1e-9, "not the single sample");
      return;
    }
    if (q < t.front() || q > t.back()) {
      EXPECT(!r, "a position outside the span %lu..%lu", t.front(), t.back());
      return;
    }
    bool may = false, maynot = false;
    Vector3d want;
    size_t w = 0;
    for (size_t i = 0; i + 1 < t.size(); ++i)
      if (t[i] <= q && q <= t[i + 1]) {
        (pairok(i) ? may : maynot) = true;
        want = pos[i] + (pos[i + 1] - pos[i]) * (double(q - t[i]) / double(t[i + 1] - t[i]));
        w = i;
      }
    EXPECT(r ? may : maynot, "samples %zu and %zu (%lu %s, %lu %s): %s", w, w + 1, t[w], good[w] ? "fix" : "no fix", t[w + 1],
           good[w + 1] ? "fix" : "no fix", r ? "a position" : "none");
    if (r)
      EXPECT((*r - want).norm() < 1e-6 * (1 + want.norm()), "position (%.9g %.9g %.9g), expected (%.9g %.9g %.9g)", (*r)[0], (*r)[1],
             (*r)[2], want[0], want[1], want[2]);
  }
  void dropto(size_t i) {
    t.erase(t.begin(), t.begin() + i), good.erase(good.begin(), good.begin() + i), pos.erase(pos.begin(), pos.begin() + i);
  }
};
static const std::vector<uint64_t> kGpsGaps = {2000, 1000000, 50000000, 100000000, 199999999, 200000000, 200000001, 250000000, G, 3 * G};
static const std::vector<uint64_t> kOdomGaps = {2000, 1000000, 50000000, 200000000, 500000000, 999999999, G, G + 1, G + G / 10, 3 * G};
static int length() { return chance(0.1) ? 0 : chance(0.15) ? 1 : chance(0.2) ? in(2, 3) : chance(0.9) ? in(2, 24) : in(25, 400); }
