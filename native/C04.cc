#include "collector.h"

static data::OdomMsg odom(uint64_t t) {
  data::OdomMsg m;
  m.header.stamp = T(t);
  Vector3d ax(uni(-1, 1), uni(-1, 1), uni(-1, 1));
  if (ax.norm() < 0.1) ax = Vector3d::UnitZ();
  m.pose.pose.orientation = Eigen::Quaterniond(Eigen::AngleAxisd(chance(0.1) ? 0 : uni(-1.2, 1.2), ax.normalized()));
  m.pose.pose.position = Vector3d(num(50), num(50), num(50));
  return m;
}
static double diff(const Matrix4d& a, const Matrix4d& b) { return (a - b).cwiseAbs().maxCoeff(); }

int main() {
  setup();
  while (more()) {
    DataCollector c(data::DataCollectorOptions{}, nullptr);
    std::vector<Matrix4d, Eigen::aligned_allocator<Matrix4d>> p;
    auto t = times(length(), kOdomGaps);
    Matrix4d first;
    for (uint64_t x : t) {
      auto m = odom(x);
      c.AddSensorData(m);
      Matrix4d q = Matrix4d::Identity();
      q.block<3, 3>(0, 0) = m.pose.pose.orientation.toRotationMatrix();
      q.block<3, 1>(0, 3) = m.pose.pose.position;
      if (p.empty()) first = q;
      p.push_back(first.inverse() * q);
    }
    auto check = [&](const Matrix4d* r, uint64_t q, double th) {
      if (t.empty()) {
        EXPECT(!r, "a pose without data");
      } else if (t.size() == 1) {
        uint64_t d = q > t[0] ? q - t[0] : t[0] - q;
        if (std::fabs(d * 1e-9 - th) < 1e-6) return;
        EXPECT(!!r == (d * 1e-9 <= th), "single sample at %lu: %s", t[0], r ? "a pose" : "none");
        if (r) EXPECT(diff(*r, p[0]) < 1e-9, "not the single sample");
      } else if (q < t.front() || q > t.back()) {
        EXPECT(!r, "a pose outside the span %lu..%lu", t.front(), t.back());
      } else {
        bool may = false, maynot = false;
        Matrix4d want;
        size_t w = 0;
        for (size_t i = 0; i + 1 < t.size(); ++i)
          if (t[i] <= q && q <= t[i + 1]) {
            (t[i + 1] - t[i] <= G ? may : maynot) = true;
            double f = double(q - t[i]) / double(t[i + 1] - t[i]);
            Eigen::Matrix3d a = p[i].block<3, 3>(0, 0), b = p[i + 1].block<3, 3>(0, 0);
            Eigen::AngleAxisd d(Eigen::Matrix3d(a.transpose() * b));
            if (d.angle() > 3.1) return;
            want.setIdentity();
            want.block<3, 3>(0, 0) = a * Eigen::AngleAxisd(d.angle() * f, d.axis()).toRotationMatrix();
            want.block<3, 1>(0, 3) = p[i].block<3, 1>(0, 3) * (1 - f) + p[i + 1].block<3, 1>(0, 3) * f;
            w = i;
          }
        EXPECT(r ? may : maynot, "samples %zu and %zu (%lu, %lu): %s", w, w + 1, t[w], t[w + 1], r ? "a pose" : "none");
        if (r) EXPECT(diff(*r, want) < 1e-4, "pose off by %g between samples %zu and %zu", diff(*r, want), w, w + 1);
      }
    };
    for (int k = 0; k < 300; ++k) {
      uint64_t q = ask(t);
      double th = chance(0.3) ? 0.5 : chance(0.5) ? uni() * 0.5 : 0.005;
      at("%zu samples, query %lu threshold %g", t.size(), q, th);
      auto r = c.InterpolateOdom(T(q), th);
      check(r.get(), q, th);
    }
    std::vector<uint64_t> qs;
    for (int k = 0; k < 60; ++k) qs.push_back(ask(t));
    std::sort(qs.begin(), qs.end());
    for (uint64_t q : qs) {
      at("%zu samples, query %lu with trimming", t.size(), q);
      auto r = c.InterpolateOdom(T(q), 0.005, true);
      check(r.get(), q, 0.005);
      if (t.size() > 1 && q >= t.front() && q <= t.back()) {
        size_t i = 0;
        while (i + 2 < t.size() && t[i + 1] <= q) ++i;
        t.erase(t.begin(), t.begin() + i), p.erase(p.begin(), p.begin() + i);
      }
    }
  }
  return done();
}
