#include <Eigen/Geometry>
#include "builder/imu_tracker.h"
#include "common.h"
using namespace vf;
using namespace static_map;

// Rotation matrix of roll, pitch, yaw.
static Eigen::Matrix3d zyx(const Eigen::Vector3d& a) {
  double cx = cos(a[0]), sx = sin(a[0]), cy = cos(a[1]), sy = sin(a[1]), cz = cos(a[2]), sz = sin(a[2]);
  Eigen::Matrix3d m;
  m << cz * cy, cz * sy * sx - sz * cx, cz * sy * cx + sz * sx, sz * cy, sz * sy * sx + cz * cx, sz * sy * cx - cz * sx,
      -sy, cy * sx, cy * cx;
  return m;
}
static double diff(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b) { return (a - b).cwiseAbs().maxCoeff(); }

// Shortest rotation taking direction a to direction b (not opposite).
static Eigen::Matrix3d between(Eigen::Vector3d a, Eigen::Vector3d b) {
  a.normalize();
  b.normalize();
  Eigen::Vector3d v = a.cross(b);
  double c = a.dot(b);
  Eigen::Matrix3d k;
  k << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
  return Eigen::Matrix3d::Identity() + k + k * k / (1 + c);
}

int main() {
  setup();
  while (more()) {
    double tau = chance(0.2) ? 10 : uni(0.01, 5);
    int64_t t = in(1, 1ll << 52), last = 0;
    ImuTracker k(tau, SimpleTime::FromNanoSec(t));
    at("time constant %.17g start %lld:", tau, (long long)t);
    Eigen::Matrix3d R = Eigen::Matrix3d::Identity();
    Eigen::Vector3d g(0, 0, 1), w(0, 0, 0);
    EXPECT(diff(k.orientation().toRotationMatrix(), R) < 1e-12, "initial orientation");
    EXPECT(k.time().ToNanoSec() == t, "initial time");
    int n = in(1, 14);
    for (int i = 0; i < n; ++i) {
      int what = in(0, 3);
      if (what == 0) {
        for (int j = 0; j < 3; ++j) w[j] = chance(0.2) ? 0 : uni(-2, 2);
        add(" rate %.17g %.17g %.17g", w[0], w[1], w[2]);
        k.AddImuAngularVelocityObservation(w);
      } else if (what == 1) {
        Eigen::Vector3d a(num(4), num(4), num(12));
        double d = last > 0 ? (t - last) * 1e-9 : 0;
        double keep = last > 0 ? std::exp(-d / tau) : 0;
        Eigen::Vector3d h = keep * g + (1 - keep) * a;
        Eigen::Vector3d up = R.transpose() * Eigen::Vector3d::UnitZ();
        if (h.norm() < 0.05 || h.normalized().dot(up) < -0.9) continue;
        add(" acc %.17g %.17g %.17g", a[0], a[1], a[2]);
        k.AddImuLinearAccelerationObservation(a);
        g = h;
        R = R * between(g, up);
        last = t;
      } else if (what == 2 || !chance(0.1)) {
        int64_t dt = chance(0.1) ? 0 : chance(0.2) ? in(1, 20) * 1000000000ll : in(1, 300000000);
        t += dt;
        add(" advance %lld", (long long)dt);
        k.Advance(SimpleTime::FromNanoSec(t));
        Eigen::Matrix3d T = zyx(w * (dt * 1e-9));
        R = R * T;
        g = T.transpose() * g;
      } else {
        int64_t back = in(1, std::min<int64_t>(t - 1, 1000000000) + (t == 1));
        if (t - back <= 0) continue;
        add(" back %lld", (long long)back);
        EXPECT(aborts([&] { k.Advance(SimpleTime::FromNanoSec(t - back)); }), "the clock went backwards");
      }
      EXPECT(k.time().ToNanoSec() == t, "time %lld, expected %lld", (long long)k.time().ToNanoSec(), (long long)t);
      Eigen::Quaterniond q = k.orientation();
      EXPECT(std::fabs(q.norm() - 1) < 1e-9, "orientation has norm %.17g", q.norm());
      double e = diff(q.toRotationMatrix(), R);
      EXPECT(e < 1e-6, "orientation off by %g", e);
    }
  }
  return done();
}
