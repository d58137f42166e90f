#include <Eigen/Geometry>
#include "builder/pose_extrapolator.h"
#include "common.h"
using namespace vf;
using namespace static_map;

static Eigen::Matrix3d zyx(const Eigen::Vector3d& a) {
  double cx = cos(a[0]), sx = sin(a[0]), cy = cos(a[1]), sy = sin(a[1]), cz = cos(a[2]), sz = sin(a[2]);
  Eigen::Matrix3d m;
  m << cz * cy, cz * sy * sx - sz * cx, cz * sy * cx + sz * sx, sz * cy, sz * sy * sx + cz * cx, sz * sy * cx - cz * sx,
      -sy, cy * sx, cy * cx;
  return m;
}
static Eigen::Vector3d angles(const Eigen::Matrix3d& m) {
  return Eigen::Vector3d(atan2(m(2, 1), m(2, 2)), atan2(-m(2, 0), hypot(m(0, 0), m(1, 0))), atan2(m(1, 0), m(0, 0)));
}
static double diff(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return (a - b).cwiseAbs().maxCoeff(); }

struct P {
  int64_t t;
  Eigen::Matrix4d m;
};

int main() {
  setup();
  while (more()) {
    int64_t dur = in(1, 40) * 50000000ll;
    auto e = PoseExtrapolator::InitialSimpleCTRV(SimpleTime::FromNanoSec(dur));
    at("duration %lld:", (long long)dur);
    EXPECT(e->GetLastPoseTime().ToNanoSec() == 0, "time of no pose");
    std::vector<P> q;
    Eigen::Vector3d lin(0, 0, 0), ang(0, 0, 0);
    int64_t t = in(dur, 1ll << 50), asked = -1;
    if (chance(0.3)) {
      lin = Eigen::Vector3d(num(), num(), num());
      e->InitRoughLinearVelocity(lin);
      add(" rough %.17g %.17g %.17g", lin[0], lin[1], lin[2]);
    }
    Eigen::Matrix4d cur = Eigen::Matrix4d::Identity();
    int n = in(1, 12);
    for (int i = 0; i < n; ++i) {
      if (q.empty() || chance(0.5)) {
        // the time is now and then the one asked for last
        t = asked > t ? (chance(0.6) ? asked : asked + in(1, 5) * 50000000ll) : t + in(1, 12) * 50000000ll;
        for (int j = 0; j < 3; ++j) cur(j, 3) += num(4);
        cur.block<3, 3>(0, 0) =
            cur.block<3, 3>(0, 0).eval() * zyx(Eigen::Vector3d(uni(-.05, .05), uni(-.05, .05), uni(-.3, .3)));
        add(" pose at %lld", (long long)t);
        e->AddPose(SimpleTime::FromNanoSec(t), cur);
        q.push_back({t, cur});
        while (q.size() > 2 && q[1].t <= t - dur) q.erase(q.begin());
        int64_t span = t - q[0].t;
        if (span == dur && q.size() > 1 && (span * 1e-9 < dur * 1e-9)) break;
        if (q.size() > 1 && span >= dur) {
          lin = (cur - q[0].m).block<3, 1>(0, 3) / (span * 1e-9);
          ang = angles(Eigen::Matrix3d(q[0].m.block<3, 3>(0, 0).transpose() * cur.block<3, 3>(0, 0))) / (span * 1e-9);
        }
        EXPECT(e->GetLastPoseTime().ToNanoSec() == t, "last pose time");
        if (chance(0.5)) asked = -1;
      } else {
        int64_t s = chance(0.3) ? t : chance(0.2) && asked >= t ? asked : t + in(1, 40) * 10000000ll;
        add(" ask %lld", (long long)s);
        double dt = (s - t) * 1e-9;
        Eigen::Matrix4d want = cur;
        want.block<3, 1>(0, 3) += lin * dt;
        want.block<3, 3>(0, 0) = cur.block<3, 3>(0, 0) * zyx(ang * dt);
        Eigen::Matrix4d got = e->ExtrapolatePose(SimpleTime::FromNanoSec(s));
        EXPECT(diff(got, want) < 1e-5 * (1 + lin.norm() * dt), "prediction %lld ns after the newest pose off by %g",
               (long long)(s - t), diff(got, want));
        asked = s;
        if (chance(0.05)) {
          int64_t early = t - in(1, 1000000);
          EXPECT(aborts([&] { e->ExtrapolatePose(SimpleTime::FromNanoSec(early)); }), "a time before the newest pose");
        }
      }
    }
  }
  return done();
}
