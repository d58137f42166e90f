#include <Eigen/Geometry>
#include <iostream>
#include "builder/pose_extrapolator.h"
#include "common.h"
using namespace vf;
using namespace static_map;

static Eigen::Matrix3d zyx(const Eigen::Vector3d& a) {
  double cx = cos(a[0]), sx = sin(a[0]), cy = cos(a[1]), sy = sin(a[1]), cz = cos(a[2]), sz = sin(a[2]);
  Eigen::Matrix3d m;
  m << cz * cy, cz * sy * sx - sz * cx, cz * sy * cx + sz * sx, sz * cy, sz * sy * sx + cz * cx, sz * sy * cx - cz * sx,
      -sy, cy * sx, cy * cx;
  return m;
}
static Eigen::Vector3d angles(const Eigen::Matrix3d& m) {
  return Eigen::Vector3d(atan2(m(2, 1), m(2, 2)), atan2(-m(2, 0), hypot(m(0, 0), m(1, 0))), atan2(m(1, 0), m(0, 0)));
}
static double diff(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return (a - b).cwiseAbs().maxCoeff(); }
static SimpleTime T(int64_t t) { return SimpleTime::FromNanoSec(t); }

struct Pose {
  int64_t t;
  Eigen::Matrix4d m;
};
struct Sample {
  int64_t t;
  Eigen::Vector3d acc, rate;
};

// The predictor without discarding anything.
struct Reference {
  int64_t dur;
  double tau;
  std::vector<Pose> poses, odom;
  std::vector<Sample> samples;
  std::unique_ptr<ImuTracker> base, ext, od;
  Eigen::Vector3d lin{0, 0, 0}, ang{0, 0, 0}, lin_od{0, 0, 0}, ang_od{0, 0, 0};
  int64_t cached = -1;
  Eigen::Matrix4d cache;

  bool with_odom() const { return odom.size() >= 2; }
  void advance(ImuTracker* k, int64_t t) {
    int64_t now = k->time().ToNanoSec();
    if (samples.empty() || t < samples.front().t) {
      k->Advance(T(t));
      k->AddImuLinearAccelerationObservation(Eigen::Vector3d::UnitZ());
      k->AddImuAngularVelocityObservation(with_odom() ? ang_od : ang);
      return;
    }
    if (now < samples.front().t) k->Advance(T(now = samples.front().t));
    for (auto& s : samples) {
      if (s.t < now || s.t >= t) continue;
      k->Advance(T(s.t));
      k->AddImuLinearAccelerationObservation(s.acc);
      k->AddImuAngularVelocityObservation(s.rate);
    }
    k->Advance(T(t));
  }
  void pose(int64_t t, const Eigen::Matrix4d& m) {
    poses.push_back({t, m});
    cached = t, cache = m;
    while (poses.size() > 2 && poses[1].t <= t - dur) poses.erase(poses.begin());
    int64_t span = t - poses[0].t;
    if (poses.size() > 1 && span >= dur) {
      lin = (m - poses[0].m).block<3, 1>(0, 3) / (span * 1e-9);
      ang = angles(Eigen::Matrix3d(poses[0].m.block<3, 3>(0, 0).transpose() * m.block<3, 3>(0, 0))) / (span * 1e-9);
    }
    if (!base) base.reset(new ImuTracker(tau, T(samples.empty() ? t : std::min(t, samples.front().t))));
    advance(base.get(), t);
    while (odom.size() > 2 && odom[1].t <= t) odom.erase(odom.begin());
    ext.reset(new ImuTracker(*base));
    od.reset(new ImuTracker(*base));
  }
  Eigen::Matrix3d turned(ImuTracker* k, int64_t t) {
    advance(k, t);
    return poses.back().m.block<3, 3>(0, 0) *
           (base->orientation().inverse() * k->orientation()).toRotationMatrix();
  }
  void odometry(int64_t t, const Eigen::Matrix4d& m) {
    odom.push_back({t, m});
    while (odom.size() > 2 && !poses.empty() && odom[1].t <= poses.back().t) odom.erase(odom.begin());
    if (odom.size() < 2) return;
    double dt = (t - odom[0].t) * 1e-9;
    Eigen::Matrix4d d = odom[0].m.inverse() * m;
    ang_od = angles(Eigen::Matrix3d(d.block<3, 3>(0, 0))) / dt;
    if (poses.empty()) return;
    lin_od = turned(od.get(), t) * (d.block<3, 1>(0, 3) / dt);
  }
  Eigen::Matrix4d predict(int64_t t) {
    if (cached == t) return cache;
    cached = t;
    cache = poses.back().m;
    cache.block<3, 1>(0, 3) += (with_odom() ? lin_od : lin) * ((t - poses.back().t) * 1e-9);
    cache.block<3, 3>(0, 0) = turned(ext.get(), t);
    return cache;
  }
};

static const int64_t S = 10000000;  // times are multiples of 10 ms

static Eigen::Vector3d vec(double s) { return Eigen::Vector3d(uni(-s, s), uni(-s, s), uni(-s, s)); }

int main() {
  setup();
  std::cout.rdbuf(nullptr);
  while (more()) {
    Reference ref;
    ref.dur = in(1, 40) * 5 * S;
    ref.tau = uni(1, 12);
    std::unique_ptr<PoseExtrapolator> e;
    int64_t t = in(1000, 1 << 30) * S, last_imu = t - S, last_odom = t - S, last_ask = t;
    at("duration %lld:", (long long)ref.dur);
    Eigen::Matrix4d cur = Eigen::Matrix4d::Identity(), wheel = cur;
    auto imu = [&](int64_t s) {
      Sample x{s, Eigen::Vector3d(0, 0, 9.8) + vec(1), vec(0.5)};
      ref.samples.push_back(x);
      last_imu = s;
      data::ImuMsg m;
      m.header.stamp = T(s);
      m.linear_acceleration = x.acc;
      m.angular_velocity = x.rate;
      add(" sample at %lld", (long long)(s / S));
      return m;
    };
    if (chance(0.5)) {
      auto m = imu(t);
      add(" (start)");
      e = PoseExtrapolator::InitializeWithImu(T(ref.dur), ref.tau, m);
      ref.base.reset(new ImuTracker(ref.tau, T(t)));
      ref.base->AddImuLinearAccelerationObservation(m.linear_acceleration);
      ref.base->AddImuAngularVelocityObservation(m.angular_velocity);
      ref.base->Advance(T(t));
      cur.block<3, 3>(0, 0) = ref.base->orientation().toRotationMatrix();
      ref.pose(t, cur);
    } else {
      e.reset(new PoseExtrapolator(T(ref.dur), ref.tau));
    }
    int n = in(1, 25);
    bool odometer = chance(0.3);
    for (int i = 0; i < n; ++i) {
      int op = in(0, 3);
      if (op == 0) {
        t = std::max(t, last_ask) + (ref.poses.empty() ? 0 : in(1, 12) * S);
        if (chance(0.3) && last_imu > t) t = last_imu;
        for (int j = 0; j < 3; ++j) cur(j, 3) += num(4);
        cur.block<3, 3>(0, 0) =
            cur.block<3, 3>(0, 0).eval() * zyx(Eigen::Vector3d(uni(-.05, .05), uni(-.05, .05), uni(-.3, .3)));
        add(" pose at %lld", (long long)(t / S));
        e->AddPose(T(t), cur);
        ref.pose(t, cur);
        int64_t span = t - ref.poses[0].t;
        if (span == ref.dur && ref.poses.size() > 1 && (span * 1e-9 < ref.dur * 1e-9)) break;
        EXPECT(e->GetLastPoseTime().ToNanoSec() == t, "last pose time");
        last_ask = t;
      } else if (op == 1) {
        int64_t s = std::max(last_imu + in(1, 4) * S, t + (chance(0.3) ? 0 : in(0, 3) * S));
        e->AddImuData(imu(s));
      } else if (op == 2 && odometer) {
        int64_t s = std::max(last_odom + in(1, 4) * S, t + in(0, 3) * S);
        if (!ref.poses.empty() && ref.od->time().ToNanoSec() > s) continue;
        for (int j = 0; j < 3; ++j) wheel(j, 3) += num(4);
        wheel.block<3, 3>(0, 0) = wheel.block<3, 3>(0, 0).eval() * zyx(vec(0.1));
        data::OdomMsg m;
        m.header.stamp = T(s);
        m.SetPose(wheel);
        add(" odometry at %lld", (long long)(s / S));
        e->AddOdometryData(m);
        ref.odometry(s, wheel);
        last_odom = s;
      } else if (!ref.poses.empty()) {
        int64_t s = std::max(last_ask, t) + (chance(0.2) ? 0 : in(1, 10) * S);
        add(" ask %lld", (long long)(s / S));
        Eigen::Matrix4d want = ref.predict(s), got = e->ExtrapolatePose(T(s));
        EXPECT(diff(got, want) < 1e-6 * (1 + diff(want, cur)), "prediction %lld ms after the newest pose off by %g",
               (long long)((s - t) / 1000000), diff(got, want));
        Eigen::Matrix4d again = e->ExtrapolatePose(T(s));
        EXPECT(diff(got, again) == 0, "asked again: off by %g", diff(got, again));
        EXPECT(e->GetLastExtrapolatedTime().ToNanoSec() == ref.ext->time().ToNanoSec(), "clock of the prediction");
        last_ask = s;
        if (chance(0.05)) {
          int64_t early = t - in(1, 1000000);
          EXPECT(aborts([&] { e->ExtrapolatePose(T(early)); }), "a time before the newest pose");
          data::ImuMsg m;
          m.header.stamp = T(early);
          m.linear_acceleration = Eigen::Vector3d(0, 0, 9.8);
          m.angular_velocity.setZero();
          EXPECT(aborts([&] { e->AddImuData(m); }), "a sample before the newest pose");
        }
      }
    }
  }
  return done();
}
