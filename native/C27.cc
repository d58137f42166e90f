#include "collector.h"

int main() {
  setup();
  while (more()) {
    DataCollector c(data::DataCollectorOptions{}, nullptr);
    std::vector<data::ImuMsg, Eigen::aligned_allocator<data::ImuMsg>> imu;
    std::vector<data::NavSatFixMsg> gps;
    std::vector<data::OdomMsg, Eigen::aligned_allocator<data::OdomMsg>> odo;
    bool started = false;
    uint64_t now = in(1, 2000000) * G + in(0, G - 1);
    double bad = chance(0.5) ? 0.1 : 0.8;
    int n = chance(0.9) ? in(1, 60) : in(2000, 5000);
    at("%d samples", n);
    for (int k = 0; k < n; ++k) {
      now += chance(0.5) ? 1 : in(1, G);
      int kind = in(0, 2);
      if (kind == 0) {
        data::ImuMsg m;
        m.header.stamp = T(now);
        m.linear_acceleration = Vector3d(num(), num(), num());
        m.angular_velocity = Vector3d(num(), num(), num());
        c.AddSensorData(m);
        imu.push_back(m);
      } else if (kind == 1) {
        auto m = fix(now, !chance(bad));
        if (!gps.empty() && chance(0.003)) {
          auto o = m;
          o.header.stamp = T(gps.back().header.stamp.ToNanoSec() - (chance(0.5) ? 0 : in(1, 1000)));
          EXPECT(aborts([&] { c.AddSensorData(o); }), "gps sample at %lu accepted after one at %lu", o.header.stamp.ToNanoSec(),
                 gps.back().header.stamp.ToNanoSec());
        }
        c.AddSensorData(m);
        started = started || m.status.status == data::STATUS_FIX;
        if (started) gps.push_back(m);
        EXPECT(!!c.GetGpsReference() == started, "reference %s after %zu stored samples", started ? "missing" : "set", gps.size());
      } else {
        data::OdomMsg m;
        m.header.stamp = T(now);
        Vector3d ax(uni(-1, 1), uni(-1, 1), 1);
        m.pose.pose.orientation = Eigen::Quaterniond(Eigen::AngleAxisd(uni(-3, 3), ax.normalized()));
        m.pose.pose.position = Vector3d(num(50), num(50), num(50));
        c.AddSensorData(m);
        odo.push_back(m);
      }
    }
    add(": %zu imu, %zu gps, %zu odometry stored", imu.size(), gps.size(), odo.size());
    EXPECT(c.imu_data_.size() == imu.size(), "%zu imu samples stored", c.imu_data_.size());
    for (size_t i = 0; i < imu.size(); ++i)
      EXPECT(c.imu_data_[i].time.ToNanoSec() == imu[i].header.stamp.ToNanoSec() && c.imu_data_[i].acceleration == imu[i].linear_acceleration &&
                 c.imu_data_[i].angular_velocity == imu[i].angular_velocity,
             "imu sample %zu", i);
    EXPECT(c.gps_data_.size() == gps.size(), "%zu gps samples stored", c.gps_data_.size());
    if (!gps.empty()) {
      GeographicLib::LocalCartesian r(gps[0].latitude, gps[0].longtitude, gps[0].altitude);
      auto u = c.GetGpsReference();
      EXPECT(u->LatitudeOrigin() == r.LatitudeOrigin() && u->LongitudeOrigin() == r.LongitudeOrigin() &&
                 u->HeightOrigin() == r.HeightOrigin(),
             "reference (%.9g %.9g %.9g) is not the first fix", u->LatitudeOrigin(), u->LongitudeOrigin(), u->HeightOrigin());
      for (size_t i = 0; i < gps.size(); ++i) {
        Vector3d e;
        r.Forward(gps[i].latitude, gps[i].longtitude, gps[i].altitude, e[0], e[1], e[2]);
        auto& d = c.gps_data_[i];
        EXPECT(d.time.ToNanoSec() == gps[i].header.stamp.ToNanoSec() && d.status_fixed == (gps[i].status.status == data::STATUS_FIX) &&
                   d.lat_lon_alt == Vector3d(gps[i].latitude, gps[i].longtitude, gps[i].altitude) && (d.enu_position - e).norm() < 1e-6,
               "gps sample %zu at (%g %g %g), expected (%g %g %g)", i, d.enu_position[0], d.enu_position[1], d.enu_position[2], e[0],
               e[1], e[2]);
      }
    }
    EXPECT(c.odom_data_.size() == odo.size(), "%zu odometry samples stored", c.odom_data_.size());
    for (size_t i = 0; i < odo.size(); ++i) {
      Eigen::Isometry3d a = Eigen::Isometry3d::Identity(), b = a;
      a.linear() = odo[0].pose.pose.orientation.toRotationMatrix(), a.translation() = odo[0].pose.pose.position;
      b.linear() = odo[i].pose.pose.orientation.toRotationMatrix(), b.translation() = odo[i].pose.pose.position;
      Matrix4d want = (a.inverse() * b).matrix();
      EXPECT(c.odom_data_[i].time.ToNanoSec() == odo[i].header.stamp.ToNanoSec(), "time of odometry sample %zu", i);
      EXPECT((c.odom_data_[i].pose - want).cwiseAbs().maxCoeff() < 1e-9, "odometry sample %zu off by %g", i,
             (c.odom_data_[i].pose - want).cwiseAbs().maxCoeff());
    }
  }
  return done();
}
