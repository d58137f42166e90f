#include "collector.h"

template <typename S>
static std::vector<uint64_t> have(const S& s) {
  std::vector<uint64_t> r;
  for (auto& x : s) r.push_back(x.time.ToNanoSec());
  return r;
}
// after must be a suffix of before
static size_t dropped(const char* kind, const std::vector<uint64_t>& before, const std::vector<uint64_t>& after) {
  EXPECT(after.size() <= before.size(), "%s: %zu samples from %zu", kind, after.size(), before.size());
  size_t d = before.size() - after.size();
  for (size_t i = 0; i < after.size(); ++i)
    EXPECT(after[i] == before[i + d], "%s: sample %zu of %zu kept is %lu, expected %lu", kind, i, after.size(), after[i],
           before[i + d]);
  return d;
}

int main() {
  setup();
  while (more()) {
    DataCollector c(data::DataCollectorOptions{}, nullptr);
    int tag = 0;
    for (uint64_t t : times(length(), kGpsGaps)) {
      data::ImuMsg m;
      m.header.stamp = T(t);
      m.linear_acceleration = Vector3d(tag, 1, 2);
      m.angular_velocity = Vector3d(3, tag++, 5);
      c.AddSensorData(m);
      if (chance(0.1)) c.AddSensorData(m);  // equal time stamps
    }
    Fixes f;
    for (uint64_t t : times(length(), kGpsGaps)) f.add(c, t, true);
    for (uint64_t t : times(length(), kOdomGaps)) {
      data::OdomMsg m;
      m.header.stamp = T(t);
      m.pose.pose.orientation = Eigen::Quaterniond::Identity();
      m.pose.pose.position = Vector3d(tag++, 0, 0);
      c.AddSensorData(m);
    }
    for (int k = 0; k < 200; ++k) {
      auto imu = have(c.imu_data_), gps = have(c.gps_data_), odo = have(c.odom_data_);
      auto imu_v = c.imu_data_;
      auto gps_v = c.gps_data_;
      int kind = in(0, 5);
      const std::vector<uint64_t>& mine = kind == 0 ? imu : kind == 3 || kind == 5 ? odo : gps;
      uint64_t q = chance(0.6) && mine.size() > 3 ? mine[in(0, 3)] + in(-1, 1) : ask(mine);
      at("%zu imu, %zu gps, %zu odometry samples, kind %d, time %lu", imu.size(), gps.size(), odo.size(), kind, q);
      if (kind == 0)
        c.TrimSensorData(data::kImuData, T(q));
      else if (kind == 1)
        c.TrimSensorData(data::kGpsData, T(q));
      else if (kind == 2)
        c.TrimSensorData(data::kPointCloudData, T(q));
      else if (kind == 4)
        c.InterpolateGps(T(q), 0.01, true);
      else if (kind == 5)
        c.InterpolateOdom(T(q), 0.01, true);
      auto imu2 = have(c.imu_data_), gps2 = have(c.gps_data_), odo2 = have(c.odom_data_);
      size_t di = dropped("imu", imu, imu2), dg = dropped("gps", gps, gps2), dd = dropped("odometry", odo, odo2);
      for (size_t i = 0; i < imu2.size(); ++i)
        EXPECT(c.imu_data_[i].acceleration == imu_v[i + di].acceleration &&
                   c.imu_data_[i].angular_velocity == imu_v[i + di].angular_velocity,
               "imu sample %zu changed", i);
      for (size_t i = 0; i < gps2.size(); ++i)
        EXPECT(c.gps_data_[i].enu_position == gps_v[i + dg].enu_position && c.gps_data_[i].lat_lon_alt == gps_v[i + dg].lat_lon_alt &&
                   c.gps_data_[i].status_fixed == gps_v[i + dg].status_fixed,
               "gps sample %zu changed", i);
      EXPECT(kind == 0 || !di, "%zu imu samples dropped", di);
      EXPECT(kind == 1 || kind == 4 || !dg, "%zu gps samples dropped", dg);
      EXPECT(kind == 5 || !dd, "%zu odometry samples dropped", dd);
      if (kind < 2) {
        size_t d = kind ? dg : di;
        for (size_t i = 0; i < d; ++i) EXPECT(mine[i] < q, "sample %zu of %zu at %lu was dropped", i, mine.size(), mine[i]);
        EXPECT(!d || mine.size() - d >= 2, "%zu of %zu samples dropped", d, mine.size());
      }
      if (kind >= 4) {
        size_t d = kind == 4 ? dg : dd;
        for (size_t i = 0; i < d; ++i)
          EXPECT(i + 2 < mine.size() && mine[i + 1] <= q && q <= mine.back(), "sample %zu of %zu at %lu was dropped", i, mine.size(),
                 mine[i]);
      }
    }
  }
  return done();
}
