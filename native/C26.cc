// Built with the thread sanitizer: a data race ends the run with status 66.
#include "collector.h"
#include <thread>

extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0"; }

static pcl::PointCloud<pcl::PointXYZI>::Ptr scan(int n, uint64_t us) {
  pcl::PointCloud<pcl::PointXYZI>::Ptr c(new pcl::PointCloud<pcl::PointXYZI>);
  c->header.stamp = us;
  for (int i = 0; i < n; ++i) {
    pcl::PointXYZI p;
    p.x = i, p.y = us % 100, p.z = 1, p.intensity = 2;
    c->push_back(p);
  }
  return c;
}

int main() {
  setup();
  at("concurrent producers, readers and the worker of one data collector");
  while (more()) {
    ++cases();
    pre_processers::filter::Factory f;
    data::DataCollectorOptions o;
    o.accumulate_cloud_num = in(1, 3);
    uint64_t base = in(1, 1000) * G;
    const int n = 60;
    DataCollector c(o, &f);
    std::vector<std::thread> ts;
    ts.emplace_back([&] {
      for (int i = 0; i < n; ++i) {
        data::ImuMsg m;
        m.header.stamp = T(base + i * 1000000);
        m.linear_acceleration.setZero(), m.angular_velocity.setZero();
        c.AddSensorData(m);
      }
    });
    ts.emplace_back([&] {
      data::NavSatFixMsg m;
      m.status.status = data::STATUS_FIX;
      m.latitude = 30, m.longtitude = 120, m.altitude = 5;
      for (int i = 0; i < n; ++i) {
        m.header.stamp = T(base + i * 1000000);
        m.latitude += 1e-6;
        c.AddSensorData(m);
      }
    });
    ts.emplace_back([&] {
      data::OdomMsg m;
      m.pose.pose.orientation.setIdentity();
      for (int i = 0; i < n; ++i) {
        m.header.stamp = T(base + i * 1000000);
        m.pose.pose.position = Vector3d(i, 0, 0);
        c.AddSensorData(m);
      }
    });
    ts.emplace_back([&] {
      for (int i = 0; i < n; ++i) {
        auto s = scan(4, base / 1000 + i);
        c.AddSensorData<pcl::PointXYZI>(s);
      }
    });
    ts.emplace_back([&] {
      for (int i = 0; i < 40; ++i) {
        SimpleTime q = T(base + i * 1000000 + 300000);
        c.InterpolateGps(q, 0.01, i % 2);
        c.InterpolateOdom(q, 0.01, i % 3 == 0);
        c.TrimSensorData(data::kImuData, q);
        if (i % 8 == 0) c.TrimSensorData(data::kGpsData, q);
        if (i % 4 == 0) c.GetGpsReference();
        if (i == 20) c.RawGpsDataToFile("gps.pcd"), c.RawOdomDataToFile("odom.pcd");
      }
    });
    ts.emplace_back([&] {
      for (int i = 0; i < 200; ++i) {
        auto x = c.GetNewCloud();
        if (x && x->points.size() != 4u * o.accumulate_cloud_num) mismatch("a cloud of %zu points", x->points.size());
        c.GetRemainingCloudSize();
        if (i == 150) c.ClearAllCloud();
        if (!x) std::this_thread::yield();
      }
    });
    for (auto& t : ts) t.join();
  }
  return done();
}
