#include "builder/data/cloud_types.h"
#include "common.h"
using namespace vf;
using namespace static_map::data;

static InnerCloudType make(int n) {
  InnerCloudType c;
  c.stamp = static_map::SimpleTime(static_cast<uint32_t>(in(0, 4000000000ll)), static_cast<uint32_t>(in(0, 999999999)));
  for (int i = 0; i < n; ++i) {
    InnerPointType p;
    p.x = num(40), p.y = num(40), p.z = num(40);
    p.intensity = static_cast<float>(in(0, 255));
    p.factor = static_cast<float>(in(0, 4096)) / 4096.f;
    c.points.push_back(p);
  }
  return c;
}
static bool same(const InnerPointType& a, const InnerPointType& b) { return !memcmp(&a, &b, sizeof a); }
static bool same(const InnerCloudType& a, const InnerCloudType& b) {
  if (!(a.stamp == b.stamp) || a.points.size() != b.points.size()) return false;
  for (size_t i = 0; i < a.points.size(); ++i)
    if (!same(a.points[i], b.points[i])) return false;
  return true;
}
static Eigen::Matrix4d rigid() {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  Eigen::Vector3d ax(uni(-1, 1), uni(-1, 1), uni(-1, 1));
  if (ax.norm() < 0.1) ax = Eigen::Vector3d::UnitY();
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(chance(0.2) ? 0 : uni(-3, 3), ax.normalized()).toRotationMatrix();
  for (int i = 0; i < 3; ++i) m(i, 3) = chance(0.2) ? 0 : uni(-100, 100);
  return m;
}
static Eigen::Vector3d move(const Eigen::Matrix4d& m, double x, double y, double z) {
  Eigen::Vector4d h(x, y, z, 1);
  Eigen::Vector4d r = m * h;
  return r.topRows(3);
}
static bool close(const Eigen::Vector3d& a, double x, double y, double z) {
  double tol = 1e-5 * (300 + a.norm());
  return std::fabs(a[0] - x) <= tol && std::fabs(a[1] - y) <= tol && std::fabs(a[2] - z) <= tol;
}

int main() {
  setup();
  while (more()) {
    int n = chance(0.1) ? 0 : in(0, 40);
    InnerCloudType a = make(n), b = make(in(0, 10));
    const InnerCloudType a0 = a, b0 = b;
    Eigen::Matrix4d m = rigid();
    at("%d points, transform", n);
    for (int i = 0; i < 12; ++i) add(" %.9g", m(i / 4, i % 4));
    for (int i = 0; i < n && i < 6; ++i) add(" (%g %g %g)", a.points[i].x, a.points[i].y, a.points[i].z);
    InnerCloudType out = make(in(0, 5));
    a.ApplyTransformToOutput(m, &out);
    EXPECT(same(a, a0), "the source changed");
    EXPECT(out.stamp == a0.stamp, "time stamp of the output");
    EXPECT(out.points.size() == a0.points.size(), "%zu points in the output", out.points.size());
    for (size_t i = 0; i < a0.points.size(); ++i) {
      const auto& p = a0.points[i];
      const auto& q = out.points[i];
      EXPECT(close(move(m, p.x, p.y, p.z), q.x, q.y, q.z), "point %zu moved to %g %g %g", i, q.x, q.y, q.z);
      EXPECT(q.intensity == p.intensity && q.factor == p.factor, "attributes of point %zu", i);
    }
    InnerCloudType c = a0;
    c.ApplyTransformInplace(m);
    EXPECT(same(c, out), "in place differs from to output");
    c = a0;
    c += b;
    EXPECT(same(b, b0), "the appended cloud changed");
    EXPECT(c.stamp == a0.stamp, "appending changed the time stamp");
    EXPECT(c.points.size() == a0.points.size() + b0.points.size(), "appending gives %zu points", c.points.size());
    for (size_t i = 0; i < c.points.size(); ++i)
      EXPECT(same(c.points[i], i < a0.points.size() ? a0.points[i] : b0.points[i - a0.points.size()]), "appended point %zu", i);
    if (n == 0) continue;
    // matrix form
    EigenPointCloud e(a0.points);
    const bool normals = chance(0.5);
    if (normals) {
      e.normals.resize(3, n);
      for (int i = 0; i < n; ++i) e.normals.col(i) = Eigen::Vector3d(uni(-1, 1), uni(-1, 1), uni(0.1, 1)).normalized();
    }
    EigenPointCloud e0 = e;
    e.ApplyTransform(m);
    EXPECT(e.points.cols() == n && e.points.rows() == 3, "matrix form has %d points", static_cast<int>(e.points.cols()));
    for (int i = 0; i < n; ++i) {
      EXPECT(close(move(m, e0.points(0, i), e0.points(1, i), e0.points(2, i)), e.points(0, i), e.points(1, i), e.points(2, i)),
             "matrix form, point %d", i);
      if (normals) {
        Eigen::Vector3d want = m.block<3, 3>(0, 0) * e0.normals.col(i);
        EXPECT(close(want, e.normals(0, i), e.normals(1, i), e.normals(2, i)), "normal %d of the matrix form: %g %g %g for %g %g %g",
               i, e.normals(0, i), e.normals(1, i), e.normals(2, i), want[0], want[1], want[2]);
      }
    }
    EXPECT(e.factors == e0.factors && e.indices == e0.indices, "matrix form: factors or indices changed");
    // motion compensation
    EigenPointCloud k = e0;
    k.ApplyMotionCompensation(m);
    EXPECT(k.points.cols() == n, "motion compensation changes the number of points");
    Eigen::AngleAxisd aa(Eigen::Matrix3d(m.block<3, 3>(0, 0)));
    for (int i = 0; i < n; ++i) {
      float f = e0.factors[i];
      Eigen::Vector3d want = Eigen::AngleAxisd(aa.angle() * f, aa.axis()).toRotationMatrix() * e0.points.col(i) +
                             f * m.block<3, 1>(0, 3);
      EXPECT(close(want, k.points(0, i), k.points(1, i), k.points(2, i)), "motion compensation of point %d (factor %g)", i, f);
    }
    // shared holder
    auto d = std::make_shared<InnerPointCloudData>(std::make_shared<InnerCloudType>(a0));
    d->TransformCloud(m);
    EXPECT(same(*d->GetInnerCloud(), out), "holder: points");
    EXPECT((d->GetEigenCloud()->points - e.points).cwiseAbs().maxCoeff() < 1e-9, "holder: matrix form");
    EXPECT(d->GetTime() == a0.stamp, "holder: time");
  }
  return done();
}
