#include "common.h"
#include "common/math.h"
using namespace vf;
using namespace static_map::common;

template <typename T>
static Eigen::Matrix<T, 4, 4> pose() {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  Eigen::Vector3d ax(uni(-1, 1), uni(-1, 1), uni(-1, 1));
  if (ax.norm() < 0.1) ax = Eigen::Vector3d::UnitX();
  double an = chance(0.1) ? 0 : chance(0.2) ? in(-2, 2) * 0.75 : uni(-3, 3);
  m.block<3, 3>(0, 0) = Eigen::AngleAxisd(an, ax.normalized()).toRotationMatrix();
  for (int i = 0; i < 3; ++i) m(i, 3) = num(50);
  return m.cast<T>();
}
static double diff(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b) { return (a - b).cwiseAbs().maxCoeff(); }

template <typename T>
static void run(double tol) {
  auto a = pose<T>(), b = pose<T>();
  float f = chance(0.2) ? 0 : chance(0.25) ? 1 : uni();
  at("%s factor %.9g", sizeof(T) == 4 ? "float" : "double", f);
  for (int i = 0; i < 16; ++i) add(" %.9g", a(i / 4, i % 4));
  for (int i = 0; i < 16; ++i) add(" %.9g", b(i / 4, i % 4));
  Eigen::Matrix4d r = InterpolateTransform<T>(a, b, f).template cast<double>();
  Eigen::Matrix4d ad = a.template cast<double>(), bd = b.template cast<double>();
  Eigen::AngleAxisd d(Eigen::Matrix3d(ad.block<3, 3>(0, 0).transpose() * bd.block<3, 3>(0, 0)));
  if (d.angle() < 3.0) {  // the shorter way is unique
    Eigen::Matrix3d want = ad.block<3, 3>(0, 0) * Eigen::AngleAxisd(d.angle() * f, d.axis()).toRotationMatrix();
    EXPECT(diff(r.block<3, 3>(0, 0), want) < tol, "rotation off by %g", diff(r.block<3, 3>(0, 0), want));
  }
  if (f == 0) EXPECT(diff(r, ad) < tol, "factor 0");
  if (f == 1) EXPECT(diff(r, bd) < tol * 50, "factor 1");
  for (int i = 0; i < 3; ++i)
    EXPECT(near(r(i, 3), ad(i, 3) + (bd(i, 3) - ad(i, 3)) * f, tol * 50), "translation %d: %.9g", i, r(i, 3));
  EXPECT(r(3, 0) == 0 && r(3, 1) == 0 && r(3, 2) == 0 && r(3, 3) == 1, "last row");
  // averaging
  int n = in(1, 6);
  std::vector<Eigen::Matrix<T, 4, 4>> v;
  Eigen::Vector3d st(0, 0, 0), se(0, 0, 0);
  at("%s average of %d", sizeof(T) == 4 ? "float" : "double", n);
  for (int i = 0; i < n; ++i) {
    Eigen::Vector6<double> p;
    for (int k = 0; k < 3; ++k) p[k] = num(50), p[k + 3] = uni(-1.4, 1.4);
    for (int k = 0; k < 6; ++k) add(" %.9g", p[k]);
    v.push_back(Vector6ToTransform<double>(p).template cast<T>());
    st += p.topRows(3), se += p.bottomRows(3);
  }
  r = AverageTransforms<T>(v).template cast<double>();
  Eigen::Vector6<double> want;
  want.topRows(3) = st / n, want.bottomRows(3) = se / n;
  EXPECT(diff(r, Vector6ToTransform<double>(want)) < tol * 50, "average off by %g", diff(r, Vector6ToTransform<double>(want)));
}

int main() {
  setup();
  auto a = pose<double>(), b = pose<double>();
  for (float f : {-0.001f, 1.001f, -5.f, 7.f}) {
    at("factor %g", f);
    EXPECT(aborts([&] { InterpolateTransform<double>(a, b, f); }), "accepted");
  }
  at("average of nothing");
  EXPECT(aborts([&] { AverageTransforms<double>({}); }), "accepted");
  while (more()) {
    run<double>(1e-6);
    run<float>(2e-4);
  }
  return done();
}
