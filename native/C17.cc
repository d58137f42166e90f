#include "common.h"
#include "common/math.h"
using namespace vf;
using namespace static_map::common;
typedef Eigen::Matrix3d M;

static M rx(double a) { M m; m << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return m; }
static M ry(double a) { M m; m << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return m; }
static M rz(double a) { M m; m << cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1; return m; }
static bool close(const Eigen::MatrixXd& a, const Eigen::MatrixXd& b, double tol) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() <= tol;
}

template <typename T>
static void poses(double tol) {
  Eigen::Vector6<T> v;
  for (int i = 0; i < 3; ++i) v[i] = num(100);
  double p = M_PI - 0.05;
  v[3] = chance(0.2) ? in(-3, 3) : uni(-p, p);
  v[4] = chance(0.2) ? in(-1, 1) : uni(-1.5, 1.5);
  v[5] = chance(0.2) ? in(-3, 3) : uni(-p, p);
  at("%s pose %.9g %.9g %.9g  %.9g %.9g %.9g", sizeof(T) == 4 ? "float" : "double", v[0], v[1], v[2], v[3], v[4], v[5]);
  M want = rz(v[5]) * ry(v[4]) * rx(v[3]);
  Eigen::Rigid3::Transform<T> t = Vector6ToTransform<T>(v);
  EXPECT(close(t.template block<3, 3>(0, 0).template cast<double>(), want, tol), "rotation part");
  EXPECT(t(0, 3) == v[0] && t(1, 3) == v[1] && t(2, 3) == v[2], "translation part");
  EXPECT(t(3, 0) == 0 && t(3, 1) == 0 && t(3, 2) == 0 && t(3, 3) == 1, "last row");
  double loose = tol / std::cos(double(v[4]));
  EXPECT(close(TransformToVector6<T>(t).template cast<double>(), v.template cast<double>(), 10 * loose), "pose and back");
  Eigen::Rigid3::Eulers<T> e(v[3], v[4], v[5]);
  Eigen::Quaternion<T> q = EulerAnglesToQuaternion<T>(e);
  EXPECT(std::fabs(q.norm() - 1) <= tol, "unit quaternion");
  EXPECT(close(q.toRotationMatrix().template cast<double>(), want, tol), "quaternion");
  EXPECT(close(EulerAnglesToRotationMatrix<T>(e).template cast<double>(), want, tol), "matrix");
  EXPECT(close(QuaternionToEulers<T>(q).template cast<double>(), e.template cast<double>(), 10 * loose), "quaternion to angles");
  Eigen::Matrix<T, 3, 3> m = want.template cast<T>();
  EXPECT(close(RotationMatrixToEulerAngles<T>(m).template cast<double>(), e.template cast<double>(), 10 * loose),
         "matrix to angles");
  EXPECT(close(Rotation<T>(t).template cast<double>(), t.template block<3, 3>(0, 0).template cast<double>(), 0), "Rotation");
  EXPECT(close(Translation<T>(t).template cast<double>(), t.template block<3, 1>(0, 3).template cast<double>(), 0), "Translation");
  // the pitch singularity still describes the same rotation
  Eigen::Rigid3::Eulers<T> s(uni(-3, 3), chance(0.5) ? M_PI / 2 : -M_PI / 2, uni(-3, 3));
  add(" singular %.9g %.9g %.9g", s[0], s[1], s[2]);
  M sm = rz(s[2]) * ry(s[1]) * rx(s[0]);
  if (sizeof(T) == 8) {
    Eigen::Vector3d b = RotationMatrixToEulerAngles<double>(sm);
    EXPECT(close(rz(b[2]) * ry(b[1]) * rx(b[0]), sm, 1e-5), "angles at the singularity");
  }
}

int main() {
  setup();
  while (more()) {
    poses<double>(1e-9);
    poses<float>(2e-5);
    double a = num(100), b = num(100), v = num(200);
    if (a > b) std::swap(a, b);
    at("clamp %g to %g %g", v, a, b);
    EXPECT(Clamp<double>(v, a, b) == (v < a ? a : v > b ? b : v), "clamp");
    int ai = in(-9, 9), bi = ai + in(0, 9), vi = in(-20, 20);
    at("clamp %d to %d %d", vi, ai, bi);
    EXPECT(Clamp<int>(vi, ai, bi) == (vi < ai ? ai : vi > bi ? bi : vi), "clamp");
    double d = uni(-60, 60);
    if (chance(0.2)) d = in(-12, 12) * (M_PI / 4);
    at("wrap %.17g", d);
    double r = NormalizeAngleDifference<double>(d);
    EXPECT(r >= -M_PI - 1e-9 && r <= M_PI + 1e-9, "wrapped to %.17g", r);
    double k = (r - d) / (2 * M_PI);
    EXPECT(std::fabs(k - std::round(k)) < 1e-9, "wrapped to %.17g", r);
    if (std::fabs(d) <= M_PI) EXPECT(r == d, "changed to %.17g", r);
    float rf = NormalizeAngleDifference<float>(float(d));
    EXPECT(std::fabs(rf) <= M_PI + 1e-5 && std::fabs(std::remainder(double(rf) - float(d), 2 * M_PI)) < 1e-4, "float wrap %g", rf);
  }
  return done();
}
