#include "common.h"
#include "descriptor/m2dp.h"
using namespace vf;
using static_map::descriptor::M2dp;
using static_map::descriptor::matchTwoM2dpDescriptors;

int main() {
  setup();
  while (more()) {
    int n = chance(0.3) ? in(0, 12) : in(10, 200), m = chance(0.7) ? n : in(0, 30);
    M2dp::Descriptor p(n), q(m);
    for (int i = 0; i < n; ++i) p[i] = uni(-2, 2);
    for (int i = 0; i < m; ++i) q[i] = chance(0.5) || i >= n ? uni(-2, 2) : p[i] * (chance(0.5) ? 1 : -1);
    if (n == m && chance(0.2)) q = p;
    if (n == m && chance(0.2)) q = -2 * p;
    at("sizes %d %d:", n, m);
    for (int i = 0; i < n && i < 12; ++i) add(" %.9g", p[i]);
    add(" |");
    for (int i = 0; i < m && i < 12; ++i) add(" %.9g", q[i]);
    double r = matchTwoM2dpDescriptors(p, q), r2 = matchTwoM2dpDescriptors(q, p);
    if (n != m || n < 10) {
      EXPECT(r == -1 && r2 == -1, "not refused: %g", r);
      continue;
    }
    double sp = 0, sq = 0, pp = 0, qq = 0, pq = 0;
    for (int i = 0; i < n; ++i) sp += p[i], sq += q[i], pp += p[i] * p[i], qq += q[i] * q[i], pq += double(p[i]) * q[i];
    double vp = n * pp - sp * sp, vq = n * qq - sq * sq;
    if (vp < 1e-1 || vq < 1e-1) continue;
    double want = std::fabs((n * pq - sp * sq) / std::sqrt(vp * vq));
    EXPECT(std::fabs(r - want) < 1e-3, "score %g, correlation %g", r, want);
    EXPECT(std::fabs(r - r2) < 1e-4, "score %g, other order %g", r, r2);
    EXPECT(r >= 0 && r < 1 + 1e-3, "score %g", r);
  }
  return done();
}
