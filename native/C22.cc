#include "builder/submap.h"
#include "common.h"
using namespace vf;
using static_map::FrameId;
using static_map::SubmapId;

static int sgn(const int* a, const int* b, int n) {
  for (int i = 0; i < n; ++i)
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
template <typename T>
static void check(const T& x, const T& y, int s) {
  EXPECT((x < y) == (s < 0), "less");
  EXPECT((y < x) == (s > 0), "greater");
  EXPECT((x == y) == (s == 0), "equal");
  EXPECT((x != y) == (s != 0), "unequal");
}

int main() {
  setup();
  while (more()) {
    int a[3], b[3];
    for (int i = 0; i < 3; ++i) {
      int64_t m = chance(0.5) ? 2 : chance(0.5) ? 300 : 2147483647;
      a[i] = in(chance(0.2) ? -m - (m > 400) : 0, m);
      b[i] = chance(0.4) ? a[i] : in(0, m);
    }
    at("(%d %d %d) (%d %d %d)", a[0], a[1], a[2], b[0], b[1], b[2]);
    FrameId f, g;
    f.trajectory_index = a[0], f.submap_index = a[1], f.frame_index = a[2];
    g.trajectory_index = b[0], g.submap_index = b[1], g.frame_index = b[2];
    check(f, g, sgn(a, b, 3));
    SubmapId s, t;
    s.trajectory_index = a[0], s.submap_index = a[1];
    t.trajectory_index = b[0], t.submap_index = b[1];
    check(s, t, sgn(a, b, 2));
  }
  return done();
}
