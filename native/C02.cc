#include "common.h"
#include "common/simple_time.h"
using namespace vf;
using static_map::SimpleTime;
struct Sample {
  SimpleTime time;
  int value;
};

int main() {
  setup();
  while (more()) {
    int n = chance(0.5) ? in(2, 6) : chance(0.9) ? in(2, 80) : in(80, 3000);
    std::vector<int64_t> t(n);
    int64_t x = chance(0.5) ? in(0, 5) : in(0, 1000000000000000000ll);
    int style = in(0, 3);
    for (int i = 0; i < n; ++i) {
      t[i] = x;
      x += style == 0 ? 1 : style == 1 ? in(0, 2) : style == 2 ? in(0, 2000000000) : in(1, 1000000000000ll);
    }
    if (t[0] == t[n - 1]) continue;
    std::vector<Sample> v(n);
    for (int i = 0; i < n; ++i) v[i].time = SimpleTime::FromNanoSec(t[i]), v[i].value = i;
    for (int q = 0; q < 10; ++q) {
      int64_t y = chance(0.6) ? t[in(0, n - 1)] + in(-1, 1) : in(t[0], t[n - 1] - 1);
      if (y < t[0] || y >= t[n - 1]) continue;
      at("%d samples from %lld to %lld, time %lld", n, (long long)t[0], (long long)t[n - 1], (long long)y);
      if (n <= 20)
        for (int i = 0; i < n; ++i) add(" %lld", (long long)t[i]);
      auto r = static_map::TimeStampBinarySearch(v, SimpleTime::FromNanoSec(y));
      EXPECT(r.first >= 0 && r.second == r.first + 1 && r.second < n, "positions %d %d", r.first, r.second);
      EXPECT(t[r.first] <= y && y < t[r.second], "positions %d %d do not enclose the time", r.first, r.second);
    }
  }
  return done();
}
