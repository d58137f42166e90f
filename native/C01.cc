#include "common.h"
#include "common/simple_time.h"
using namespace vf;
using static_map::SimpleTime;
typedef __int128 W;
static const W G = 1000000000;

static uint32_t secs() {
  double r = uni();
  return r < 0.3 ? in(0, 3) : r < 0.5 ? 0xFFFFFFFFu - in(0, 3) : r < 0.6 ? 0x7FFFFFFFu + in(-2, 2) : in(0, 0xFFFFFFFFll);
}
static uint32_t nano() {
  double r = uni();
  return r < 0.3 ? in(0, 3) : r < 0.5 ? 999999999 - in(0, 3) : inum(0, 999999999);
}

int main() {
  setup();
  if (!freopen("/dev/null", "w", stderr)) return 2;
  while (more()) {
    uint32_t as = secs(), an = nano(), bs = secs(), bn = nano();
    if (chance(0.3)) bs = as;
    if (chance(0.2)) bn = an + (an < 999999998 ? in(0, 1) : 0);
    SimpleTime a(as, an), b(bs, bn);
    W x = G * as + an, y = G * bs + bn;
    at("a=%us%uns b=%us%uns", as, an, bs, bn);
    EXPECT(a.ToNanoSec() == (int64_t)x, "nanosecond count %lld", (long long)a.ToNanoSec());
    EXPECT(SimpleTime::FromNanoSec(a.ToNanoSec()).ToNanoSec() == (int64_t)x, "round trip");
    EXPECT(SimpleTime::FromNanoSec(a.ToNanoSec()).DebugString() == a.DebugString(), "round trip representation");
    EXPECT((a < b) == (x < y), "a < b is %d", a < b);
    EXPECT((a <= b) == (x <= y), "a <= b is %d", a <= b);
    EXPECT((a > b) == (x > y), "a > b is %d", a > b);
    EXPECT((a >= b) == (x >= y), "a >= b is %d", a >= b);
    bool e = x - y <= 1 && y - x <= 1;
    EXPECT((a == b) == e && (a != b) == !e, "equality");
    if (chance(0.02)) {  // prints when clamping
      EXPECT((a - b).ToNanoSec() == (int64_t)(x > y ? x - y : 0), "difference %lld", (long long)(a - b).ToNanoSec());
    } else if (x >= y) {
      EXPECT((a - b).ToNanoSec() == (int64_t)(x - y), "difference %lld", (long long)(a - b).ToNanoSec());
    }
    if (x + y < ((W)1 << 32) * G) {
      EXPECT((a + b).ToNanoSec() == (int64_t)(x + y), "sum %lld", (long long)(a + b).ToNanoSec());
      SimpleTime c = a;
      c += b;
      EXPECT(c.ToNanoSec() == (int64_t)(x + y), "in-place sum");
      EXPECT(c.DebugString() == SimpleTime::FromNanoSec((uint64_t)(x + y)).DebugString(), "sum not normalised");
    }
    int64_t d = chance(0.3) ? in(1, 10) : chance(0.05) ? -in(1, 2147483648ll) : chance(0.5) ? in(1, 2147483647) : 1 << in(0, 30);
    if (chance(0.01)) d = 0;
    if (chance(0.01)) d = -2147483648ll;
    add(" divisor=%lld", (long long)d);
    SimpleTime c = a;
    c /= (int)d;
    W q = d == 0 ? x : x / (d < 0 ? -d : d);
    EXPECT(c.ToNanoSec() == (int64_t)q, "quotient %lld", (long long)c.ToNanoSec());
    uint64_t us = chance(0.5) ? in(0, 5000000) : in(0, 4294967295999999ll);
    SimpleTime l = static_map::ToLocalTime(us);
    EXPECT(l.ToNanoSec() == (int64_t)(us * 1000), "from micro-seconds %llu", (unsigned long long)us);
    EXPECT(static_map::ToPclTime(a) == (uint64_t)(x / 1000), "to micro-seconds");
    double s = chance(0.3) ? in(0, 4294967295ll) + in(0, 1023) / 1024.0 : uni(0, 4294967295.0);
    if (chance(0.05)) s = -s;
    add(" sec=%.17g", s);
    SimpleTime f = SimpleTime::FromSec(s);
    if (s < 0) {
      EXPECT(f.ToNanoSec() == 0, "negative seconds");
    } else {
      W whole = (W)s;
      double fr = (s - (double)whole) * 1e9;
      EXPECT(f.ToNanoSec() / 1000000000 == (int64_t)whole, "whole seconds %lld", (long long)f.ToNanoSec());
      EXPECT(std::fabs((double)(f.ToNanoSec() % 1000000000) - fr) <= 1.5, "sub-second part %lld for %.9f",
             (long long)(f.ToNanoSec() % 1000000000), fr);
    }
    double t = as + an * 1e-9;
    EXPECT(near(a.ToSec(), t, 1e-15), "ToSec %.17g", a.ToSec());
  }
  return done();
}
