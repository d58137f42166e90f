#include "collector.h"

int main() {
  setup();
  while (more()) {
    DataCollector c(data::DataCollectorOptions{}, nullptr);
    Fixes f;
    double bad = chance(0.4) ? 0 : uni() * 0.5;
    for (uint64_t t : times(length(), kGpsGaps)) f.add(c, t, !chance(bad));
    for (int k = 0; k < 300; ++k) {
      uint64_t q = ask(f.t);
      double th = chance(0.3) ? 0.5 : chance(0.5) ? uni() * 0.5 : 0.005;
      at("%zu samples, query %lu threshold %g", f.t.size(), q, th);
      auto r = c.InterpolateGps(T(q), th);
      f.check(r.get(), q, th);
    }
    // increasing queries, older samples dropped on the way
    std::vector<uint64_t> qs;
    for (int k = 0; k < 60; ++k) qs.push_back(ask(f.t));
    std::sort(qs.begin(), qs.end());
    for (uint64_t q : qs) {
      at("%zu samples, query %lu with trimming", f.t.size(), q);
      auto r = c.InterpolateGps(T(q), 0.005, true);
      f.check(r.get(), q, 0.005);
      if (f.t.size() > 1 && q >= f.t.front() && q <= f.t.back()) {
        size_t i = 0;
        while (i + 2 < f.t.size() && f.t[i + 1] <= q) ++i;
        auto u = c.InterpolateGps(T(f.t[i]), 0.005);
        auto w = c.InterpolateGps(T(f.t[i + 1]), 0.005);
        if (f.pairok(i)) EXPECT(u || w, "the enclosing pair was dropped");
        f.dropto(i);
      }
    }
  }
  return done();
}
