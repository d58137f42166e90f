// Support for the native validation harnesses (bounded, labelled as such).
#pragma once
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

inline uint64_t& state() {
  static uint64_t s = 0x9E3779B97F4A7C15ull *
                      (1 + strtoull(getenv("VF_SEED") ? getenv("VF_SEED") : "1", 0, 10));
  return s;
}
inline uint64_t u64() {
  uint64_t z = (state() += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
// integer in [a, b]
inline int64_t in(int64_t a, int64_t b) { return a + static_cast<int64_t>(u64() % static_cast<uint64_t>(b - a + 1)); }
inline double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
inline double uni(double a, double b) { return a + (b - a) * uni(); }
inline bool chance(double p) { return uni() < p; }

inline std::vector<double>& dict() {
  static std::vector<double> d = [] {
    std::vector<double> r;
    if (getenv("VF_DICT")) {
      std::ifstream f(getenv("VF_DICT"));
      std::string w;
      while (f >> w) r.push_back(strtod(w.c_str(), 0));
    }
    return r;
  }();
  return d;
}
// A "nice" number: small multiples of 1/4 are exactly representable and so
// are their sums and products; now and then a value of the code's own text.
inline double num(double span = 8) {
  if (!dict().empty() && chance(0.15)) {
    double v = dict()[u64() % dict().size()];
    if (std::fabs(v) < 1e6) return v;
  }
  if (chance(0.05)) return 0;
  return in(-static_cast<int64_t>(span * 4), static_cast<int64_t>(span * 4)) / 4.0;
}
inline int64_t inum(int64_t a, int64_t b) {
  if (!dict().empty() && chance(0.2)) {
    double v = dict()[u64() % dict().size()] + in(-1, 1);
    if (v >= a && v <= b) return static_cast<int64_t>(v);
  }
  return in(a, b);
}

inline double now() {
  struct timeval t;
  gettimeofday(&t, 0);
  return t.tv_sec + 1e-6 * t.tv_usec;
}
inline double& started() {
  static double t = now();
  return t;
}
inline double budget() { return getenv("VF_BUDGET") ? atof(getenv("VF_BUDGET")) : 5; }
inline bool thorough() { return getenv("VF_TIER") && !strcmp(getenv("VF_TIER"), "thorough"); }
// True while less than the given share of the time budget is used.
inline bool more(double share = 1.0) { return now() - started() < budget() * share; }

inline char* what() {
  static char buf[8192];
  return buf;
}
inline long& cases() {
  static long n = 0;
  return n;
}
// Names the case being run; printed if it goes wrong or the process dies.
inline void at(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(what(), 8192, fmt, ap);
  va_end(ap);
  ++cases();
}
inline void add(const char* fmt, ...) {
  size_t n = strlen(what());
  va_list ap;
  va_start(ap, fmt);
  if (n < 8000) vsnprintf(what() + n, 8192 - n, fmt, ap);
  va_end(ap);
}
inline void mismatch(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  printf("MISMATCH %s | case: %s\n", b, what());
  printf("CASES %ld\n", cases());
  fflush(stdout);
  _exit(1);
}
inline void onsignal(int s) {
  char b[9000];
  int n = snprintf(b, sizeof b, "MISMATCH process died with signal %d (failed CHECK or memory error) | case: %s\n", s,
                   what());
  if (write(1, b, n)) {
  }
  _exit(1);
}
inline void setup() {
  started();
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  int s[] = {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL};
  for (int x : s) signal(x, onsignal);
}
inline int done() {
  printf("CASES %ld\n", cases());
  fflush(stdout);
  _exit(0);
}
// Runs f in a child: true if the child ended by abort (a failed CHECK).
// Only for code not using OpenMP regions opened by the parent before.
inline bool aborts(const std::function<void()>& f) {
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int s[] = {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL};
    for (int x : s) signal(x, SIG_DFL);
    if (!freopen("/dev/null", "w", stderr)) _exit(7);
    if (!freopen("/dev/null", "w", stdout)) _exit(7);
    alarm(20);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool near(double a, double b, double tol) {
  return same(a, b) || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
}  // namespace vf

#define EXPECT(c, ...)                      \
  do {                                      \
    if (!(c)) ::vf::mismatch(__VA_ARGS__);  \
  } while (0)
