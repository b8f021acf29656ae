// Concrete search for Duration, TscHelper, WallClock, SlowOpTracker: random operation sequences bracketed by direct reads of the counter; conversions against exact arithmetic.
#include "common/base/Base.h"
#define private public
#include "common/time/Duration.h"
#include "common/time/detail/TscHelper.h"
#include "common/time/WallClock.h"
#include "common/base/SlowOpTracker.h"
#undef private
#include <x86intrin.h>
#include <time.h>
using namespace nebula::time; using nebula::SlowOpTracker; typedef __int128 I;
static int bad = 0; static void fail(const char* m, long double a = 0, long double b = 0, long double c = 0) { printf("FAIL %s: %.3Lf (expected %.3Lf .. %.3Lf)\n", m, a, b, c); if (++bad > 20) exit(1); }
static uint64_t rs = 88172645463325252ull; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void spin() { uint64_t n = rnd() % 20000, t = __rdtsc(); while (__rdtsc() - t < n) {} }
static void between(const char* m, long double x, long double lo, long double hi) { if (x < lo || x > hi) fail(m, x, lo, hi); }
int main() {
  auto& T = TscHelper::get();
  { uint64_t a = __rdtsc(), b = TscHelper::readTsc(), c = __rdtsc(); if (b < a || b > c) fail("readTsc", b, a, c); if (T.firstTick_ > a) fail("first tick", T.firstTick_, 0, a); }
  { long double f = T.ticksPerUSecFactor_; if (!(f > 1e-7 && f < 2)) fail("ticks per microsecond", f, 1e-7, 2); between("ms factor", T.ticksPerMSecFactor_ * 1000.0L / f, 0.999, 1.001); between("s factor", T.ticksPerSecFactor_ * 1000000.0L / f, 0.999, 1.001);
    uint64_t a = __rdtsc(); struct timespec x, y; clock_gettime(CLOCK_MONOTONIC, &x); do clock_gettime(CLOCK_MONOTONIC, &y); while ((y.tv_sec - x.tv_sec) * 1000000000L + y.tv_nsec - x.tv_nsec < 50000000); uint64_t d = __rdtsc() - a; between("calibration", d * f, 50000 * 0.98L, 50000 * 1.2L); }
  // Duration: the elapsed ticks lie between what the reads around each operation allow
  for (int r = 0; r < 3000; r++) {
    bool p0 = rnd() % 2; uint64_t x = __rdtsc(); bool dflt = rnd() % 4 == 0; if (dflt) p0 = false; Duration d = dflt ? Duration() : Duration(p0); uint64_t y = __rdtsc();
    bool run = !p0; uint64_t lo = 0, hi = 0, s0 = x, s1 = y;   // accumulated in [lo, hi]; running since a point in [s0, s1]
    for (int k = 0; k < 12; k++) {
      spin(); int op = rnd() % 6; uint64_t a = __rdtsc();
      if (op == 0) { d.pause(); uint64_t b = __rdtsc(); if (run) { lo += a - std::min(s1, a); hi += b - s0; run = false; } }
      else if (op == 1) { d.resume(); uint64_t b = __rdtsc(); if (!run) { s0 = a; s1 = b; run = true; } }
      else if (op == 2 && rnd() % 4 == 0) { bool p = rnd() % 2; if (rnd() % 3 == 0) { p = false; d.reset(); } else d.reset(p); uint64_t b = __rdtsc(); run = !p; lo = hi = 0; s0 = a; s1 = b; }
      else {
        uint64_t us = d.elapsedInUSec(), ms = d.elapsedInMSec(), s = d.elapsedInSec(); uint64_t b = __rdtsc(); long double L = lo, H = hi; if (run) { L += a - std::min(s1, a); H += b - s0; }
        between("elapsedInUSec", us, TscHelper::ticksToDurationInUSec(L) * 0.999L - 1, TscHelper::ticksToDurationInUSec(H) * 1.001L + 1);
        between("elapsedInMSec", ms, TscHelper::ticksToDurationInMSec(L) * 0.999L - 0.5L, TscHelper::ticksToDurationInMSec(H) * 1.001L + 0.5L); between("elapsedInSec", s, TscHelper::ticksToDurationInSec(L), TscHelper::ticksToDurationInSec(H));
      }
      if (d.isPaused() == run) fail("isPaused", d.isPaused(), !run, !run);
      if (bad) return 1;
    }
  }
  // long spans: move the recorded ticks back
  { Duration d(true); for (uint64_t us : {0ull, 1ull, 400ull, 500ull, 1500ull, 600000ull, 1499999ull, 86400000000ull, 31536000000000ull}) { uint64_t t = us / (double)T.ticksPerUSecFactor_ + 0.5; d.accumulated_ = t;
      between("elapsedInUSec of a long span", d.elapsedInUSec(), us * 0.999L - 1, us * 1.001L + 1); between("elapsedInMSec of a long span", d.elapsedInMSec(), us / 1000.0L * 0.999L - 0.51L, us / 1000.0L * 1.001L + 0.51L); between("elapsedInSec of a long span", d.elapsedInSec(), us / 1e6L * 0.999L - 0.51L, us / 1e6L * 1.001L + 0.51L); } }
  // conversions with known factors
  double f0 = T.ticksPerUSecFactor_, f1 = T.ticksPerMSecFactor_, f2 = T.ticksPerSecFactor_;
  for (uint64_t N : {1ull, 2ull, 7ull, 1000ull, 2399ull, 3000ull, 9999ull}) { for (int k = 0; k < 4000; k++) {
    uint64_t t = k < 2000 ? k * (N * 500) : rnd() >> (2 + rnd() % 40); T.ticksPerUSecFactor_ = 1.0 / N; T.ticksPerMSecFactor_ = 1.0 / N / 1000; T.ticksPerSecFactor_ = 1.0 / N / 1000000;
    long double u = t / (long double)N, e = u * 1e-14L + 1e-9L; uint64_t a = TscHelper::ticksToDurationInUSec(t), b = TscHelper::ticksToDurationInMSec(t), c = TscHelper::ticksToDurationInSec(t);
    between("ticksToDurationInUSec", a, u - 1 - e, u + e); between("ticksToDurationInMSec", b, u / 1000 - 0.5L - e, u / 1000 + 0.5L + e); between("ticksToDurationInSec", c, u / 1e6L - 0.5L - e, u / 1e6L + 0.5L + e);
    if (t < (1ull << 61)) { uint64_t tk = T.firstTick_ + t; long double s = T.startRealTime_.tv_sec, n = T.startRealTime_.tv_nsec;
      for (int q = 0; q < 2; q++) { between("tickToTimePointInSec", TscHelper::tickToTimePointInSec(tk), s + c - 1, s + c); between("tickToTimePointInMSec", TscHelper::tickToTimePointInMSec(tk), s * 1000 + floorl(n / 1e6L) + b, s * 1000 + floorl(n / 1e6L) + b); between("tickToTimePointInUSec", TscHelper::tickToTimePointInUSec(tk), s * 1e6L + floorl(n / 1000) + a, s * 1e6L + floorl(n / 1000) + a); } }
    if (bad) return 1; } }
  T.ticksPerUSecFactor_ = f0; T.ticksPerMSecFactor_ = f1; T.ticksPerSecFactor_ = f2;
  auto rt = [] { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; };
  for (int k = 0; k < 2000; k++) { int64_t a = rt(), s = WallClock::slowNowInSec(), m = WallClock::slowNowInMilliSec(), u = WallClock::slowNowInMicroSec(), b = rt(); between("slowNowInSec", s, a / 1000000000, b / 1000000000); between("slowNowInMilliSec", m, a / 1000000, b / 1000000); between("slowNowInMicroSec", u, a / 1000, b / 1000);
    s = WallClock::fastNowInSec(), m = WallClock::fastNowInMilliSec(), u = WallClock::fastNowInMicroSec(); between("fastNowInSec", s, a / 1000000000 - 2, b / 1000000000 + 2); between("fastNowInMilliSec", m, a / 1000000 - 700, b / 1000000 + 700); between("fastNowInMicroSec", u, a / 1000 - 700000, b / 1000 + 700000); if (bad) return 1; }
  for (int k = 0; k < 3000; k++) { int64_t a = WallClock::fastNowInMilliSec(); SlowOpTracker o; int64_t b = WallClock::fastNowInMilliSec(); between("start of tracking", o.startMs_, a, b + 1);
    int64_t back = (int64_t)(rnd() % 400) - 100; if (k % 50 == 0) back = 1000000; o.startMs_ -= back; int64_t th = (int64_t)(rnd() % 300) - 50; bool dflt = rnd() % 4 == 0; if (dflt) th = 0; int64_t lo = WallClock::fastNowInMilliSec() - o.startMs_; bool r = dflt ? o.slow() : o.slow(th); int64_t hi = WallClock::fastNowInMilliSec() - o.startMs_; lo = std::max<int64_t>(lo, 0); hi = std::max<int64_t>(hi, 0);
    between("duration", o.dur_, lo, hi); int64_t lim = th > 0 ? th : FLAGS_slow_op_threshhold_ms; if (r != (o.dur_ > lim)) fail("slow", r, o.dur_, lim); if (bad) return 1; }
  if (!bad) printf("OK\n"); fflush(stdout); _exit(bad != 0);
}
