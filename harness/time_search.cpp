// Concrete search on the real code against an independent day-counting calendar. Prints FAIL lines, exit 1 on a violation.
#include "common/base/Base.h"
#include "common/time/TimeConversion.h"
#include <random>
using namespace nebula; using namespace nebula::time;
static int fails = 0;
static void die(const std::string& s) { printf("FAIL %s\n", s.c_str()); fflush(stdout); if (++fails >= 5) exit(1); }
static bool leap(long y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int dim(long y, int m) { static const int d[] = {31,28,31,30,31,30,31,31,30,31,30,31}; return d[m - 1] + (m == 2 && leap(y)); }
static std::string S(const DateTime& d) { char b[100]; snprintf(b, 100, "%d-%d-%dT%d:%d:%d.%d", (int)d.year, (int)d.month, (int)d.day, (int)d.hour, (int)d.minute, (int)d.sec, (int)d.microsec); return b; }
static std::string S(const Date& d) { char b[100]; snprintf(b, 100, "%d-%d-%d", d.year, d.month, d.day); return b; }
static std::string S(const Time& d) { char b[100]; snprintf(b, 100, "%d:%d:%d.%d", d.hour, d.minute, d.sec, d.microsec); return b; }
struct YMD { int y, m, d; };
static std::vector<YMD> cal; static std::vector<int> yearStart; static long base;  // cal[i] is day base+i
static void build() {
  long n = 0; for (int y = -32768; y < 1970; y++) n += leap(y) ? 366 : 365; base = -n;
  for (int y = -32768; y <= 32767; y++) { yearStart.push_back(cal.size()); for (int m = 1; m <= 12; m++) for (int d = 1; d <= dim(y, m); d++) cal.push_back({y, m, d}); }
}
static long dayOf(int y, int m, int d) { long i = yearStart[y + 32768]; for (int k = 1; k < m; k++) i += dim(y, k); return base + i + d - 1; }
static long unixOf(const DateTime& t) { return dayOf(t.year, t.month, t.day) * 86400 + (long)t.hour * 3600 + (long)t.minute * 60 + (long)t.sec; }
static DateTime mk(long s, int us) { long d = s >= 0 ? s / 86400 : -((-s + 86399) / 86400); long r = s - d * 86400; YMD c = cal[d - base]; return DateTime(c.y, c.m, c.d, r / 3600, r / 60 % 60, r % 60, us); }
static bool same(const DateTime& a, const DateTime& b) { return a.year == b.year && a.month == b.month && a.day == b.day && a.hour == b.hour && a.minute == b.minute && a.sec == b.sec && a.microsec == b.microsec; }
static std::mt19937_64 rng(12345);
static long R(long lo, long hi) { return lo + (long)(rng() % (unsigned long)(hi - lo + 1)); }
static long fmodl_(long a, long k) { long r = a % k; return r < 0 ? r + k : r; }
static void tounix() {
  for (int y = -32768; y <= 32767; y++) if (TimeConversion::isLeapYear(y) != leap(y)) die("isLeapYear(" + std::to_string(y) + ")");
  long tod[] = {0, 1, 59, 60, 3599, 3600, 86399};
  for (size_t i = 0; i < cal.size(); i++) {
    long day = base + i; auto c = cal[i];
    long s = day * 86400 + tod[i % 7]; DateTime t = mk(s, i % 1000000);
    long g = TimeConversion::dateTimeToUnixSeconds(t);
    if (g != s) die("dateTimeToUnixSeconds(" + S(t) + ") = " + std::to_string(g) + ", expected " + std::to_string(s));
    Date d(c.y, c.m, c.d); g = TimeConversion::dateToUnixSeconds(d);
    if (g != day * 86400) die("dateToUnixSeconds(" + S(d) + ") = " + std::to_string(g) + ", expected " + std::to_string(day * 86400));
  }
  for (int k = 0; k < 6000000; k++) {
    DateTime a = mk(R(base * 86400, (base + (long)cal.size()) * 86400 - 1), R(0, 999999)), b = mk(R(base * 86400, (base + (long)cal.size()) * 86400 - 1), R(0, 999999));
    if (k % 3 == 0) { a.year = R(-3, 3) * 100 + R(-4, 4); if (a.day > dim(a.year, a.month)) a.day = 28; }
    long g = TimeConversion::dateTimeDiffSeconds(a, b);
    if (g != unixOf(a) - unixOf(b)) die("dateTimeDiffSeconds(" + S(a) + ", " + S(b) + ") = " + std::to_string(g) + ", expected " + std::to_string(unixOf(a) - unixOf(b)));
  }
  for (int h = 0; h < 24; h++) for (int m = 0; m < 60; m++) for (int s = 0; s < 60; s++) { Time t(h, m, s, (h * m * s) % 1000000); long g = TimeConversion::timeToSeconds(t); if (g != h * 3600 + m * 60 + s) die("timeToSeconds(" + S(t) + ") = " + std::to_string(g)); }
}
static void fromunix() {
  long tod[] = {0, 1, 59, 60, 3599, 3600, 86399, 43200, 86340, 82800};
  auto one = [](long s) {
    DateTime e = mk(s, 0), g = TimeConversion::unixSecondsToDateTime(s);
    if (!same(e, g)) die("unixSecondsToDateTime(" + std::to_string(s) + ") = " + S(g) + ", expected " + S(e));
  };
  for (size_t i = 0; i < cal.size(); i++) {
    long day = base + i; one(day * 86400 + tod[i % 10]); one(day * 86400 + (long)(rng() % 86400));
    if (cal[i].d == 1 || cal[i].d >= 28) { one(day * 86400); one(day * 86400 + 86399); }
    if (i % 7 == 0) {
      long s = day * 86400 + (long)(rng() % 86400);
      Date d = TimeConversion::unixSecondsToDate(s); if (d.year != cal[i].y || d.month != cal[i].m || d.day != cal[i].d) die("unixSecondsToDate(" + std::to_string(s) + ") = " + S(d));
      Time t = TimeConversion::unixSecondsToTime(s); long r = fmodl_(s, 86400);
      if (t.hour != r / 3600 || t.minute != r / 60 % 60 || t.sec != r % 60 || t.microsec != 0) die("unixSecondsToTime(" + std::to_string(s) + ") = " + S(t));
    }
  }
  for (long s = -200000; s < 200000; s++) one(s);
}
static void shift() {
  long lo = base * 86400, hi = (base + (long)cal.size()) * 86400 - 1;
  long offs[] = {0, 1, -1, 59, 60, -60, 3600, -3600, 28800, -28800, 86399, 86400, -86400, 45000, -45000, 2678400, 31536000, -31536000, 31622400};
  for (int k = 0; k < 8000000; k++) {
    long s = k % 4 == 0 ? R(lo, hi) : R(-3000000000L, 5000000000L);
    if (k % 16 == 1) s -= fmodl_(s, 86400); if (k % 16 == 2) s += 86399 - fmodl_(s, 86400);
    long o = k % 3 ? offs[rng() % 19] : R(-(1L << R(1, 40)), 1L << R(1, 40));
    if (s + o < lo || s + o > hi) continue;
    DateTime a = mk(s, k % 5 == 0 ? 0 : R(0, 999999)), e = mk(s + o, a.microsec), g = TimeConversion::dateTimeShift(a, o);
    if (!same(g, e)) die("dateTimeShift(" + S(a) + ", " + std::to_string(o) + ") = " + S(g) + ", expected " + S(e));
    long d0 = s - fmodl_(s, 86400);
    if (d0 + o >= lo && d0 + o <= hi) {
      Date d(a.year, a.month, a.day); DateTime ed = mk(d0 + o, 0); Date gd = TimeConversion::dateShift(d, o);
      if (gd.year != ed.year || gd.month != ed.month || gd.day != ed.day) die("dateShift(" + S(d) + ", " + std::to_string(o) + ") = " + S(gd));
    }
    Time t(a.hour, a.minute, a.sec, a.microsec), gt = TimeConversion::timeShift(t, o); long r = fmodl_(s + o, 86400);
    if (gt.hour != r / 3600 || gt.minute != r / 60 % 60 || gt.sec != r % 60 || gt.microsec != t.microsec) die("timeShift(" + S(t) + ", " + std::to_string(o) + ") = " + S(gt));
  }
}
static void ordinal() {
  // the storage calendar: every year divisible by 4 is a leap year
  auto d4 = [](int y, int m) { return m == 2 ? (y % 4 == 0 ? 29 : 28) : dim(1, m); };
  long n = 0; 
  for (int y = -32768; y <= 32767; y++) for (int m = 1; m <= 12; m++) for (int d = 1; d <= d4(y, m); d++, n++) {
    Date x(y, m, d);
    if (x.toInt() != n) die("Date(" + S(x) + ").toInt() = " + std::to_string(x.toInt()) + ", expected " + std::to_string(n));
    Date b; b.fromInt(n);
    if (!(b.year == y && b.month == m && b.day == d)) die("fromInt(" + std::to_string(n) + ") = " + S(b) + ", expected " + S(x));
    if (n % 5 == 0) {
      long k = (long)(rng() % 40000) - 20000; if (n + k < 0 || n + k > 23936000) continue;
      Date p = x + k, q = x - (-k);
      if (p.toInt() != n + k) die(S(x) + " + " + std::to_string(k) + " = " + S(p)); if (q.toInt() != n + k) die(S(x) + " - " + std::to_string(-k) + " = " + S(q));
      Date c((uint64_t)n); if (!(c == x)) die("Date(uint64 " + std::to_string(n) + ") = " + S(c));
    }
  }
}
template <class T> int cmp(const T& a, const T& b, std::vector<long> x, std::vector<long> y) {
  bool lt = a < b, gt = b < a, eq = a == b;
  bool elt = x < y, egt = y < x, eeq = x == y;
  if (lt != elt || gt != egt || eq != eeq) die("comparison of " + S(a) + " and " + S(b));
  if (eq && std::hash<T>()(a) != std::hash<T>()(b)) die("hash of equal " + S(a));
  return 0;
}
static void order() {
  for (int k = 0; k < 4000000; k++) {
    long lo = base * 86400, hi = (base + (long)cal.size()) * 86400 - 1;
    DateTime a = mk(R(lo, hi), R(0, 999999)), b = a;
    int f = rng() % 8;
    for (int j = 0; j < 7; j++) { DateTime r = mk(R(lo, hi), R(0, 999999)); bool use = f == 7 ? rng() % 2 : j == f || (rng() % 4 == 0);
      if (use) switch (j) { case 0: b.year = r.year; break; case 1: b.month = r.month; break; case 2: b.day = r.day; break; case 3: b.hour = r.hour; break; case 4: b.minute = r.minute; break; case 5: b.sec = r.sec; break; case 6: b.microsec = r.microsec; } }
    std::vector<long> x{a.year, (long)a.month, (long)a.day, (long)a.hour, (long)a.minute, (long)a.sec, (long)a.microsec}, y{b.year, (long)b.month, (long)b.day, (long)b.hour, (long)b.minute, (long)b.sec, (long)b.microsec};
    cmp(a, b, x, y);
    cmp(Date(a.year, a.month, a.day), Date(b.year, b.month, b.day), {x[0], x[1], x[2]}, {y[0], y[1], y[2]});
    cmp(Time(a.hour, a.minute, a.sec, a.microsec), Time(b.hour, b.minute, b.sec, b.microsec), {x[3], x[4], x[5], x[6]}, {y[3], y[4], y[5], y[6]});
    DateTime o{Date(a.year, a.month, a.day)};
    if (o.year != a.year || o.month != a.month || o.day != a.day || o.hour || o.minute || o.sec || o.microsec) die("DateTime(Date " + S(a) + ") = " + S(o));
    Date rd; rd.reset(a.year, a.month, a.day); if (rd.year != a.year || rd.month != a.month || rd.day != a.day) die("Date::reset");
  }
}
int main(int c, char** v) {
  std::string m = v[1]; build();
  if (m == "tounix") tounix(); else if (m == "fromunix") fromunix(); else if (m == "shift") shift(); else if (m == "ordinal") ordinal(); else order();
  if (!fails) printf("ok %s\n", m.c_str());
  return fails ? 1 : 0;
}
