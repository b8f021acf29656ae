// Dates and times from maps, text and the clock against a calendar and readings of their own.
#include "common/base/Base.h"
#include "common/time/TimeUtils.h"
#include <random>
using namespace nebula; using namespace nebula::time; using U = TimeUtils;
DECLARE_string(timezone_name);
#define BAD(...) do { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); return 1; } while (0)
using F = std::map<std::string, int64_t>;
static const std::vector<std::string> DT = {"year", "month", "day", "hour", "minute", "second", "microsecond"};
static int64_t days(int64_t y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400; int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468; }
static int dim(int64_t y, int m) { bool lp = y % 4 == 0 && (y % 100 || y % 400 == 0); static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && lp ? 29 : n[m - 1]; }
static int64_t unixOf(const F& f) { auto g = [&](const char* k) { auto i = f.find(k); return i == f.end() ? 0 : i->second; }; return days(g("year"), g("month"), g("day")) * 86400 + g("hour") * 3600 + g("minute") * 60 + g("second"); }
static int64_t fdiv(int64_t a, int64_t b) { return a / b - (a % b < 0); }
static F ofUnix(int64_t s) { int64_t d = fdiv(s, 86400), r = s - d * 86400, y = 1970 + fdiv(d, 366) - (d < 0); while (days(y + 1, 1, 1) <= d) y++; while (days(y, 1, 1) > d) y--; int m = 1; while (m < 12 && days(y, m + 1, 1) <= d) m++; return {{"year", y}, {"month", m}, {"day", d - days(y, m, 1) + 1}, {"hour", r / 3600}, {"minute", r / 60 % 60}, {"second", r % 60}}; }
static F of(const Date& d) { return {{"year", d.year}, {"month", d.month}, {"day", d.day}}; }
static F of(const Time& t) { return {{"hour", t.hour}, {"minute", t.minute}, {"second", t.sec}, {"microsecond", t.microsec}}; }
static F of(const DateTime& t) { return {{"year", int64_t(t.year)}, {"month", int64_t(t.month)}, {"day", int64_t(t.day)}, {"hour", int64_t(t.hour)}, {"minute", int64_t(t.minute)}, {"second", int64_t(t.sec)}, {"microsecond", int64_t(t.microsec)}}; }
static std::string show(const F& f) { std::string s; for (auto& n : DT) if (f.count(n)) s += n + ":" + std::to_string(f.at(n)) + " "; return s; }
static bool inRange(const std::string& n, int64_t v) { static const std::map<std::string, std::pair<int64_t, int64_t>> r = {{"year", {-32768, 32767}}, {"month", {1, 12}}, {"day", {1, 31}}, {"hour", {0, 23}}, {"minute", {0, 59}}, {"second", {0, 59}}, {"microsecond", {0, 999999}}}; auto i = r.find(n); return i != r.end() && v >= i->second.first && v <= i->second.second; }
template <class R> static int judge(const char* what, const std::string& in, const R& r, bool ok, const F& want) {
    if (r.ok() != ok) BAD("%s(%s) %s", what, in.c_str(), ok ? "gives an error" : ("gives " + show(of(r.value()))).c_str());
    if (ok && of(r.value()) != want) BAD("%s(%s) gives %s and not %s", what, in.c_str(), show(of(r.value())).c_str(), show(want).c_str());
    return 0;
}
int main(int, char** v) {
    FLAGS_minloglevel = 3; long runs = atol(v[1]); std::mt19937_64 g(getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1);
    const std::vector<std::string> D(DT.begin(), DT.begin() + 3), T(DT.begin() + 3, DT.end());
    const int64_t edge[] = {INT64_MIN, -32769, -32768, -1, 0, 1, 2, 4, 6, 9, 11, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61, 255, 256, 257, 1900, 2000, 2019, 2020, 2100, 9999, 32767, 32768, 65535, 65536, 65537, 999999, 1000000, 4294967296 + 5, INT64_MAX};
    for (int y = -32768; y <= 32767; y++) if (TimeConversion::isLeapYear(y) != (dim(y, 2) == 29)) BAD("isLeapYear(%d) is %d", y, int(TimeConversion::isLeapYear(y)));
    for (long r = 0; r < runs; r++) for (int kind = 0; kind < 3; kind++) {
        auto& names = kind == 0 ? D : kind == 1 ? T : DT; Map m; std::string in; bool ok = true; F want; for (auto& n : names) want[n] = n == "month" || n == "day" ? 1 : 0;
        bool calm = g() % 2;
        auto order = names; std::shuffle(order.begin(), order.end(), g);
        for (auto& n : order) if (g() % 3 || r % 3 == 0) {
            int64_t x = edge[g() % (sizeof(edge) / sizeof(*edge))];
            if (calm || g() % 8) { if (n == "year") x = int64_t(g() % 4 ? 1880 + g() % 300 : int64_t(g() % 65536) - 32768); else if (n == "month") x = 1 + g() % 12; else if (n == "day") x = g() % 2 ? 28 + g() % 4 : 1 + g() % 31; else if (n == "hour") x = g() % 24; else if (n == "microsecond") x = g() % 1000000; else x = g() % 60; if (n[0] != 'y' && inRange(n, 0) && g() % 5 == 0) x = 0; }
            Value val(x); in += n + ": " + std::to_string(x) + ", "; if (g() % 40 == 0) { val = g() % 2 ? Value(std::to_string(x)) : Value(double(x)); ok = false; in += "(not a whole number) "; } else if (!inRange(n, x)) ok = false; else want[n] = x;
            m.kvs[n] = val;
        }
        if (g() % 12 == 0) { std::string o[] = {"", "Year", "yea", "years", "hours", "sec", "milliseconds", "microseconds", "hour", "day"}; auto& n = o[g() % 10]; if (std::find(names.begin(), names.end(), n) == names.end()) { m.kvs[n] = Value(1); ok = false; in += n + ": 1"; } }
        if (ok && kind != 1) ok = want["day"] <= dim(want["year"], want["month"]);
        if (kind == 0 ? judge("dateFromMap", in, U::dateFromMap(m), ok, want) : kind == 1 ? judge("timeFromMap", in, U::timeFromMap(m), ok, want) : judge("dateTimeFromMap", in, U::dateTimeFromMap(m), ok, want)) return 1;
        // text
        int64_t y = g() % 5 ? 1880 + g() % 300 : g() % 10000, mo = g() % 14, d = g() % 4 ? g() % 30 : 27 + g() % 6, h = g() % 26, mi = g() % 4 ? g() % 60 : 58 + g() % 4, s = g() % 4 ? g() % 60 : 57 + g() % 3; char b[80];
        bool dok = mo >= 1 && mo <= 12 && d >= 1 && d <= dim(y, mo), tok = h < 24 && mi < 60 && s < 60; F w; if (kind != 1) w = {{"year", y}, {"month", mo}, {"day", d}}; if (kind != 0) { w["hour"] = h; w["minute"] = mi; w["second"] = s; w["microsecond"] = 0; }
        char sep = "T T x"[g() % 5]; if (kind == 0) snprintf(b, sizeof b, "%04ld-%02ld-%02ld", long(y), long(mo), long(d)); else if (kind == 1) snprintf(b, sizeof b, "%02ld:%02ld:%02ld", long(h), long(mi), long(s)); else snprintf(b, sizeof b, "%04ld-%02ld-%02ld%c%02ld:%02ld:%02ld", long(y), long(mo), long(d), sep, long(h), long(mi), long(s));
        bool pok = (kind == 1 || dok) && (kind == 0 || tok) && (kind != 2 || sep != 'x');
        if (kind == 0 ? judge("parseDate", b, U::parseDate(b), pok, w) : kind == 1 ? judge("parseTime", b, U::parseTime(b), pok, w) : judge("parseDateTime", b, U::parseDateTime(b), pok, w)) return 1;
        if (g() % 4 == 0 && pok) {      // a text that ends early, at the end of a part
            int parts = 1 + g() % (kind == 2 ? 5 : 2), seps = 0; std::string t = b; for (size_t k = 0; k < t.size(); k++) if (!isdigit(t[k]) && ++seps == parts) { t.resize(k); break; }
            F c = w; auto& ns = kind == 0 ? D : kind == 1 ? T : DT; for (size_t k = parts; k < ns.size() && ns[k] != "microsecond"; k++) c[ns[k]] = ns[k] == "month" || ns[k] == "day" ? 1 : 0;
            if (kind == 0 ? judge("parseDate", t, U::parseDate(t), true, c) : kind == 1 ? judge("parseTime", t, U::parseTime(t), true, c) : judge("parseDateTime", t, U::parseDateTime(t), true, c)) return 1;
        }
        int64_t at = kind == 2 && pok ? unixOf(w) : 0; const int64_t top = INT64_MAX / 1000000000; int64_t n[] = {0, 1, -1, top, top + 1, INT64_MIN, INT64_MAX, int64_t(g() % 4000000000), at}; int64_t x = n[g() % 9];
        if (kind == 2) { auto t = U::toTimestamp(Value(std::string(b))); bool want1 = pok && at >= 0 && at <= top; if (t.ok() != want1 || (want1 && !(t.value() == Value(at)))) BAD("toTimestamp(\"%s\") %s", b, t.ok() ? t.value().toString().c_str() : "gives an error"); }
        { auto t = U::toTimestamp(Value(x)); bool w1 = x >= 0 && x <= top; if (t.ok() != w1 || (w1 && (!t.value().isInt() || t.value().getInt() != x))) BAD("toTimestamp(%ld) %s", long(x), t.ok() ? "gives a value" : "gives an error"); }
        { Value o[] = {Value(), Value(NullType::__NULL__), Value(true), Value(1.5), Value(Date(2020, 1, 1))}; if (U::toTimestamp(o[g() % 5]).ok()) BAD("toTimestamp of a value that is neither a number nor text gives a value"); }
        // the time zone
        static const std::pair<const char*, int> Z[] = {{"UTC+00:00:00", 0}, {"EST-05:00:00", -18000}, {"CST+08:00:00", 28800}, {"XYZ+05:45:00", 20700}, {"ABC-11:59:00", -43140}, {"NZD+13:00:00", 46800}}; auto& z = Z[g() % 6];
        static const char* cur = nullptr; if (r % 50 == 0 || !cur) { FLAGS_timezone_name = z.first; if (!Timezone::initializeGlobalTimezone().ok()) BAD("the time zone %s cannot be set", z.first); cur = z.first; }
        int off = 0; for (auto& q : Z) if (q.first == std::string(cur)) off = q.second;
        F a = {{"year", int64_t(g() % 60000) - 30000}, {"month", 1 + int64_t(g() % 12)}, {"day", 1 + int64_t(g() % 28)}, {"hour", int64_t(g() % 24)}, {"minute", int64_t(g() % 60)}, {"second", int64_t(g() % 60)}, {"microsecond", int64_t(g() % 1000000)}};
        DateTime dt(a["year"], a["month"], a["day"], a["hour"], a["minute"], a["second"], a["microsecond"]); Time ti(a["hour"], a["minute"], a["second"], a["microsecond"]); Date da(a["year"], a["month"], a["day"]);
        for (int sg : {1, -1}) {
            F e = ofUnix(unixOf(a) + sg * off); e["microsecond"] = a["microsecond"]; auto got = sg > 0 ? U::utcToDateTime(dt) : U::dateTimeToUTC(dt); if (of(got) != e) BAD("%s(%s) in %s is %s", sg > 0 ? "utcToDateTime" : "dateTimeToUTC", show(a).c_str(), cur, show(of(got)).c_str());
            F q; for (auto& k : T) q[k] = e[k]; auto gt = sg > 0 ? U::utcToTime(ti) : U::timeToUTC(ti); if (of(gt) != q) BAD("%s(%s) in %s is %s", sg > 0 ? "utcToTime" : "timeToUTC", show(of(ti)).c_str(), cur, show(of(gt)).c_str());
        }
        if (r % 50 == 0) {
            int64_t t0 = ::time(nullptr), slack = 2; auto near = [&](const F& f, int64_t by) { int64_t u = unixOf(f) - by; return u >= t0 - slack && u <= int64_t(::time(nullptr)) + slack; }; auto tnear = [&](const F& f, int64_t by) { int64_t u = f.at("hour") * 3600 + f.at("minute") * 60 + f.at("second"); for (int64_t k = t0 - slack; k <= int64_t(::time(nullptr)) + slack; k++) if (((k + by) % 86400 + 86400) % 86400 == u) return true; return false; };
            auto l = of(U::localDateTime()), u = of(U::utcDateTime()); if (!near(l, off)) BAD("localDateTime() in %s is %s", cur, show(l).c_str()); if (!near(u, 0)) BAD("utcDateTime() is %s", show(u).c_str());
            auto lt = of(U::localTime()), ut = of(U::utcTime()); if (!tnear(lt, off)) BAD("localTime() in %s is %s", cur, show(lt).c_str()); if (!tnear(ut, 0)) BAD("utcTime() is %s", show(ut).c_str());
            auto ld = U::localDate(), ud = U::utcDate(); if (!ld.ok() || !ud.ok()) BAD("localDate() or utcDate() gives an error"); auto day = [&](const Date& x, int64_t by) { int64_t n = days(x.year, x.month, x.day); return n == fdiv(t0 + by, 86400) || n == fdiv(::time(nullptr) + by, 86400); };
            if (!day(ld.value(), off)) BAD("localDate() in %s is %s", cur, show(of(ld.value())).c_str()); if (!day(ud.value(), 0)) BAD("utcDate() is %s", show(of(ud.value())).c_str());
            auto ms = [&](const char* what, const std::function<int64_t()>& f) { for (int k = 0; k < 20; k++) { int64_t a = WallClock::fastNowInMilliSec(), x = f(), b = WallClock::fastNowInMilliSec(); if (a == b && x != a % 1000 * 1000) { printf("FAIL %s has the microseconds %ld at %ld milliseconds\n", what, long(x), long(a)); return false; } } return true; };
            if (!ms("utcTime()", [] { return int64_t(U::utcTime().microsec); }) || !ms("localTime()", [] { return int64_t(U::localTime().microsec); }) || !ms("utcDateTime()", [] { return int64_t(U::utcDateTime().microsec); }) || !ms("localDateTime()", [] { return int64_t(U::localDateTime().microsec); })) return 1;
            static long seen[4]; int64_t now4[4] = {u["microsecond"], l["microsecond"], ut["microsecond"], lt["microsecond"]}; if (u["microsecond"] % 1000 || l["microsecond"] % 1000 || lt["microsecond"] % 1000 || ut["microsecond"] % 1000) BAD("the clock of milliseconds gives microseconds"); for (int k = 0; k < 4; k++) { seen[k] += now4[k]; if (r > 1500 && !seen[k]) BAD("%s gives no milliseconds", (const char*[]){"utcDateTime()", "localDateTime()", "utcTime()", "localTime()"}[k]); }
        }
        // attributes
        std::string at0[] = {"year", "month", "day", "hour", "minute", "second", "microsecond", "sec", "", "Years", "millisecond", "daY ", "hou"}; std::string p = at0[g() % 13]; if (g() % 2) for (auto& c : p) if (g() % 2) c = toupper(c); std::string lp = p; for (auto& c : lp) c = tolower(c);
        auto attr = [&](const char* what, const Value& got, const F& f) { auto i = f.find(lp); bool good = i == f.end() ? got.isNull() && got.getNull() == NullType::UNKNOWN_PROP : got.isInt() && got.getInt() == i->second; if (!good) printf("FAIL %s of %sat '%s' is %s\n", what, show(f).c_str(), p.c_str(), got.toString().c_str()); return good; };
        if (!attr("getDateAttr", U::getDateAttr(da, p), of(da)) || !attr("getTimeAttr", U::getTimeAttr(ti, p), of(ti)) || !attr("getDateTimeAttr", U::getDateTimeAttr(dt, p), of(dt))) return 1;
    }
    printf("no counterexample in %ld rounds\n", runs); return 0;
}
