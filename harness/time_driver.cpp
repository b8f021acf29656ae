// Accessors and roots: layout-independent reads and writes of the structs, and the inline members of the headers.
#include "common/base/Base.h"
#include "common/time/TimeConversion.h"
#include "common/time/Duration.h"
#include "common/time/WallClock.h"
using namespace nebula; using namespace nebula::time;
extern "C" {
void vc_dt_make(DateTime* p, int16_t y, int8_t m, int8_t d, int8_t H, int8_t M, int8_t S, int32_t us) {
  p->year = y; p->month = m; p->day = d; p->hour = H; p->minute = M; p->sec = S; p->microsec = us; }
int64_t vc_dt_year(const DateTime* p) { return p->year; }
int64_t vc_dt_month(const DateTime* p) { return p->month; }
int64_t vc_dt_day(const DateTime* p) { return p->day; }
int64_t vc_dt_hour(const DateTime* p) { return p->hour; }
int64_t vc_dt_minute(const DateTime* p) { return p->minute; }
int64_t vc_dt_sec(const DateTime* p) { return p->sec; }
int64_t vc_dt_microsec(const DateTime* p) { return p->microsec; }
uint64_t vc_dt_size() { return sizeof(DateTime); }
void vc_d_make(Date* p, int16_t y, int8_t m, int8_t d) { p->year = y; p->month = m; p->day = d; }
int64_t vc_d_year(const Date* p) { return p->year; }
int64_t vc_d_month(const Date* p) { return p->month; }
int64_t vc_d_day(const Date* p) { return p->day; }
uint64_t vc_d_size() { return sizeof(Date); }
void vc_t_make(Time* p, int8_t H, int8_t M, int8_t S, int32_t us) { p->hour = H; p->minute = M; p->sec = S; p->microsec = us; }
int64_t vc_t_hour(const Time* p) { return p->hour; }
int64_t vc_t_minute(const Time* p) { return p->minute; }
int64_t vc_t_sec(const Time* p) { return p->sec; }
int64_t vc_t_microsec(const Time* p) { return p->microsec; }
uint64_t vc_t_size() { return sizeof(Time); }
// value-returning entry points behind a uniform calling convention
void vc_unixSecondsToDate(Date* r, int64_t s) { *r = TimeConversion::unixSecondsToDate(s); }
void vc_dateShift(Date* r, const Date* d, int64_t o) { *r = TimeConversion::dateShift(*d, o); }
void vc_unixSecondsToTime(Time* r, int64_t s) { *r = TimeConversion::unixSecondsToTime(s); }
void vc_timeShift(Time* r, const Time* d, int64_t o) { *r = TimeConversion::timeShift(*d, o); }
void vc_unixSecondsToDateTime(DateTime* r, int64_t s) { *r = TimeConversion::unixSecondsToDateTime(s); }
void vc_dateTimeShift(DateTime* r, const DateTime* d, int64_t o) { *r = TimeConversion::dateTimeShift(*d, o); }
void vc_d_plus(Date* r, const Date* d, int64_t n) { *r = *d + n; }
void vc_d_minus(Date* r, const Date* d, int64_t n) { *r = *d - n; }
void vc_d_fromInt(Date* r, int64_t n) { r->fromInt(n); }
int64_t vc_d_toInt(const Date* d) { return d->toInt(); }
bool vc_d_lt(const Date* a, const Date* b) { return *a < *b; }
bool vc_d_eq(const Date* a, const Date* b) { return *a == *b; }
bool vc_t_lt(const Time* a, const Time* b) { return *a < *b; }
bool vc_t_eq(const Time* a, const Time* b) { return *a == *b; }
bool vc_dt_lt(const DateTime* a, const DateTime* b) { return *a < *b; }
bool vc_dt_eq(const DateTime* a, const DateTime* b) { return *a == *b; }
void vc_dt_ctor(DateTime* r, int16_t y, int8_t m, int8_t d, int8_t H, int8_t M, int8_t S, int32_t us) { *r = DateTime(y, m, d, H, M, S, us); }
void vc_d_ctor(Date* r, int16_t y, int8_t m, int8_t d) { *r = Date(y, m, d); }
void vc_d_reset(Date* r, int16_t y, int8_t m, int8_t d) { r->reset(y, m, d); }
void vc_t_ctor(Time* r, int8_t H, int8_t M, int8_t S, int32_t us) { *r = Time(H, M, S, us); }
uint64_t vc_dt_hash(const DateTime* a) { return std::hash<DateTime>()(*a); }
uint64_t vc_d_hash(const Date* a) { return std::hash<Date>()(*a); }
uint64_t vc_t_hash(const Time* a) { return std::hash<Time>()(*a); }
void vc_dt_ofDate(DateTime* r, const Date* d) { *r = DateTime(*d); }
}
__attribute__((used)) void* vc_roots[] = {
  (void*)&TimeConversion::dateTimeToUnixSeconds, (void*)&TimeConversion::dateTimeShift, (void*)&TimeConversion::dateToUnixSeconds,
  (void*)&TimeConversion::unixSecondsToDate, (void*)&TimeConversion::dateShift, (void*)&TimeConversion::timeToSeconds,
  (void*)&TimeConversion::unixSecondsToTime, (void*)&TimeConversion::timeShift, (void*)&TimeConversion::isLeapYear,
};
