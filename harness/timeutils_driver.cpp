#include "common/base/Base.h"
#include "common/time/TimeUtils.h"
using namespace nebula; using namespace nebula::time; using U = TimeUtils;
#define X extern "C"
X void vc_dateFromMap(StatusOr<Date>* r, const Map* m) { ::new (r) StatusOr<Date>(U::dateFromMap(*m)); }
X void vc_timeFromMap(StatusOr<Time>* r, const Map* m) { ::new (r) StatusOr<Time>(U::timeFromMap(*m)); }
X void vc_dateTimeFromMap(StatusOr<DateTime>* r, const Map* m) { ::new (r) StatusOr<DateTime>(U::dateTimeFromMap(*m)); }
X void vc_parseDate(StatusOr<Date>* r, const std::string* s) { ::new (r) StatusOr<Date>(U::parseDate(*s)); }
X void vc_parseTime(StatusOr<Time>* r, const std::string* s) { ::new (r) StatusOr<Time>(U::parseTime(*s)); }
X void vc_parseDateTime(StatusOr<DateTime>* r, const std::string* s) { ::new (r) StatusOr<DateTime>(U::parseDateTime(*s)); }
X void vc_toTimestamp(StatusOr<Value>* r, const Value* v) { ::new (r) StatusOr<Value>(U::toTimestamp(*v)); }
X void vc_dateAttr(Value* r, const Date* d, const std::string* s) { ::new (r) Value(U::getDateAttr(*d, *s)); }
X void vc_timeAttr(Value* r, const Time* d, const std::string* s) { ::new (r) Value(U::getTimeAttr(*d, *s)); }
X void vc_dateTimeAttr(Value* r, const DateTime* d, const std::string* s) { ::new (r) Value(U::getDateTimeAttr(*d, *s)); }
X void vc_timeToUTC(Time* r, const Time* t) { *r = U::timeToUTC(*t); }
X void vc_utcToTime(Time* r, const Time* t) { *r = U::utcToTime(*t); }
X void vc_dateTimeToUTC(DateTime* r, const DateTime* t) { *r = U::dateTimeToUTC(*t); }
X void vc_utcToDateTime(DateTime* r, const DateTime* t) { *r = U::utcToDateTime(*t); }
X void vc_localTime(Time* r) { *r = U::localTime(); }
X void vc_utcTime(Time* r) { *r = U::utcTime(); }
X void vc_localDateTime(DateTime* r) { *r = U::localDateTime(); }
X void vc_utcDateTime(DateTime* r) { *r = U::utcDateTime(); }
X void vc_localDate(StatusOr<Date>* r) { ::new (r) StatusOr<Date>(U::localDate()); }
X void vc_utcDate(StatusOr<Date>* r) { ::new (r) StatusOr<Date>(U::utcDate()); }
X void vc_DateTime_get(const DateTime* p, int64_t* o) { o[0] = p->year; o[1] = p->month; o[2] = p->day; o[3] = p->hour; o[4] = p->minute; o[5] = p->sec; o[6] = p->microsec; }
X void vc_DateTime_set(DateTime* p, int16_t y, int8_t m, int8_t d, int8_t h, int8_t mi, int8_t s, int32_t us) { p->year = y; p->month = m; p->day = d; p->hour = h; p->minute = mi; p->sec = s; p->microsec = us; }
X void vc_Date_get(const Date* p, int64_t* o) { o[0] = p->year; o[1] = p->month; o[2] = p->day; }
X void vc_Date_set(Date* p, int16_t y, int8_t m, int8_t d) { p->year = y; p->month = m; p->day = d; }
X void vc_Time_get(const Time* p, int64_t* o) { o[0] = p->hour; o[1] = p->minute; o[2] = p->sec; o[3] = p->microsec; }
X void vc_Time_set(Time* p, int8_t h, int8_t mi, int8_t s, int32_t us) { p->hour = h; p->minute = mi; p->sec = s; p->microsec = us; }
#define KIND(T) X size_t vc_##T##_size() { return sizeof(T); } X size_t vc_##T##_rsize() { return sizeof(StatusOr<T>); } X bool vc_##T##_ok(const StatusOr<T>* r) { return r->ok(); } X const T* vc_##T##_val(const StatusOr<T>* r) { return &r->value(); }
KIND(Date) KIND(Time) KIND(DateTime) KIND(Value)
X size_t vc_Map_size() { return sizeof(Map); }
X const void* vc_kvs(const Map* m) { return &m->kvs; }
X const void* vc_now_unused() { return &Value::kNullUnknownProp; }
X bool vc_leap(int16_t y) { return TimeConversion::isLeapYear(y); }
