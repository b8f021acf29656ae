// verification entry points for time/Duration, time/detail/TscHelper, time/WallClock and base/SlowOpTracker
#include "common/base/Base.h"
#define private public
#include "common/time/Duration.h"
#include "common/time/detail/TscHelper.h"
#include "common/time/WallClock.h"
#include "common/base/SlowOpTracker.h"
#undef private
using namespace nebula::time; using nebula::SlowOpTracker;
extern "C" {
size_t vc_dur_size() { return sizeof(Duration); }
size_t vc_dur_start() { return offsetof(Duration, startTick_); }
size_t vc_dur_acc() { return offsetof(Duration, accumulated_); }
size_t vc_dur_paused() { return offsetof(Duration, isPaused_); }
void vc_dur_ctor(void* p, bool b) { new (p) Duration(b); }
void vc_dur_ctor0(void* p) { new (p) Duration(); }
void vc_dur_reset(Duration* d, bool b) { d->reset(b); }
void vc_dur_reset0(Duration* d) { d->reset(); }
void vc_dur_pause(Duration* d) { d->pause(); }
void vc_dur_resume(Duration* d) { d->resume(); }
bool vc_dur_isPaused(const Duration* d) { return d->isPaused(); }
uint64_t vc_dur_Sec(const Duration* d) { return d->elapsedInSec(); }
uint64_t vc_dur_MSec(const Duration* d) { return d->elapsedInMSec(); }
uint64_t vc_dur_USec(const Duration* d) { return d->elapsedInUSec(); }
uint64_t vc_tsc_read() { return TscHelper::readTsc(); }
size_t vc_tsc_size() { return sizeof(TscHelper); }
size_t vc_tsc_first() { return offsetof(TscHelper, firstTick_); }
size_t vc_tsc_mono() { return offsetof(TscHelper, startMonoTime_); }
size_t vc_tsc_real() { return offsetof(TscHelper, startRealTime_); }
size_t vc_tsc_fSec() { return offsetof(TscHelper, ticksPerSecFactor_); }
size_t vc_tsc_fMSec() { return offsetof(TscHelper, ticksPerMSecFactor_); }
size_t vc_tsc_fUSec() { return offsetof(TscHelper, ticksPerUSecFactor_); }
void vc_tsc_calibrate(TscHelper* t) { t->calibrate(); }
void vc_tsc_ctor(void* p) { new (p) TscHelper(); }
TscHelper* vc_tsc_get() { return &TscHelper::get(); }
uint64_t vc_tsc_Sec(uint64_t t) { return TscHelper::ticksToDurationInSec(t); }
uint64_t vc_tsc_MSec(uint64_t t) { return TscHelper::ticksToDurationInMSec(t); }
uint64_t vc_tsc_USec(uint64_t t) { return TscHelper::ticksToDurationInUSec(t); }
uint64_t vc_tsc_pSec(uint64_t t) { return TscHelper::tickToTimePointInSec(t); }
uint64_t vc_tsc_pMSec(uint64_t t) { return TscHelper::tickToTimePointInMSec(t); }
uint64_t vc_tsc_pUSec(uint64_t t) { return TscHelper::tickToTimePointInUSec(t); }
int64_t vc_wc_slowSec() { return WallClock::slowNowInSec(); }
int64_t vc_wc_slowMSec() { return WallClock::slowNowInMilliSec(); }
int64_t vc_wc_slowUSec() { return WallClock::slowNowInMicroSec(); }
int64_t vc_wc_fastSec() { return WallClock::fastNowInSec(); }
int64_t vc_wc_fastMSec() { return WallClock::fastNowInMilliSec(); }
int64_t vc_wc_fastUSec() { return WallClock::fastNowInMicroSec(); }
size_t vc_so_size() { return sizeof(SlowOpTracker); }
size_t vc_so_start() { return offsetof(SlowOpTracker, startMs_); }
size_t vc_so_dur() { return offsetof(SlowOpTracker, dur_); }
void vc_so_ctor(void* p) { new (p) SlowOpTracker(); }
bool vc_so_slow(SlowOpTracker* s, int64_t t) { return s->slow(t); }
bool vc_so_slow0(SlowOpTracker* s) { return s->slow(); }
int64_t vc_flag() { return FLAGS_slow_op_threshhold_ms; }
}
