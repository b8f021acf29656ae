// Roots for Latch and Barrier; the member offsets are read off the real classes.
#include "common/base/Base.h"
#define private public
#include "common/concurrent/Latch.h"
#include "common/concurrent/Barrier.h"
#undef private
#include <new>
#include <cstddef>
using nebula::concurrent::Latch; using nebula::concurrent::Barrier;
#define X extern "C"
#pragma clang diagnostic ignored "-Winvalid-offsetof"
X uint64_t vc_latch_size() { return sizeof(Latch); } X uint64_t vc_latch_counter() { return offsetof(Latch, counter_); } X uint64_t vc_latch_lock() { return offsetof(Latch, lock_); } X uint64_t vc_latch_cond() { return offsetof(Latch, cond_); }
X uint64_t vc_bar_size() { return sizeof(Barrier); } X uint64_t vc_bar_counter() { return offsetof(Barrier, counter_); } X uint64_t vc_bar_ages() { return offsetof(Barrier, ages_); } X uint64_t vc_bar_gen() { return offsetof(Barrier, generation_); }
X uint64_t vc_bar_lock() { return offsetof(Barrier, lock_); } X uint64_t vc_bar_cond() { return offsetof(Barrier, cond_); } X uint64_t vc_bar_completion() { return offsetof(Barrier, completion_); } X uint64_t vc_fn_size() { return sizeof(std::function<void()>); }
X void vc_latch_ctor(Latch* p, size_t n) { new (p) Latch(n); } X void vc_latch_down(Latch* p) { p->down(); } X void vc_latch_downWait(Latch* p) { p->downWait(); } X void vc_latch_wait(Latch* p) { p->wait(); } X bool vc_latch_isReady(Latch* p) { return p->isReady(); }
X void vc_bar_ctor(Barrier* p, size_t n, std::function<void()>* f) { new (p) Barrier(n, std::move(*f)); } X void vc_bar_wait(Barrier* p) { p->wait(); }
