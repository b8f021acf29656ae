#pragma once
#include <mutex>
namespace folly { class SpinLock { public: void lock(); void unlock(); bool try_lock(); private: int l_ = 0; };
using SpinLockGuard = std::lock_guard<SpinLock>; }
