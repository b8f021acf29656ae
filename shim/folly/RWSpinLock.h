#pragma once
#include <mutex>
namespace folly { class RWSpinLock { public: void lock(); void unlock(); void lock_shared(); void unlock_shared();
 struct ReadHolder { explicit ReadHolder(RWSpinLock& l) : l_(l) { l_.lock_shared(); } explicit ReadHolder(RWSpinLock* l) : ReadHolder(*l) {} ~ReadHolder() { l_.unlock_shared(); } RWSpinLock& l_; };
 struct WriteHolder { explicit WriteHolder(RWSpinLock& l) : l_(l) { l_.lock(); } explicit WriteHolder(RWSpinLock* l) : WriteHolder(*l) {} ~WriteHolder() { l_.unlock(); } RWSpinLock& l_; };
 private: int v_ = 0; }; }
