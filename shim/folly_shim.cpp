#include <folly/String.h>
#include <folly/hash/Hash.h>
#include <folly/Random.h>
#include <folly/SpinLock.h>
#include <folly/RWSpinLock.h>
#include <random>
namespace folly {
std::string stringPrintf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); char buf[4096]; int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return std::string(buf, n < 0 ? 0 : (size_t)n < sizeof buf ? n : sizeof buf - 1); }
void toLowerAscii(std::string& s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; }
namespace hash {
uint32_t fnv32_buf(const void* buf, size_t n, uint32_t h) { auto p = static_cast<const signed char*>(buf); for (size_t i = 0; i < n; i++) { h += (h << 1) + (h << 4) + (h << 7) + (h << 8) + (h << 24); h ^= p[i]; } return h; }
uint64_t fnv64_buf(const void* buf, size_t n, uint64_t h) { auto p = static_cast<const signed char*>(buf); for (size_t i = 0; i < n; i++) { h += (h << 1) + (h << 4) + (h << 5) + (h << 7) + (h << 8) + (h << 40); h ^= p[i]; } return h; }
uint64_t fnv64(const char* b, uint64_t h) { return fnv64_buf(b, ::strlen(b), h); }
uint64_t fnv64(const std::string& s, uint64_t h) { return fnv64_buf(s.data(), s.size(), h); }
}
static std::mt19937_64 rng(12345);
uint32_t Random::rand32() { return rng(); } uint32_t Random::rand32(uint32_t m) { return m ? rng() % m : 0; } uint32_t Random::rand32(uint32_t a, uint32_t b) { return b > a ? a + rng() % (b - a) : 0; }
uint64_t Random::rand64() { return rng(); } uint64_t Random::rand64(uint64_t m) { return m ? rng() % m : 0; } uint64_t Random::rand64(uint64_t a, uint64_t b) { return b > a ? a + rng() % (b - a) : 0; }
double Random::randDouble01() { return (rng() >> 11) * 0x1.0p-53; } double Random::randDouble(double a, double b) { return a + (b - a) * randDouble01(); }
uint32_t randomNumberSeed() { return 1; }
void SpinLock::lock() { while (__atomic_exchange_n(&l_, 1, __ATOMIC_ACQUIRE)) {} } void SpinLock::unlock() { __atomic_store_n(&l_, 0, __ATOMIC_RELEASE); } bool SpinLock::try_lock() { return !__atomic_exchange_n(&l_, 1, __ATOMIC_ACQUIRE); }
static std::mutex rw; void RWSpinLock::lock() { rw.lock(); } void RWSpinLock::unlock() { rw.unlock(); } void RWSpinLock::lock_shared() { rw.lock(); } void RWSpinLock::unlock_shared() { rw.unlock(); }
}
