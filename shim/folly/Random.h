#pragma once
#include <cstdint>
namespace folly {
struct Random {
    static uint32_t rand32(); static uint32_t rand32(uint32_t max); static uint32_t rand32(uint32_t min, uint32_t max);
    static uint64_t rand64(); static uint64_t rand64(uint64_t max); static uint64_t rand64(uint64_t min, uint64_t max);
    static double randDouble01(); static double randDouble(double min, double max);
};
uint32_t randomNumberSeed();
}
