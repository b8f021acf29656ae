#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <tuple>
#include <utility>
#include <folly/Range.h>
namespace folly {
namespace hash {
const uint32_t FNV_32_HASH_START = 2166136261UL;
const uint64_t FNV_64_HASH_START = 14695981039346656037ULL;
uint32_t fnv32_buf(const void* buf, size_t n, uint32_t hash = FNV_32_HASH_START);
uint64_t fnv64_buf(const void* buf, size_t n, uint64_t hash = FNV_64_HASH_START);
uint64_t fnv64(const char* buf, uint64_t hash = FNV_64_HASH_START);
uint64_t fnv64(const std::string& str, uint64_t hash = FNV_64_HASH_START);
struct SpookyHashV2 { static uint64_t Hash64(const void* p, size_t n, uint64_t s) { return fnv64_buf(p, n, s); } };
}  // namespace hash
}  // namespace folly

namespace folly { namespace hash { inline uint64_t hash_128_to_64(uint64_t a, uint64_t b) noexcept { const uint64_t k = 0x9ddfea08eb382d69ULL; uint64_t x = (a ^ b) * k; x ^= (x >> 47); uint64_t y = (b ^ x) * k; y ^= (y >> 47); return y * k; }
template <size_t I, class T> struct TupleH { static size_t h(const T& t) { return hash_128_to_64(TupleH<I - 1, T>::h(t), std::hash<std::decay_t<std::tuple_element_t<I, T>>>()(std::get<I>(t))); } };
template <class T> struct TupleH<0, T> { static size_t h(const T& t) { return std::hash<std::decay_t<std::tuple_element_t<0, T>>>()(std::get<0>(t)); } }; } }
namespace std { template <class... A> struct hash<std::tuple<A...>> { size_t operator()(const std::tuple<A...>& t) const { return folly::hash::TupleH<sizeof...(A) - 1, std::tuple<A...>>::h(t); } };
template <class A, class B> struct hash<std::pair<A, B>> { size_t operator()(const std::pair<A, B>& t) const { return folly::hash::hash_128_to_64(std::hash<A>()(t.first), std::hash<B>()(t.second)); } }; }
