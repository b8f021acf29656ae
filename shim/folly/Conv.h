#pragma once
#include <string>
#include <sstream>
#include <stdexcept>
#include <type_traits>
#include <folly/Range.h>
namespace folly {
namespace shim {
inline std::string one(const std::string& s) { return s; }
inline std::string one(const char* s) { return s; }
inline std::string one(StringPiece s) { return s.str(); }
inline std::string one(char c) { return std::string(1, c); }
template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>> std::string one(T v) { std::ostringstream o; o << +v; return o.str(); }
}
template <class T, class... A> std::enable_if_t<std::is_same<T, std::string>::value, T> to(const A&... a) { std::string r; (void)std::initializer_list<int>{(r += shim::one(a), 0)...}; return r; }
template <class T, class S> std::enable_if_t<std::is_integral<T>::value && !std::is_same<T,bool>::value, T> to(const S& s) { std::string x = shim::one(s); size_t p = 0; long long v = std::stoll(x, &p); if (p != x.size()) throw std::range_error("to"); return static_cast<T>(v); }
template <class T, class S> std::enable_if_t<std::is_same<T,bool>::value, T> to(const S& s) { std::string x = shim::one(s); return x == "true" || x == "1"; }
template <class T, class S> std::enable_if_t<std::is_floating_point<T>::value, T> to(const S& s) { std::string x = shim::one(s); return std::stod(x); }
}  // namespace folly
