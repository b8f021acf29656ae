#pragma once
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <sstream>
#include <folly/Range.h>
#include <folly/Conv.h>
namespace folly {
std::string stringPrintf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void toLowerAscii(std::string& s);
template <class C> std::string join(const char* delim, const C& c) {
    std::string r; bool first = true;
    for (const auto& x : c) { if (!first) r += delim; first = false; r += to<std::string>(x); }
    return r;
}
template <class C> std::string join(const std::string& delim, const C& c) { return join(delim.c_str(), c); }
template <class V> void split(const std::string& delim, StringPiece s, V& out, bool ignoreEmpty = false) {
    std::string str = s.str(); size_t p = 0;
    while (true) {
        size_t q = delim.empty() ? std::string::npos : str.find(delim, p);
        std::string tok = str.substr(p, q == std::string::npos ? q : q - p);
        if (!(ignoreEmpty && tok.empty())) out.emplace_back(tok);
        if (q == std::string::npos) break;
        p = q + delim.size();
    }
}
template <class V> void split(char delim, StringPiece s, V& out, bool ie = false) { split(std::string(1, delim), s, out, ie); }
template <class V> void split(const char* delim, StringPiece s, V& out, bool ie = false) { split(std::string(delim), s, out, ie); }
template <class P, class V> void split(const std::string& delim, const std::string& s, V& out, bool ie = false) {
    size_t p = 0;
    while (true) {
        size_t q = delim.empty() ? std::string::npos : s.find(delim, p); size_t e = q == std::string::npos ? s.size() : q;
        if (!(ie && e == p)) out.emplace_back(P(s.data() + p, e - p));
        if (q == std::string::npos) break;
        p = q + delim.size();
    }
}
}  // namespace folly
