// Stand-in for the part of folly that nebula-common uses; folly is not installed here. Declares the same
// interface; the verifier treats it as a dependency under assumed contract, the replay programs run it.
#pragma once
#include <cassert>
#include <cmath>
#include <string>
#include <folly/Likely.h>
#include <cstring>
#include <string_view>
#include <ostream>
#include <functional>
namespace folly {
class StringPiece {
public:
    StringPiece() : b_(nullptr), e_(nullptr) {}
    StringPiece(const char* s) : b_(s), e_(s + ::strlen(s)) {}                 // NOLINT
    StringPiece(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}  // NOLINT
    StringPiece(const char* s, size_t n) : b_(s), e_(s + n) {}
    StringPiece(const char* b, const char* e) : b_(b), e_(e) {}
    const char* data() const { return b_; }
    const char* start() const { return b_; }
    const char* begin() const { return b_; }
    const char* end() const { return e_; }
    size_t size() const { return e_ - b_; }
    bool empty() const { return b_ == e_; }
    const char& operator[](size_t i) const { return b_[i]; }
    std::string str() const { return std::string(b_, size()); }
    std::string toString() const { return str(); }
    operator std::string_view() const { return std::string_view(b_, size()); }
    explicit operator std::string() const { return str(); }
    bool startsWith(StringPiece o) const { return size() >= o.size() && ::memcmp(b_, o.b_, o.size()) == 0; }
    static constexpr size_t npos = std::string::npos;
    void advance(size_t n) { b_ += n; }
    void subtract(size_t n) { e_ -= n; }
    char front() const { return *b_; }
    char back() const { return e_[-1]; }
    size_t find(char c) const { return std::string_view(*this).find(c); }
    size_t find(char c, size_t p) const { return std::string_view(*this).find(c, p); }
    size_t find(StringPiece o) const { return std::string_view(*this).find(std::string_view(o)); }
    size_t rfind(char c) const { return std::string_view(*this).rfind(c); }
    StringPiece subpiece(size_t first, size_t len = std::string::npos) const {
        return StringPiece(b_ + first, len < size() - first ? len : size() - first); }
private:
    const char* b_; const char* e_;
};
inline bool operator==(StringPiece a, StringPiece b) { return a.size() == b.size() && (a.size() == 0 || ::memcmp(a.data(), b.data(), a.size()) == 0); }
inline bool operator!=(StringPiece a, StringPiece b) { return !(a == b); }
inline bool operator<(StringPiece a, StringPiece b) { return std::string_view(a) < std::string_view(b); }
inline std::ostream& operator<<(std::ostream& os, StringPiece p) { return os.write(p.data(), p.size()); }
using ByteRange = StringPiece;
inline StringPiece rtrimWhitespace(StringPiece p) { const char* e = p.end(); while (e > p.begin() && (e[-1]==' '||e[-1]=='\t'||e[-1]=='\n'||e[-1]=='\r')) --e; return StringPiece(p.begin(), e); }
inline StringPiece ltrimWhitespace(StringPiece p) { const char* b = p.begin(); while (b < p.end() && (*b==' '||*b=='\t'||*b=='\n'||*b=='\r')) ++b; return StringPiece(b, p.end()); }
inline StringPiece trimWhitespace(StringPiece p) { return ltrimWhitespace(rtrimWhitespace(p)); }
}  // namespace folly
namespace std { template<> struct hash<folly::StringPiece> { size_t operator()(folly::StringPiece p) const { return std::hash<std::string_view>()(p); } }; }
