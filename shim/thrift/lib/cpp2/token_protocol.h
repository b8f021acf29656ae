// A protocol for search programs and demonstrations: field headers carry the id as the difference from the last field of the struct
// (as the compact protocol does) or the field name (as JSON does); values are typed; every byte is counted.
#pragma once
#include <thrift/lib/cpp2/GeneratedCodeHelper.h>
#include <vector>
struct TokenProtocol {
    using TType = apache::thrift::protocol::TType;
    struct Tok { char op; std::string s; int type = 0; int64_t i = 0; double d = 0; int w = 0; };
    std::vector<Tok> t; size_t at = 0; std::vector<int> last; bool names = false;
    bool kUsesFieldNames() const { return names; }
    [[noreturn]] static void bad(const std::string& m) { throw std::runtime_error("protocol: " + m); }
    // writing
    uint32_t writeStructBegin(const char*) { t.push_back({'{'}); last.push_back(0); return 1; }
    uint32_t writeStructEnd() { last.pop_back(); return 1; }
    uint32_t writeFieldBegin(const char* n, TType ty, int id) { Tok x{'f', n, ty}; x.i = id - last.back(); x.w = id; last.back() = id; t.push_back(x); return 3; }
    uint32_t writeFieldEnd() { return 1; }
    uint32_t writeFieldStop() { t.push_back({'.'}); return 1; }
    uint32_t writeBool(bool v) { Tok x{'b'}; x.i = v; t.push_back(x); return 1; }
    uint32_t writeDouble(double v) { Tok x{'d'}; x.d = v; t.push_back(x); return 8; }
    uint32_t writeBinary(const std::string& v) { Tok x{'s'}; x.s = v; t.push_back(x); return 4 + v.size(); }
    uint32_t writeString(const std::string& v) { return writeBinary(v); }
    uint32_t writeInt(int64_t v, int w) { Tok x{'i'}; x.i = v; x.w = w; t.push_back(x); return w; }
    uint32_t writeSize(size_t n) { Tok x{'n'}; x.i = n; t.push_back(x); return 5; }
    // sizes
    uint32_t serializedStructSize(const char*) const { return 2; }
    uint32_t serializedFieldSize(const char*, TType, int) const { return 4; }
    uint32_t serializedSizeStop() const { return 1; }
    uint32_t serializedSizeBool(bool) const { return 1; }
    uint32_t serializedSizeDouble(double) const { return 8; }
    uint32_t serializedSizeBinary(const std::string& v) const { return 4 + v.size(); }
    uint32_t serializedSizeZCBinary(const std::string& v) const { return 4 + v.size(); }
    uint32_t serializedSizeString(const std::string& v) const { return 4 + v.size(); }
    uint32_t sizeInt(int64_t, int w) const { return w; }
    uint32_t sizeSize(size_t) const { return 5; }
    // reading
    Tok& next(char op, const char* what) { if (at >= t.size()) bad("end of the message, wanted " + std::string(what)); if (t[at].op != op) bad(std::string("wanted ") + what + ", found '" + t[at].op + "'"); return t[at++]; }
    void readStructBegin() { next('{', "a struct"); open.push_back(false); }
    void readStructEnd() { if (!open.back()) bad("struct left before its stop marker"); open.pop_back(); }
    void readFieldEnd() {}
    void readFieldEndIfAny() {}
    std::vector<bool> open;
    void readFieldBegin(std::string& n, TType& ty, int16_t& id, int16_t prev) {
        if (at < t.size() && t[at].op == '.') { at++; ty = apache::thrift::protocol::T_STOP; id = 0; open.back() = true; return; }
        Tok& x = next('f', "a field"); n = x.s; ty = static_cast<TType>(x.type); id = names ? INT16_MIN : static_cast<int16_t>(prev + x.i);
    }
    void readBool(bool& v) { v = next('b', "a bool").i; }
    void readDouble(double& v) { v = next('d', "a double").d; }
    void readBinary(std::string& v) { v = next('s', "a string").s; }
    void readString(std::string& v) { readBinary(v); }
    int64_t readInt(int w) { Tok& x = next('i', "an integer"); if (x.w != w) bad("an integer of " + std::to_string(x.w) + " bytes read as " + std::to_string(w)); return x.i; }
    size_t readSize() { return next('n', "a container").i; }
    void skipStruct() { next('{', "a struct"); for (;;) { if (at >= t.size()) bad("end of the message in a skipped struct"); if (t[at].op == '.') { at++; return; } next('f', "a field"); skipValue(); } }
    void skipValue() {
        if (at >= t.size()) bad("end of the message in a skipped value");
        char op = t[at].op;
        if (op == '{') { skipStruct(); return; }
        if (op == 'n') { bad("skipping containers needs their type"); }
        if (op == 'f' || op == '.') bad("no value to skip");
        at++;
    }
    void skip(TType ty) {
        using namespace apache::thrift::protocol;
        char want = ty == T_BOOL ? 'b' : ty == T_DOUBLE ? 'd' : ty == T_STRING ? 's' : ty == T_STRUCT ? '{' : ty == T_MAP || ty == T_SET || ty == T_LIST ? 'n' : 'i';
        if (at >= t.size() || t[at].op != want) bad("skip of a value of another type");
        if (want == 'n') { if (t[at].i != 0) bad("only empty containers are skipped here"); at++; return; }
        skipValue();
    }
};
