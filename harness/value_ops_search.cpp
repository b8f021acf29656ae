// C19-C22: operators of Value against an oracle of their documented results, over every pair of a pool of boundary values and random ones.
#include "common/base/Base.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
#include "common/datatypes/Vertex.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/Path.h"
#include <random>
#include <cmath>
using namespace nebula; using std::string; using V = Value; using T = Value::Type;
static std::mt19937_64 G;
static string show(const V& v) { std::ostringstream o; o << v.type(); if (v.isFloat()) { char b[64]; snprintf(b, 64, "(%.17g)", v.getFloat()); o << b; } else if (v.isNull()) o << "(" << static_cast<int>(v.getNull()) << ")"; else if (v.isStr()) { o << "(\"" ; for (unsigned char c : v.getStr()) { if (c < 32) o << "\\" << int(c); else o << c; } o << "\")"; } else if (!v.empty() && !v.isPath()) o << "(" << v.toString() << ")"; return o.str(); }
static void fail(const char* op, const V& a, const V& b, const string& got, const string& want) { printf("FAIL %s: left %s right %s: got %s, expected %s\n", op, show(a).c_str(), show(b).c_str(), got.c_str(), want.c_str()); exit(1); }
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
// exact identity of two Values, by content and without Value's own ==
static bool ident(const V& a, const V& b) {
  if (a.type() != b.type()) return false;
  switch (a.type()) {
    case T::__EMPTY__: return true; case T::NULLVALUE: return a.getNull() == b.getNull(); case T::BOOL: return a.getBool() == b.getBool();
    case T::INT: return a.getInt() == b.getInt(); case T::FLOAT: return same(a.getFloat(), b.getFloat()); case T::STRING: return a.getStr() == b.getStr();
    case T::LIST: { auto &x = a.getList().values, &y = b.getList().values; if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!ident(x[i], y[i])) return false; return true; }
    case T::DATE: return a.getDate().toInt() == b.getDate().toInt() && a.getDate().year == b.getDate().year;
    case T::TIME: return a.getTime().toString() == b.getTime().toString(); case T::DATETIME: return a.getDateTime().qword == b.getDateTime().qword;
    case T::VERTEX: return ident(a.getVertex().vid, b.getVertex().vid); case T::EDGE: return ident(a.getEdge().src, b.getEdge().src);
    default: return a.toString() == b.toString();
  }
}
static void want(const char* op, const V& a, const V& b, const V& got, const V& w) { if (!ident(got, w)) fail(op, a, b, show(got), show(w)); }
static void wantb(const char* op, const V& a, const V& b, bool got, bool w) { if (got != w) fail(op, a, b, got ? "true" : "false", w ? "true" : "false"); }
static std::vector<V> pool;
static V nul(int n) { return V(static_cast<NullType>(n)); }
static void fill() {
  pool.emplace_back(); for (int i = 0; i < 8; i++) pool.push_back(nul(i));
  pool.emplace_back(true); pool.emplace_back(false);
  for (int64_t x : {0L, 1L, -1L, 2L, -2L, 7L, 10L, -10L, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 1L << 32, -(1L << 32), 3037000500L, -3037000500L, 1L << 53, (1L << 53) + 1, 4611686018427387904L}) pool.emplace_back(x);
  for (int i = 0; i < 6; i++) pool.emplace_back(static_cast<int64_t>(G() >> (G() % 64)) * (i % 2 ? 1 : -1));
  for (double d : {0.0, -0.0, 1.0, -1.0, 0.5, 1e-9, 1e-8, 1.5e-8, -1e-9, 1.000000001, 2.0, 10.0, 1e300, -1e300, 9.3e18, -9.3e18, 9223372036854775808.0, -9223372036854775808.0, 9007199254740992.0, (double)INFINITY, -(double)INFINITY, (double)NAN}) pool.emplace_back(d);
  for (int i = 0; i < 4; i++) pool.emplace_back(std::ldexp(static_cast<double>(static_cast<int64_t>(G())), static_cast<int>(G() % 80) - 70));
  for (const char* s : {"", "a", "b", "true", "12"}) pool.emplace_back(string(s)); pool.emplace_back(string("n\0ul", 4)); pool.emplace_back(string("a long string, longer than the small buffer"));
  pool.emplace_back(Date(2020, 2, 29)); pool.emplace_back(Date(1970, 1, 1)); pool.emplace_back(Date(2020, 2, 28)); pool.emplace_back(Time(1, 2, 3, 4)); pool.emplace_back(Time(1, 2, 3, 5)); pool.emplace_back(DateTime(2020, 2, 3, 4, 5, 6, 7)); pool.emplace_back(DateTime(2021, 2, 3, 4, 5, 6, 7));
  pool.emplace_back(Vertex("v", {})); pool.emplace_back(Vertex("w", {})); pool.emplace_back(Edge("a", "b", 1, "e", 0, {})); pool.emplace_back(Edge("a", "c", 1, "e", 0, {})); { Path p; p.src = Vertex("v", {}); pool.emplace_back(p); }
  pool.emplace_back(List()); pool.emplace_back(List({V(1), V("x")})); pool.emplace_back(List({V(1), V("y")})); { Map m; m.kvs["a"] = 1; pool.emplace_back(m); } { Set s; s.values.emplace(1); pool.emplace_back(s); } { DataSet d({"c"}); pool.emplace_back(d); }
}
static bool np(const V& a, const V& b, V& r) { if (a.isNull()) r = a; else if (b.isNull()) r = b; else if (a.empty() || b.empty()) r = V(); else return false; return true; }
static double dbl(const V& v) { return v.isInt() ? static_cast<double>(v.getInt()) : v.getFloat(); }
static V exact(__int128 x) { return x < INT64_MIN || x > INT64_MAX ? nul(4) : V(static_cast<int64_t>(x)); }
static string text(const V& v) {
  switch (v.type()) { case T::BOOL: return v.getBool() ? "true" : "false"; case T::INT: { char b[32]; snprintf(b, 32, "%ld", v.getInt()); return b; } case T::FLOAT: return folly::to<string>(v.getFloat());
    case T::STRING: return v.getStr(); case T::DATE: return v.getDate().toString(); case T::TIME: return v.getTime().toString(); case T::DATETIME: return v.getDateTime().toString(); default: return "?"; }
}
static bool scal(const V& v) { return v.isBool() || v.isInt() || v.isFloat() || v.isStr() || v.isDate() || v.isTime() || v.isDateTime(); }
static bool dateok(int64_t n) { return n > -1000000 && n < 1000000; }
static void arith(const V& a, const V& b) {
  V r; bool num = a.isNumeric() && b.isNumeric(), ii = a.isInt() && b.isInt();
  bool np0 = np(a, b, r);
  if (np0) { want("+", a, b, a + b, r); want("-", a, b, a - b, r); want("*", a, b, a * b, r); want("/", a, b, a / b, r); want("%", a, b, a % b, r); want("&", a, b, a & b, r); want("|", a, b, a | b, r); want("^", a, b, a ^ b, r); return; }
  if (ii) {
    __int128 x = a.getInt(), y = b.getInt();
    want("+", a, b, a + b, exact(x + y)); want("-", a, b, a - b, exact(x - y)); want("*", a, b, a * b, exact(x * y));
    want("/", a, b, a / b, y == 0 ? nul(6) : exact(x / y)); want("%", a, b, a % b, y == 0 ? nul(6) : exact(x % y));
    want("&", a, b, a & b, V(a.getInt() & b.getInt())); want("|", a, b, a | b, V(a.getInt() | b.getInt())); want("^", a, b, a ^ b, V(a.getInt() ^ b.getInt())); return;
  }
  V bt = nul(3); want("&", a, b, a & b, bt); want("|", a, b, a | b, bt); want("^", a, b, a ^ b, bt);
  if (num) {
    double x = dbl(a), y = dbl(b); bool z = b.isInt() ? b.getInt() == 0 : !(std::abs(y) > kEpsilon);
    want("+", a, b, a + b, V(x + y)); want("-", a, b, a - b, V(x - y)); want("*", a, b, a * b, V(x * y)); want("/", a, b, a / b, z ? nul(6) : V(x / y)); want("%", a, b, a % b, z ? nul(6) : V(std::fmod(x, y))); return;
  }
  want("*", a, b, a * b, bt); want("/", a, b, a / b, bt); want("%", a, b, a % b, bt);
  if (a.isDate() && b.isDate()) want("-", a, b, a - b, V(a.getDate().toInt() - b.getDate().toInt()));
  else if (a.isDate() && b.isInt()) { if (dateok(b.getInt())) want("-", a, b, a - b, V(a.getDate() - b.getInt())); }
  else want("-", a, b, a - b, bt);
  V s = bt;
  if (a.isDataSet() || b.isDataSet()) s = bt;
  else if (a.isList() || b.isList()) { std::vector<V> l; if (a.isList()) l = a.getList().values; else l.push_back(a); if (b.isList()) for (auto& x : b.getList().values) l.push_back(x); else l.push_back(b); s = V(List(std::move(l))); }
  else if ((a.isStr() || b.isStr()) && scal(a) && scal(b)) s = V(text(a) + text(b));
  else if (a.isDate() && b.isInt()) { if (!dateok(b.getInt())) return; s = V(a.getDate() + b.getInt()); }
  else if (a.isInt() && b.isDate()) { if (!dateok(a.getInt())) return; s = V(b.getDate() + a.getInt()); }
  want("+", a, b, a + b, s);
}
static bool near(double x, double y) { return x == y || std::abs(x - y) < kEpsilon; }
static bool oeq(const V& a, const V& b) {
  if (a.isNumeric() && b.isNumeric()) return a.isInt() && b.isInt() ? a.getInt() == b.getInt() : near(dbl(a), dbl(b));
  if (a.type() != b.type()) return false;
  switch (a.type()) { case T::__EMPTY__: case T::NULLVALUE: return true; case T::BOOL: return a.getBool() == b.getBool(); case T::STRING: return a.getStr() == b.getStr(); case T::DATE: return a.getDate() == b.getDate(); case T::TIME: return a.getTime() == b.getTime();
    case T::DATETIME: return a.getDateTime() == b.getDateTime(); case T::VERTEX: return a.getVertex() == b.getVertex(); case T::EDGE: return a.getEdge() == b.getEdge(); case T::PATH: return a.getPath() == b.getPath(); case T::LIST: return a.getList() == b.getList();
    case T::MAP: return a.getMap() == b.getMap(); case T::SET: return a.getSet() == b.getSet(); case T::DATASET: return a.getDataSet() == b.getDataSet(); default: return false; }
}
static bool olt(const V& a, const V& b) {
  if (a.isNumeric() && b.isNumeric()) return a.isInt() && b.isInt() ? a.getInt() < b.getInt() : dbl(a) < dbl(b);
  if (a.type() != b.type()) return static_cast<uint64_t>(a.type()) < static_cast<uint64_t>(b.type());
  switch (a.type()) { case T::BOOL: return a.getBool() < b.getBool(); case T::STRING: return a.getStr() < b.getStr(); case T::DATE: return a.getDate() < b.getDate(); case T::TIME: return a.getTime() < b.getTime(); case T::DATETIME: return a.getDateTime() < b.getDateTime();
    case T::VERTEX: return a.getVertex() < b.getVertex(); case T::EDGE: return a.getEdge() < b.getEdge(); case T::PATH: return a.getPath() < b.getPath(); case T::LIST: return a.getList() < b.getList(); default: return false; }
}
static bool hashable(const V& v) { return !v.isMap() && !v.isSet() && !v.isDataSet(); }
static void compare(const V& a, const V& b) {
  wantb("<", a, b, a < b, olt(a, b)); wantb(">", a, b, a > b, olt(b, a)); wantb("<=", a, b, a <= b, !olt(b, a)); wantb(">=", a, b, a >= b, !olt(a, b)); wantb("==", a, b, a == b, oeq(a, b)); wantb("!=", a, b, a != b, !oeq(a, b));
  if (hashable(a) && a.type() == b.type() && oeq(a, b) && (!a.isFloat() || a.getFloat() == b.getFloat())) if (std::hash<V>()(a) != std::hash<V>()(b)) fail("hash", a, b, "different hashes", "equal hashes of equal values");
}
static void logic(const V& a, const V& b) {
  V r; bool n = np(a, b, r); bool bb = a.isBool() && b.isBool();
  want("&&", a, b, a && b, n ? r : bb ? V(a.getBool() && b.getBool()) : nul(3)); want("||", a, b, a || b, n ? r : bb ? V(a.getBool() || b.getBool()) : nul(3));
  bool mix = a.type() != b.type() && !(a.isNumeric() && b.isNumeric());
  want("lessThan", a, b, a.lessThan(b), a.isNull() || b.isNull() ? nul(0) : a.empty() || b.empty() ? V() : mix ? nul(0) : a.isFloat() || b.isFloat() ? V(dbl(a) < dbl(b) && !near(dbl(a), dbl(b))) : V(olt(a, b)));
  want("equal", a, b, a.equal(b), a.isNull() || b.isNull() ? nul(0) : V(oeq(a, b)));
}
static void unary(const V& a) {
  want("unary -", a, a, -a, a.isNull() || a.empty() ? a : a.isInt() ? exact(-static_cast<__int128>(a.getInt())) : a.isFloat() ? V(-a.getFloat()) : nul(3));
  want("!", a, a, !a, a.isNull() || a.empty() ? a : a.isBool() ? V(!a.getBool()) : nul(3));
}
static void convert() {
  for (auto& a : pool) {
    bool nu = a.isNull() || a.empty();
    if (!a.isStr()) {
      want("toBool", a, a, a.toBool(), nu ? nul(0) : a.isBool() ? a : nul(3));
      want("toFloat", a, a, a.toFloat(), nu ? nul(0) : a.isInt() ? V(static_cast<double>(a.getInt())) : a.isFloat() ? a : nul(3));
      V w = nul(3); if (nu) w = nul(0); else if (a.isInt()) w = a; else if (a.isFloat()) { double d = a.getFloat(); w = std::isnan(d) ? nul(1) : d <= -9223372036854775808.0 ? V(INT64_MIN) : d >= 9223372036854775808.0 ? V(INT64_MAX) : V(static_cast<int64_t>(d)); }
      want("toInt", a, a, a.toInt(), w);
    }
  }
  struct { const char* s; V b, f, i; } S[] = {
    {"true", V(true), nul(0), nul(0)}, {"TRUE", V(true), nul(0), nul(0)}, {"False", V(false), nul(0), nul(0)}, {"falsey", nul(0), nul(0), nul(0)}, {"12", nul(0), V(12.0), V(12)}, {"-12", nul(0), V(-12.0), V(-12)}, {"12.75", nul(0), V(12.75), V(12)}, {"-12.75", nul(0), V(-12.75), V(-12)},
    {"12a", nul(0), nul(0), nul(0)}, {"12.5a", nul(0), nul(0), nul(0)}, {"9223372036854775807", nul(0), V(9223372036854775807.0), V(INT64_MAX)}, {"-9223372036854775808", nul(0), V(-9223372036854775808.0), V(INT64_MIN)},
    {"9223372036854775808", nul(0), V(9223372036854775808.0), nul(4)}, {"-9223372036854775809", nul(0), V(-9223372036854775809.0), nul(4)}, {"99999999999999999999.5", nul(0), V(99999999999999999999.5), nul(4)}, {"-99999999999999999999.5", nul(0), V(-99999999999999999999.5), nul(4)}, {"1e400.", nul(0), nul(0), nul(0)}};
  for (auto& s : S) { V a(s.s); want("toBool", a, a, a.toBool(), s.b); want("toFloat", a, a, a.toFloat(), s.f); want("toInt", a, a, a.toInt(), s.i); }
  const char* tn[] = {"__NULL__", "NaN", "BAD_DATA", "BAD_TYPE", "ERR_OVERFLOW", "UNKNOWN_PROP", "DIV_BY_ZERO", "OUT_OF_RANGE"};
  for (int i = 0; i < 8; i++) { V a = nul(i); if (a.typeName() != tn[i]) fail("typeName", a, a, a.typeName(), tn[i]); }
}
int main(int argc, char** argv) {
  G.seed(getenv("VERIF_SEED") ? atoll(getenv("VERIF_SEED")) : 1); string w = argc > 1 ? argv[1] : "arith"; fill();
  const V* K[] = {&V::kNullValue, &V::kNullNaN, &V::kNullBadData, &V::kNullBadType, &V::kNullOverflow, &V::kNullUnknownProp, &V::kNullDivByZero, &V::kNullOutOfRange};
  for (int i = 0; i < 8; i++) if (!ident(*K[i], nul(i))) fail("constant", *K[i], nul(i), show(*K[i]), show(nul(i)));
  if (!V::kEmpty.empty()) fail("constant", V::kEmpty, V(), show(V::kEmpty), "empty");
  if (w == "convert") { convert(); printf("OK\n"); return 0; }
  for (auto& a : pool) { if (w == "arith" || w == "logic") unary(a); for (auto& b : pool) { if (w == "arith") arith(a, b); else if (w == "compare") compare(a, b); else logic(a, b); } }
  if (w == "arith") for (int i = 0; i < 200000; i++) { V a(static_cast<int64_t>(G() >> (G() % 64)) * (G() % 2 ? 1 : -1)), b(static_cast<int64_t>(G() >> (G() % 64)) * (G() % 2 ? 1 : -1)); arith(a, b); }
  printf("OK\n"); return 0;
}
