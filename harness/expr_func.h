// C31, C32: the built-in functions and the aggregates of the real code, against an oracle of what each is documented to give.
#include "common/function/FunctionManager.h"
#include "common/function/AggFunctionManager.h"
#include "common/expression/AggregateExpression.h"
#include "common/time/TimeUtils.h"
#include "common/time/TimezoneInfo.h"
#include <strings.h>
DECLARE_string(timezone_name);
using Args = vector<V>;
static bool num(const V& v) { return v.isInt() || v.isFloat(); }
static double dbl(const V& v) { return v.isInt() ? static_cast<double>(v.getInt()) : v.getFloat(); }
static V L(vector<V> x) { List l; l.values = std::move(x); return V(std::move(l)); }
static V vert(const V& vid, vector<Tag> t = {}) { Vertex v; v.vid = vid; v.tags = std::move(t); return V(std::move(v)); }
using Fn = std::function<V(const Args&)>;
/** null gives null, the kinds listed are taken, anything else is a null of bad type */
static Fn by(std::map<T, std::function<V(const V&)>> m, bool nul_ = true) { return [=](const Args& a) { auto i = m.find(a[0].type()); return i != m.end() ? i->second(a[0]) : a[0].isNull() && nul_ ? nul(0) : nul(3); }; }
static Fn mth(double (*f)(double), std::function<bool(const V&)> bad = nullptr) { auto g = [=](const V& v) { return bad && bad(v) ? nul(0) : V(f(dbl(v))); }; return by({{T::INT, g}, {T::FLOAT, g}}); }
static V stepEdge(const Path& p, size_t i) { auto& s = p.steps[i]; return V(Edge(i ? p.steps[i - 1].dst.vid : p.src.vid, s.dst.vid, s.type, s.name, s.ranking, std::unordered_map<string, V>(s.props))); }
static vector<string> splitOn(const string& s, const string& d) { vector<string> r; size_t b = 0; for (;;) { auto e = s.find(d, b); r.push_back(s.substr(b, e == string::npos ? e : e - b)); if (e == string::npos) return r; b = e + d.size(); } }
static string trimmed(string s, bool l, bool r) { auto ws = [](char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }; while (l && !s.empty() && ws(s[0])) s.erase(0, 1); while (r && !s.empty() && ws(s.back())) s.pop_back(); return s; }
static std::pair<string, Fn> oracle(int k, size_t& lo, size_t& hi) {
  auto ci = [](int (*f)(int)) { return by({{T::STRING, [=](const V& v) { string s = v.getStr(); for (auto& c : s) c = static_cast<char>(f(static_cast<unsigned char>(c))); return V(s); }}}); };
  auto bit = [](int o) { return [=](const Args& a) { return o == 0 ? a[0] & a[1] : o == 1 ? a[0] | a[1] : a[0] ^ a[1]; }; };
  auto zero = [](const V& v) { return v.isInt() ? v.getInt() == 0 : v.getFloat() >= -1e-8 && v.getFloat() <= 1e-8; };
  auto pad = [](bool l) { return [=](const Args& a) -> V { if (!a[0].isStr() || !a[1].isInt() || !a[2].isStr()) return nul(3); string s = a[0].getStr(), e = a[2].getStr(), f; int64_t n = a[1].getInt(); if (n < 0) return V(""); if (n <= static_cast<int64_t>(s.size())) return V(s.substr(0, n)); if (e.empty()) return V(s); while (static_cast<int64_t>(f.size() + s.size()) < n) f += e[f.size() % e.size()]; return V(l ? f + s : s + f); }; };
  auto sub_ = [](const Args& a) -> V { if (a[0].isNull()) return nul(0); if (!a[0].isStr() || !a[1].isInt() || (a.size() == 3 && !a[2].isInt())) return nul(3); string s = a[0].getStr(); int64_t b = a[1].getInt(), n = a.size() == 3 ? a[2].getInt() : static_cast<int64_t>(s.size()); if (b < 0 || n < 0) return nul(2); return b >= static_cast<int64_t>(s.size()) ? V("") : V(s.substr(b, n)); };
  auto rnd = [](int bits) { return [=](const Args& a) -> V { for (auto& x : a) if (!x.isInt()) return nul(3); int64_t top = bits == 32 ? (1ll << 32) - 1 : INT64_MAX; for (auto& x : a) if (x.getInt() < 0 || x.getInt() > top) return nul(2); if (a.size() == 2 && a[0].getInt() >= a[1].getInt()) return nul(2); return V(); }; };
  auto labels = by({{T::VERTEX, [](const V& v) { vector<V> r; for (auto& t : v.getVertex().tags) r.push_back(V(t.name)); return L(r); }}});
  auto tstr = [](const Args& a) -> V { auto& v = a[0]; switch (v.type()) { case T::NULLVALUE: return nul(0); case T::INT: return V(std::to_string(v.getInt())); case T::BOOL: return V(v.getBool() ? "true" : "false"); case T::STRING: return v; case T::DATE: return V(v.getDate().toString()); case T::TIME: return V(v.getTime().toString()); case T::DATETIME: return V(v.getDateTime().toString()); default: return nul(3); } };
  lo = hi = 1;
#define FN(NAME, ...) if (!k--) return {NAME, __VA_ARGS__};
#define FN2(N, NAME, ...) if (!k--) { lo = hi = N; return {NAME, __VA_ARGS__}; }
  FN("abs", by({{T::INT, [](const V& v) { return v.getInt() == INT64_MIN ? nul(4) : V(v.getInt() < 0 ? -v.getInt() : v.getInt()); }}, {T::FLOAT, [](const V& v) { return V(std::fabs(v.getFloat())); }}}))
  FN("floor", mth(std::floor)) FN("ceil", mth(std::ceil)) FN("round", mth(std::round)) FN("cbrt", mth(std::cbrt)) FN("exp", mth(std::exp)) FN("exp2", mth(std::exp2)) FN("sin", mth(std::sin)) FN("asin", mth(std::asin)) FN("cos", mth(std::cos)) FN("acos", mth(std::acos)) FN("tan", mth(std::tan)) FN("atan", mth(std::atan))
  FN("log", mth(std::log, zero)) FN("log2", mth(std::log2, zero)) FN("log10", mth(std::log10, zero)) FN("sqrt", mth(std::sqrt, [](const V& v) { return dbl(v) < 0; }))
  FN2(2, "bit_and", bit(0)) FN2(2, "bit_or", bit(1)) FN2(2, "bit_xor", bit(2))
  FN2(2, "hypot", [](const Args& a) { return num(a[0]) && num(a[1]) ? V(std::hypot(dbl(a[0]), dbl(a[1]))) : nul(3); })
  FN2(2, "pow", [](const Args& a) { if (!num(a[0]) || !num(a[1])) return nul(3); double v = std::pow(dbl(a[0]), dbl(a[1])); if (!a[0].isInt() || !a[1].isInt()) return V(v); return v >= -9223372036854775808.0 && v < 9223372036854775808.0 ? V(static_cast<int64_t>(v)) : nul(4); })
  FN2(0, "e", [](const Args&) { return V(M_E); }) FN2(0, "pi", [](const Args&) { return V(M_PI); })
  FN("radians", by({{T::INT, [](const V& v) { return V(v.getInt() * M_PI / 180); }}, {T::FLOAT, [](const V& v) { return V(v.getFloat() * M_PI / 180); }}}))
  FN("sign", by({{T::INT, [](const V& v) { return V(int64_t(v.getInt() > 0) - int64_t(v.getInt() < 0)); }}, {T::FLOAT, [](const V& v) { return V(int64_t(v.getFloat() > 0) - int64_t(v.getFloat() < 0)); }}}))
  FN2(2, "strcasecmp", [](const Args& a) { return a[0].isStr() && a[1].isStr() ? V(int64_t(strcasecmp(a[0].getStr().c_str(), a[1].getStr().c_str()))) : nul(3); })
  FN(R(2) ? "lower" : "toLower", ci(tolower)) FN(R(2) ? "upper" : "toUpper", ci(toupper))
  FN("length", by({{T::STRING, [](const V& v) { return V(int64_t(v.getStr().size())); }}, {T::PATH, [](const V& v) { return V(int64_t(v.getPath().steps.size())); }}}))
  for (int t = 0; t < 3; t++) FN(t == 0 ? "trim" : t == 1 ? "ltrim" : "rtrim", by({{T::STRING, [=](const V& v) { return V(trimmed(v.getStr(), t != 2, t != 1)); }}}))
  for (bool l : {true, false}) FN2(2, l ? "left" : "right", [=](const Args& a) { if (a[0].isNull()) return nul(0); if (!a[0].isStr() || !a[1].isInt() || a[1].getInt() < 0) return nul(3); string s = a[0].getStr(); int64_t n = std::min<int64_t>(a[1].getInt(), s.size()); return V(l ? s.substr(0, n) : s.substr(s.size() - n)); })
  FN2(3, "lpad", pad(true)) FN2(3, "rpad", pad(false))
  FN2(3, "replace", [](const Args& a) { for (auto& x : a) if (x.isNull()) return nul(0); for (auto& x : a) if (!x.isStr()) return nul(3); string s = a[0].getStr(), f = a[1].getStr(), t = a[2].getStr(), r; if (f.empty()) return V(s); for (size_t i = 0; i < s.size();) if (s.compare(i, f.size(), f) == 0) { r += t; i += f.size(); } else r += s[i++]; return V(r); })
  FN("reverse", by({{T::STRING, [](const V& v) { string s; for (char c : v.getStr()) s = c + s; return V(s); }}, {T::LIST, [](const V& v) { auto x = v.getList().values; std::reverse(x.begin(), x.end()); return L(x); }}}))
  FN2(2, "split", [](const Args& a) { if (a[0].isNull()) return nul(0); if (!a[0].isStr()) return nul(3); if (a[1].isNull()) return nul(0); if (!a[1].isStr()) return nul(3); if (a[1].getStr().empty()) return V("?"); vector<V> r; for (auto& s : splitOn(a[0].getStr(), a[1].getStr())) r.push_back(V(s)); return L(r); })
  FN("tostring", tstr) FN("tostring", [=](const Args& a) { return tstr(a); })
  FN("toboolean", [](const Args& a) { return V(a[0]).toBool(); }) FN("tofloat", [](const Args& a) { return V(a[0]).toFloat(); }) FN("tointeger", [](const Args& a) { return V(a[0]).toInt(); })
  if (!k--) { lo = 2; hi = 3; return {R(2) ? "substr" : "subString", sub_}; }
  FN("hash", [](const Args& a) { switch (a[0].type()) { case T::__EMPTY__: case T::NULLVALUE: case T::BOOL: case T::INT: case T::FLOAT: case T::STRING: case T::DATE: case T::DATETIME: case T::VERTEX: case T::EDGE: case T::PATH: case T::LIST: return V(static_cast<int64_t>(std::hash<V>()(a[0]))); default: return nul(3); } })
  FN("size", [](const Args& a) { auto& v = a[0]; switch (v.type()) { case T::NULLVALUE: return nul(0); case T::__EMPTY__: return v; case T::STRING: return V(int64_t(v.getStr().size())); case T::LIST: return V(int64_t(v.getList().values.size())); case T::MAP: return V(int64_t(v.getMap().kvs.size())); case T::SET: return V(int64_t(v.getSet().values.size())); case T::DATASET: return V(int64_t(v.getDataSet().rows.size())); default: return nul(3); } })
  FN("head", by({{T::LIST, [](const V& v) { auto& x = v.getList().values; return x.empty() ? nul(0) : x[0]; }}})) FN("last", by({{T::LIST, [](const V& v) { auto& x = v.getList().values; return x.empty() ? nul(0) : x[x.size() - 1]; }}}))
  FN("tail", by({{T::LIST, [](const V& v) { auto x = v.getList().values; if (!x.empty()) x.erase(x.begin()); return L(x); }}}))
  FN("coalesce", by({{T::LIST, [](const V& v) { for (auto& x : v.getList().values) if (!x.isNull()) return x; return nul(0); }}}))
  if (!k--) { lo = 2; hi = 3; return {"range", [](const Args& a) { for (auto& x : a) if (!x.isInt()) return nul(3); __int128 b = a[0].getInt(), e = a[1].getInt(), s = a.size() == 3 ? a[2].getInt() : 1; if (!s) return nul(2); if ((e - b) / s > 1000) return V("?"); vector<V> r; for (auto i = b; s > 0 ? i <= e : i >= e; i += s) r.push_back(V(static_cast<int64_t>(i))); return L(r); }}; }
  FN("keys", [](const Args& a) { std::set<string> s; auto put = [&](auto& m) { for (auto& x : m) s.insert(x.first); }; switch (a[0].type()) { case T::NULLVALUE: return nul(0); case T::VERTEX: for (auto& t : a[0].getVertex().tags) put(t.props); break; case T::EDGE: put(a[0].getEdge().props); break; case T::MAP: put(a[0].getMap().kvs); break; default: return nul(3); } vector<V> r; for (auto& x : s) r.push_back(V(x)); return L(r); })
  FN("properties", by({{T::VERTEX, [](const V& v) { Map m; for (auto& t : v.getVertex().tags) for (auto& x : t.props) m.kvs.emplace(x.first, x.second); return V(m); }}, {T::EDGE, [](const V& v) { Map m; m.kvs = v.getEdge().props; return V(m); }}, {T::MAP, [](const V& v) { return v; }}}))
  FN("id", by({{T::VERTEX, [](const V& v) { return v.getVertex().vid; }}})) FN(R(2) ? "tags" : "labels", labels)
  FN("type", by({{T::EDGE, [](const V& v) { return V(v.getEdge().name); }}})) FN("typeid", by({{T::EDGE, [](const V& v) { return V(int64_t(v.getEdge().type)); }}})) FN("rank", by({{T::EDGE, [](const V& v) { return V(v.getEdge().ranking); }}}))
  FN("src", by({{T::EDGE, [](const V& v) { auto& e = v.getEdge(); return e.type > 0 ? e.src : e.dst; }}})) FN("dst", by({{T::EDGE, [](const V& v) { auto& e = v.getEdge(); return e.type > 0 ? e.dst : e.src; }}}))
  FN("startNode", by({{T::EDGE, [](const V& v) { return vert(v.getEdge().src); }}, {T::PATH, [](const V& v) { return V(v.getPath().src); }}}))
  FN("endNode", by({{T::EDGE, [](const V& v) { return vert(v.getEdge().dst); }}, {T::PATH, [](const V& v) { auto& p = v.getPath(); return V(p.steps.empty() ? p.src : p.steps.back().dst); }}}))
  FN("nodes", by({{T::PATH, [](const V& v) { vector<V> r{V(v.getPath().src)}; for (auto& s : v.getPath().steps) r.push_back(V(s.dst)); return L(r); }}}))
  FN("relationships", by({{T::PATH, [](const V& v) { vector<V> r; for (size_t i = 0; i < v.getPath().steps.size(); i++) r.push_back(stepEdge(v.getPath(), i)); return L(r); }}}))
  FN("reversePath", by({{T::PATH, [](const V& v) { auto& p = v.getPath(); Path q; q.src = p.steps.empty() ? p.src : p.steps.back().dst; for (size_t i = p.steps.size(); i-- > 0;) q.steps.emplace_back(i ? p.steps[i - 1].dst : p.src, -p.steps[i].type, p.steps[i].name, p.steps[i].ranking, p.steps[i].props); return V(q); }}}, false))
  FN("hasSameEdgeInPath", by({{T::PATH, [](const V& v) { auto& p = v.getPath(); for (size_t i = 0; i < p.steps.size(); i++) for (size_t j = 0; j < i; j++) { Edge a = stepEdge(p, i).getEdge(), b = stepEdge(p, j).getEdge(); if (a.type < 0) a.reverse(); if (b.type < 0) b.reverse(); if (a.src == b.src && a.dst == b.dst && a.type == b.type && a.ranking == b.ranking) return V(true); } return V(false); }}}, false))
  FN("hasSameVertexInPath", by({{T::PATH, [](const V& v) { auto& p = v.getPath(); vector<V> s{p.src.vid}; for (auto& x : p.steps) s.push_back(x.dst.vid); for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < i; j++) if (s[i] == s[j]) return V(true); return V(false); }}}, false))
  FN2(3, "dataSetRowCol", [](const Args& a) { if (!a[0].isDataSet() || !a[1].isInt() || (!a[2].isInt() && !a[2].isStr())) return nul(3); auto& d = a[0].getDataSet(); int64_t r = a[1].getInt(), c = -1; if (a[2].isInt()) c = a[2].getInt(); else for (size_t i = d.colNames.size(); i-- > 0;) if (d.colNames[i] == a[2].getStr()) c = i; if (r < 0 || c < 0 || r >= static_cast<int64_t>(d.rows.size()) || c >= static_cast<int64_t>(d.colNames.size())) return nul(2); return d.rows[r].values[c]; })
  if (!k--) { lo = 2; hi = 5; return {"udf_is_in", [](const Args& a) { for (size_t i = 1; i < a.size(); i++) if (a[i] == a[0]) return V(true); return V(false); }}; }
  if (!k--) { lo = 2; hi = 6; return {"cos_similarity", [](const Args& a) { if (a.size() % 2) return V(-2.0); size_t m = a.size() / 2; double x = 0, y = 0, z = 0; for (size_t i = 0; i < m; i++) { if (!num(a[i]) || !num(a[i + m])) return nul(3); double p = dbl(a[i]), q = dbl(a[i + m]); x += p * q; y += p * p; z += q * q; } return std::abs(y) <= 1e-8 || std::abs(z) <= 1e-8 ? V(-2.0) : V(x / (std::sqrt(y) * std::sqrt(z))); }}; }
  FN2(2, "near", [](const Args&) { return V(""); })
  auto when = [](auto parse, auto frommap, auto utc, V other) { return [=](const Args& a) { auto fin = [&](auto r) { return r.ok() ? V(utc(r.value())) : nul(2); }; return a[0].isStr() ? fin(parse(a[0].getStr())) : a[0].isMap() ? fin(frommap(a[0].getMap())) : other; }; };
  using TU = time::TimeUtils;
  FN("date", when([](const string& s) { return TU::parseDate(s); }, [](const Map& m) { return TU::dateFromMap(m); }, [](const Date& d) { return d; }, nul(3)))
  FN("time", when([](const string& s) { return TU::parseTime(s); }, [](const Map& m) { return TU::timeFromMap(m); }, [](const Time& d) { return TU::timeToUTC(d); }, nul(3)))
  FN("datetime", when([](const string& s) { return TU::parseDateTime(s); }, [](const Map& m) { return TU::dateTimeFromMap(m); }, [](const DateTime& d) { return TU::dateTimeToUTC(d); }, nul(2)))
  for (int b : {32, 64}) if (!k--) { lo = 0; hi = 2; return {"rand" + std::to_string(b), rnd(b)}; }
  FN2(0, "rand", [](const Args&) { return V(); }) FN2(0, "now", [](const Args&) { return V(); })
  return {"", nullptr};
}
static V path() { Path p; p.src = Vertex(V(R(4)), {}); for (int i = R(5); i > 0; i--) p.steps.emplace_back(Vertex(V(R(4)), {}), (R(2) ? 1 : -1) * (1 + R(2)), "like", R(2), std::unordered_map<string, V>{{"p", V(i)}}); return V(p); }
static V dated() { switch (R(4)) { case 0: return V(Time(R(24), R(60), R(60), 0)); case 1: return V(DateTime(2020, 1 + R(12), 1 + R(28), R(24), R(60), R(60), 0)); case 2: { static const char* t[] = {"2020-02-03", "2020-13-01", "12:30:05", "2020-02-03T12:30:05", "25:00:00"}; return V(t[R(5)]); } default: { Map m; static const char* f[] = {"year", "month", "day", "hour", "minute", "second"}; for (auto x : f) if (R(4)) m.kvs.emplace(x, V(R(70))); return V(m); } } }
static V farg() { switch (R(10)) { case 0: case 1: return path(); case 2: return V(vertex()); case 3: return V(edge()); case 4: return V(int64_t(R(12) - 3)); case 5: { static const char* w[] = {" a ", "\tb", "A,b,,C", "aXbXc", "X", ",", "Hello"}; return V(w[R(7)]); } case 6: { vector<V> l; for (int i = R(4); i > 0; i--) l.push_back(R(2) ? nul(0) : scalar()); return L(l); } case 7: return dated(); default: return value(2); } }
static bool hashable(const V& v) { switch (v.type()) { case T::MAP: case T::SET: case T::TIME: case T::DATASET: return false; case T::LIST: for (auto& x : v.getList().values) if (!hashable(x)) return false; return true; default: return true; } }
static const T kinds_[] = {T::__EMPTY__, T::NULLVALUE, T::BOOL, T::INT, T::FLOAT, T::STRING, T::DATE, T::TIME, T::DATETIME, T::VERTEX, T::EDGE, T::PATH, T::LIST, T::MAP, T::SET, T::DATASET};
static const char* kindNames[] = {"Empty", "Null", "Bool", "Int", "Float", "Str", "Date", "Time", "DateTime", "Vertex", "Edge", "Path", "List", "Map", "Set", "DataSet"};
/** the declared type of the result for every combination of at most three types of arguments */
static void types(int n, char** names) {
  for (int i = 0; i < n; i++) for (int k = 0, m = 1; k <= 3; k++, m *= 16) for (int x = 0; x < m; x++) {
    vector<T> ts; string d = names[i]; for (int j = 0, y = x; j < k; j++, y /= 16) { ts.push_back(kinds_[y % 16]); d += string(" ") + kindNames[y % 16]; }
    auto r = FunctionManager::getReturnType(names[i], ts); if (!r.ok()) continue; bool known = false;
    for (int j = 0; j < 16; j++) if (kinds_[j] == r.value()) { printf("%s -> %s\n", d.c_str(), kindNames[j]); known = true; } if (!known) printf("%s -> ?\n", d.c_str());
  }
}
static void functions() {
  static bool zone = [] { FLAGS_timezone_name = "XST-05:30:00"; return time::Timezone::initializeGlobalTimezone().ok(); }(); if (!zone) fail("no time zone");
  size_t lo, hi; auto o = oracle(R(1000) % 85, lo, hi); if (!o.second) return;
  for (int r = 0; r < 4; r++) {
    Args a; for (size_t n = lo + R(static_cast<int>(hi - lo + 1)); n > 0; n--) a.push_back(farg());
    if (o.first == "range" || o.first.rfind("rand", 0) == 0) for (auto& x : a) if (R(6)) x = R(5) ? V(int64_t(R(20) - 6)) : scalar();
    if ((o.first == "lpad" || o.first == "rpad" || o.first == "replace" || o.first == "dataSetRowCol") && R(4)) for (size_t i = 0; i < a.size(); i++) a[i] = o.first == "replace" ? V(word()) : o.first == "dataSetRowCol" ? (i ? (R(3) ? V(int64_t(R(5) - 1)) : V(R(2) ? "y" : "x")) : [] { V v; do v = value(2); while (!v.isDataSet()); return v; }()) : i == 1 ? V(int64_t(R(12) - 1)) : V(word());
    if (o.first == "lpad" || o.first == "rpad") if (a[1].isInt() && a[1].getInt() > 1000) a[1] = V(5);
    if ((o.first == "cos_similarity" || o.first == "udf_is_in") && R(4)) for (auto& x : a) x = R(3) ? V(int64_t(R(5) - 2)) : V(R(7) / 2.0);
    string d = o.first + "("; for (auto& x : a) d += show(x) + "; "; d += ")"; hist = d;
    if (o.first == "hash" && a[0].isList() && !hashable(a[0])) continue;  // dies: see the known findings
    V w = o.second(a); if (w.isStr() && w.getStr() == "?") continue;
    auto f = FunctionManager::get(o.first, a.size()); if (!f.ok()) fail("the function is not found: " + d);
    if (FunctionManager::get(o.first, hi + 1).ok() && o.first != "udf_is_in" && o.first != "cos_similarity") fail("too many arguments are accepted: " + d); if (lo && o.first != "date" && o.first != "datetime" && o.first != "time" && FunctionManager::get(o.first, lo - 1).ok()) fail("too few arguments are accepted: " + d);
    vector<std::reference_wrapper<const V>> refs(a.begin(), a.end()); V g = f.value()(refs);
    if (o.first == "rand") { if (!g.isFloat() || g.getFloat() < 0 || g.getFloat() >= 1) fail(d + " gives " + show(g)); continue; }
    if (o.first == "now") { if (!g.isInt() || std::abs(g.getInt() - ::time(nullptr)) > 2) fail(d + " gives " + show(g)); continue; }
    if (o.first.rfind("rand", 0) == 0 && w.empty()) { if (!g.isInt()) fail(d + " gives " + show(g)); if (a.size() == 1 && a[0].getInt() > 0 && (g.getInt() < 0 || g.getInt() >= a[0].getInt())) fail(d + " gives " + show(g)); if (a.size() == 2 && (g.getInt() < a[0].getInt() || g.getInt() >= a[1].getInt())) fail(d + " gives " + show(g)); continue; }
    if (o.first == "tostring" && a[0].isFloat()) { if (!g.isStr() || g.getStr().find_first_of(".ni") == string::npos || std::abs(strtod(g.getStr().c_str(), nullptr) - a[0].getFloat()) > 1e-6) fail(d + " gives " + show(g)); continue; }
    { vector<T> ts; for (auto& x : a) ts.push_back(x.type()); auto rt = FunctionManager::getReturnType(o.first, ts); if (rt.ok() && rt.value() != T::__EMPTY__ && !g.isNull() && g.type() != rt.value()) { std::ostringstream q; q << d << " gives " << show(g) << " but is declared " << rt.value(); fail(q.str()); } }
    if (!ident(g, w)) fail(d + " gives " + show(g) + " instead of " + show(w));
    bool pure = o.first != "date" && o.first != "time" && o.first != "datetime" && o.first != "timestamp" && o.first.rfind("rand", 0) != 0 && o.first != "now"; auto ip = FunctionManager::getIsPure(o.first, a.size()); if (!ip.ok() || ip.value() != pure) fail(o.first + (pure ? " is said to be impure" : " is said to be pure"));
  }
}
static bool ign(const V& v) { return v.isNull() || v.empty(); }
/** the aggregate of the values, written over the whole history */
static V aggregate(const string& n, const vector<V>& h) {
  if (n == "") return h.empty() ? nul(0) : h.back();
  if (n == "COLLECT") { if (h.empty()) return nul(0); vector<V> r; for (auto& v : h) if (!ign(v)) r.push_back(v); return L(r); }
  if (n == "COLLECT_SET") { if (h.empty()) return nul(0); Set s; for (auto& v : h) if (!ign(v)) s.values.insert(v); return V(s); }
  if (n == "COUNT") { int64_t c = 0; for (auto& v : h) c += !ign(v); return h.empty() ? nul(0) : V(c); }
  vector<V> x; for (auto& v : h) if (!ign(v)) x.push_back(v);
  if (n == "MAX" || n == "MIN") { if (x.empty()) return nul(0); V b = x[0]; for (auto& v : x) if (n == "MAX" ? v > b : v < b) b = v; return b; }
  if (n[0] == 'B') { for (auto& v : x) if (!v.isInt()) return nul(3); if (x.empty()) return nul(0); int64_t r = x[0].getInt(); for (size_t i = 1; i < x.size(); i++) { int64_t y = x[i].getInt(); r = n == "BIT_AND" ? r & y : n == "BIT_OR" ? r | y : r ^ y; } return V(r); }
  if (n == "SUM") { V r = h.empty() ? nul(0) : V(0); for (auto& v : x) { if (!num(v)) return nul(3); r = r + v; if (r.isBadNull()) return r; } return r; }
  for (auto& v : x) if (!num(v)) return nul(3);
  if (x.empty()) return nul(0); double s = 0, q = 0; for (auto& v : x) s += dbl(v); s /= x.size(); if (n == "AVG") return V(s); for (auto& v : x) q += (dbl(v) - s) * (dbl(v) - s); return V(std::sqrt(q / x.size()));
}
static void aggregates() {
  static const char* names[] = {"", "COUNT", "SUM", "AVG", "MAX", "MIN", "STD", "BIT_AND", "BIT_OR", "BIT_XOR", "COLLECT", "COLLECT_SET"};
  string n = names[R(12)]; bool dis = R(2), app = R(3) == 0; Leaf* l = leaf(V()); string nm = n; if (R(2)) for (auto& c : nm) c = static_cast<char>(tolower(c)); auto* e = AggregateExpression::make(P, nm, l, dis); AggData d; e->setAggData(&d); Ctx c; vector<V> h; string in; int only = R(4); bool words = R(2);
  std::unordered_set<V> seen; hist = "";
  for (int i = R(7); i > 0; i--) {
    V v = only == 0 ? V(int64_t(R(7) - 3)) : only == 1 ? V(R(9) / 4.0) : only == 2 ? (R(3) ? V(int64_t(R(5))) : R(2) ? nul(0) : V()) : scalar(); if (n == "STD" && v.isInt() && (v.getInt() > 1000 || v.getInt() < -1000)) v = V(5); if (n == "SUM" && v.isInt() && (v.getInt() > 1000 || v.getInt() < -1000)) v = V(6); if ((n == "MAX" || n == "MIN") && only == 3 && !ign(v)) v = words ? V(word()) : V(int64_t(R(9)));
    in += show(v) + "; "; hist = (nm.empty() ? string("(none)") : nm) + (dis ? " distinct" : "") + (app ? " by apply" : "") + " of " + in; l->v = v; V g;
    if (app) { V k = v; e->apply(&d, k); g = d.result(); if (!ident(k, v)) fail("the value was changed"); h.push_back(v); }
    else { g = e->eval(c); if (!dis || seen.insert(v).second) h.push_back(v); }
    V w = aggregate(n, h); bool ok = g.isFloat() && w.isFloat() ? std::abs(g.getFloat() - w.getFloat()) <= 1e-6 + 1e-9 * std::abs(w.getFloat()) : ident(g, w); if (!ok) fail(hist + "gives " + show(g) + " instead of " + show(w));
    if (n == "SUM" || n == "AVG" || n == "STD" || n[0] == 'B') if (w.isBadNull()) return;
  }
}
