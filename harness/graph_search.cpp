// C25/C26: the graph records against a mirror made of plain integers; ASan/UBSan/LSan watch the memory.
#include "common/base/Base.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/Vertex.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/Path.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
#include "common/datatypes/HostAddr.h"
#include "common/datatypes/KeyValue.h"
#include <random>
#include <unistd.h>
using namespace nebula; using std::string; using std::vector; using V = Value;
static std::mt19937_64 G; static bool strs; static string hist;
static int R(int n) { return static_cast<int>(G() % n); }
[[noreturn]] static void fail(const string& m) { printf("FAIL %s\n%s\n", m.c_str(), hist.c_str()); fflush(stdout); _exit(1); }
static void need(bool c, const string& m) { if (!c) fail(m); }
static string text(int i) { return (i % 2 ? "a rather long text, longer than the inner buffer " : "t") + std::to_string(100 + i); }
static V val(int i) { if (strs) { V v; v.setStr("v" + std::to_string(100 + i)); return v; } V v; v.setInt(static_cast<int64_t>(i - 1)); return v; }
using P = std::map<int, int>;
static std::unordered_map<string, V> props(const P& p) { std::unordered_map<string, V> m; for (auto& x : p) m.emplace(text(x.first), val(x.second)); return m; }
static P rp() { P p; for (int i = R(3); i > 0; i--) p[R(4)] = R(3); return p; }
static string sh(const P& p) { string s = "{"; for (auto& x : p) s += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; return s + "}"; }
struct MT { int name; P props; bool operator==(const MT& o) const { return name == o.name && props == o.props; } };
struct MV { int vid; vector<MT> tags; bool operator==(const MV& o) const { return vid == o.vid && tags == o.tags; } };
struct ME { int src, dst, type, name; int64_t rank; P props; };
struct MS { MV dst; int type, name; int64_t rank; P props; bool operator==(const MS& o) const { return dst == o.dst && type == o.type && name == o.name && rank == o.rank && props == o.props; } };
struct MP { MV src; vector<MS> steps; bool operator==(const MP& o) const { return src == o.src && steps == o.steps; } };
static Tag mk(const MT& t) { return Tag(text(t.name), props(t.props)); }
static Vertex mk(const MV& v) { vector<Tag> t; for (auto& x : v.tags) t.push_back(mk(x)); return Vertex(val(v.vid), std::move(t)); }
static Edge mk(const ME& e) { return Edge(val(e.src), val(e.dst), e.type, text(e.name), e.rank, props(e.props)); }
static Step mk(const MS& s) { return Step(mk(s.dst), s.type, text(s.name), s.rank, props(s.props)); }
static Path mk(const MP& p) { vector<Step> s; for (auto& x : p.steps) s.push_back(mk(x)); return Path(mk(p.src), std::move(s)); }
static MT rt() { return MT{R(2), rp()}; }
static MV rv() { MV v{R(3), {}}; for (int i = R(3) * R(2); i > 0; i--) v.tags.push_back(rt()); return v; }
static int ty() { return R(5) - 2; }
static int64_t rk() { return R(4) ? R(3) - 1 : (R(2) ? INT64_MAX - R(2) : INT64_MIN + R(2)); }
static ME re() { return ME{R(2), R(2), ty(), R(2), rk(), R(2) ? P() : rp()}; }
static MS rs() { return MS{R(2) ? MV{R(3), {}} : rv(), ty() | 1, R(2), rk(), R(2) ? P() : rp()}; }
static MP rpath(int n) { MP p{R(2) ? MV{R(3), {}} : rv(), {}}; for (int i = R(n); i > 0; i--) p.steps.push_back(rs()); return p; }
static string sh(const MT& t) { return "tag" + std::to_string(t.name) + sh(t.props); }
static string sh(const MV& v) { string s = "(" + std::to_string(v.vid); for (auto& t : v.tags) s += " " + sh(t); return s + ")"; }
static string sh(const ME& e) { return "edge[" + std::to_string(e.src) + "-" + std::to_string(e.type) + "/" + std::to_string(e.name) + "@" + std::to_string(e.rank) + "->" + std::to_string(e.dst) + sh(e.props) + "]"; }
static string sh(const MS& e) { return "-" + std::to_string(e.type) + "/" + std::to_string(e.name) + "@" + std::to_string(e.rank) + "->" + sh(e.dst) + sh(e.props); }
static string sh(const MP& p) { string s = "path " + sh(p.src); for (auto& x : p.steps) s += sh(x); return s; }
// member-by-member reading, without the records' own operators
static bool is(const V& v, int i) { return v.type() == (strs ? V::Type::STRING : V::Type::INT) && (strs ? v.getStr() == val(i).getStr() : v.getInt() == i - 1); }
static bool is(const std::unordered_map<string, V>& m, const P& p) { if (m.size() != p.size()) return false; for (auto& x : p) { auto i = m.find(text(x.first)); if (i == m.end() || !is(i->second, x.second)) return false; } return true; }
static bool is(const Tag& t, const MT& m) { return t.name == text(m.name) && is(t.props, m.props); }
static bool is(const Vertex& v, const MV& m) { if (!is(v.vid, m.vid) || v.tags.size() != m.tags.size()) return false; for (size_t i = 0; i < m.tags.size(); i++) if (!is(v.tags[i], m.tags[i])) return false; return true; }
static bool is(const Edge& e, const ME& m) { return is(e.src, m.src) && is(e.dst, m.dst) && e.type == m.type && e.name == text(m.name) && e.ranking == m.rank && is(e.props, m.props); }
static bool is(const Step& e, const MS& m) { return is(e.dst, m.dst) && e.type == m.type && e.name == text(m.name) && e.ranking == m.rank && is(e.props, m.props); }
static bool is(const Path& p, const MP& m) { if (!is(p.src, m.src) || p.steps.size() != m.steps.size()) return false; for (size_t i = 0; i < m.steps.size(); i++) if (!is(p.steps[i], m.steps[i])) return false; return true; }
static bool eq(const MT& a, const MT& b) { return a == b; } static bool eq(const MV& a, const MV& b) { return a == b; } static bool eq(const MS& a, const MS& b) { return a == b; } static bool eq(const MP& a, const MP& b) { return a == b; }
static bool eq(const ME& a, const ME& b) { bool r = a.rank == b.rank && a.props == b.props; return r && ((a.type == b.type && a.src == b.src && a.dst == b.dst) || (a.type && a.type == -b.type && a.src == b.dst && a.dst == b.src)); }
static bool lt(const MV& a, const MV& b) { return std::make_tuple(a.vid, a.tags.size()) < std::make_tuple(b.vid, b.tags.size()); }
static bool lt(const ME& a, const ME& b) { return std::make_tuple(a.src, a.dst, a.type, a.rank, a.props.size()) < std::make_tuple(b.src, b.dst, b.type, b.rank, b.props.size()); }
static bool lt(const MS& a, const MS& b) { if (!(a.dst == b.dst)) return lt(a.dst, b.dst); return std::make_tuple(a.type, a.rank, a.props.size()) < std::make_tuple(b.type, b.rank, b.props.size()); }
static bool lt(const MP& a, const MP& b) { if (!(a.src == b.src)) return lt(a.src, b.src); return std::lexicographical_compare(a.steps.begin(), a.steps.end(), b.steps.begin(), b.steps.end(), [](const MS& x, const MS& y) { return lt(x, y); }); }
template <class T, class M> void life(const M& m, const char* n) {
  hist = string(n) + ": " + sh(m); const T a = mk(m); need(is(a, m), "construction from the members"); T b(a); need(is(b, m) && is(a, m), "copy"); T c(std::move(b)); need(is(c, m), "move");
  if constexpr (std::is_copy_assignable_v<T>) { T d; d = a; need(is(d, m) && is(a, m), "copy assignment"); auto& e = d; d = e; need(is(d, m), "copy assignment to itself"); T f = mk(m); f = std::move(d); need(is(f, m), "move assignment"); auto& g = f; f = std::move(g); need(is(f, m), "move assignment to itself"); }
  T h(a); h.clear(); T z; need(h == z && z == h, "clear() leaves the empty record"); T k(a); k.__clear(); need(k == z, "__clear() leaves the empty record");
}
static bool zero(const Edge& e) { return e.type == 0 && e.ranking == 0 && e.src.empty() && e.dst.empty() && e.name.empty() && e.props.empty(); }
static bool zero(const Step& e) { return e.type == 0 && e.ranking == 0 && e.dst.vid.empty() && e.dst.tags.empty() && e.name.empty() && e.props.empty(); }
template <class T> void blank(const char* n) { hist = n; alignas(T) char buf[sizeof(T)]; memset(buf, 0x5a, sizeof buf); asm volatile("" ::"r"(buf) : "memory"); T* p = new (buf) T; need(zero(*p), "default construction gives the empty record"); p->~T(); auto q = mk([] { if constexpr (std::is_same_v<T, Edge>) return ME{1, 0, 7, 1, 9, rp()}; else return MS{rv(), 7, 1, 9, rp()}; }()); q.clear(); need(zero(q), "clear() gives the empty record"); }
template <class T, class M> void rel(const M& a, const M& b, const char* n) {
  hist = string(n) + ": " + sh(a) + "  and  " + sh(b); T x = mk(a), y = mk(b); need((x == y) == eq(a, b), "=="); need(x == x && y == y, "== with itself");
  if constexpr (std::is_same_v<T, Vertex> || std::is_same_v<T, Edge> || std::is_same_v<T, Path>) need(!(eq(a, b)) || std::hash<T>()(x) == std::hash<T>()(y), "equal records hash alike");
  T x2 = mk(a); if constexpr (!std::is_same_v<T, Tag>) { need((x < y) == lt(a, b), "<"); need(!(x < x), "< with itself"); }
  need(std::hash<T>()(x) == std::hash<T>()(x2), "a record hashes by its contents"); need(is(x, a) && is(y, b), "the operands are untouched");
}
static void lookups() {
  MV v = rv(); ME e = re(); P m = rp(); hist = "lookup in " + sh(v) + " / " + sh(e) + " / " + sh(m); Vertex vx = mk(v); Edge ex = mk(e); Map mx(props(m)); List l; vector<int> li; for (int i = R(4); i > 0; i--) { li.push_back(R(4)); l.values.emplace_back(val(li.back())); }
  Set s; std::set<int> si; for (int i = R(4); i > 0; i--) { int k = R(4); si.insert(k); s.values.emplace(val(k)); }
  need(mx.size() == m.size() && s.size() == si.size() && l.size() == li.size() && l.empty() == li.empty(), "size");
  for (int k = 0; k < 5; k++) {
    V kv; kv.setStr(text(k)); int want = -1; for (auto& t : v.tags) { auto i = t.props.find(k); if (i != t.props.end()) { want = i->second; break; } }
    auto chk = [&](const V& got, int w, const V& none, const string& what) { need(w < 0 ? &got == &none : is(got, w), what); };
    need(vx.contains(kv) == (want >= 0), "Vertex::contains " + text(k)); chk(vx.value(text(k)), want, V::kNullValue, "Vertex::value " + text(k));
    want = e.props.count(k) ? e.props[k] : -1; need(ex.contains(kv) == (want >= 0), "Edge::contains"); chk(ex.value(text(k)), want, V::kNullValue, "Edge::value");
    want = m.count(k) ? m[k] : -1; need(mx.contains(kv) == (want >= 0), "Map::contains"); chk(mx.at(text(k)), want, V::kNullUnknownProp, "Map::at");
    need(s.contains(val(k)) == (si.count(k) > 0), "Set::contains"); need(l.contains(val(k)) == (std::count(li.begin(), li.end(), k) > 0), "List::contains");
    V num; num.setInt(static_cast<int64_t>(k)); need(!vx.contains(num) && !ex.contains(num) && !mx.contains(num), "contains with a key that is no string");
  }
  Edge r = mk(e); r.reverse(); ME f = e; std::swap(f.src, f.dst); f.type = -f.type; need(is(r, f), "Edge::reverse"); Edge g = mk(e); g.format(); need(is(g, e.type < 0 ? f : e), "Edge::format");
  MV w = rv(); Vertex a = mk(v), b = mk(w); swap(a, b); need(is(a, w) && is(b, v), "swap of vertices"); MS p = rs(), q = rs(); Step c = mk(p), d = mk(q); swap(c, d); need(is(c, q) && is(d, p), "swap of steps");
}
static void hosts() {
  int h = R(3), i = R(3), p = R(3), q = R(3); hist = "HostAddr " + text(h) + ":" + std::to_string(p) + " and " + text(i) + ":" + std::to_string(q); HostAddr a(text(h), p), b(text(i), q); bool e = h == i && p == q;
  need((a == b) == e && (a != b) == !e, "== and !="); need((a < b) == (std::make_tuple(text(h), p) < std::make_tuple(text(i), q)), "<"); need(!e || std::hash<HostAddr>()(a) == std::hash<HostAddr>()(b), "equal addresses hash alike");
  HostAddr c(a), d(std::move(c)); need(d == a && d.host == text(h) && d.port == p, "copy and move"); d.clear(); need(d.host.empty() && d.port == 0, "clear()"); HostAddr z; need(z.host.empty() && z.port == 0, "default construction");
  KeyValue k; k.key = text(h); k.value = text(p); KeyValue l; l.key = text(i); l.value = text(q); need((k == l) == e, "KeyValue =="); need((k < l) == (std::make_tuple(text(h), text(p)) < std::make_tuple(text(i), text(q))), "KeyValue <"); KeyValue m(k); need(m.key == text(h) && m.value == text(p), "KeyValue copy"); m.clear(); need(m.key.empty() && m.value.empty(), "KeyValue clear");
}
static void conts() {
  vector<int> a, b; for (int i = R(3); i > 0; i--) a.push_back(R(3)); for (int i = R(3); i > 0; i--) b.push_back(R(3)); hist = "contents:"; for (int i : a) hist += " " + std::to_string(i); hist += " and"; for (int i : b) hist += " " + std::to_string(i);
  auto ml = [](const vector<int>& x) { vector<V> v; for (int i : x) v.push_back(val(i)); return List(std::move(v)); }; auto ms = [](const vector<int>& x) { std::unordered_set<V> v; for (int i : x) v.insert(val(i)); return Set(std::move(v)); };
  auto mm = [](const vector<int>& x) { P p; for (size_t i = 0; i < x.size(); i++) p[i] = x[i]; return Map(props(p)); };
  List l = ml(a), m = ml(b); need((l == m) == (a == b), "List =="); need((l < m) == (a < b), "List <"); need(a != b || std::hash<List>()(l) == std::hash<List>()(m), "equal lists hash alike"); std::set<int> sa(a.begin(), a.end()), sb(b.begin(), b.end());
  Set s = ms(a), t = ms(b); need((s == t) == (sa == sb), "Set =="); Map x = mm(a), y = mm(b); need((x == y) == (a == b), "Map ==");
  { List c(l), d(std::move(c)), e; e = d; need(d == l && e == l, "List copy"); e = std::move(d); auto& f = e; e = f; e = std::move(f); need(e == l, "List assignment"); e.clear(); need(e.values.empty(), "List clear"); }
  { Set c(s), d(std::move(c)), e; e = d; need(d == s && e == s, "Set copy"); e = std::move(d); auto& f = e; e = f; e = std::move(f); need(e == s, "Set assignment"); e.clear(); need(e.values.empty(), "Set clear"); }
  { Map c(x), d(std::move(c)), e; e = d; need(d == x && e == x, "Map copy"); e = std::move(d); auto& f = e; e = f; e = std::move(f); need(e == x, "Map assignment"); e.clear(); need(e.kvs.empty(), "Map clear"); }
  { auto md = [&](const vector<int>& h, const vector<int>& r) { vector<string> n; for (int i : h) n.push_back(text(i)); DataSet d(std::move(n)); for (int i : r) { d.rows.emplace_back(ml({i})); } return d; }; vector<int> h{R(2)}, g{R(2)};
    DataSet d = md(h, a), e = md(g, b); need((d == e) == (h == g && a == b), "DataSet =="); DataSet c(d), f(std::move(c)), k; k = f; need(f == d && k == d, "DataSet copy"); k = std::move(f); need(k == d, "DataSet move"); k.clear(); need(k.colNames.empty() && k.rows.empty(), "DataSet clear"); }
}
static void records(int n) {
  blank<Edge>("Edge"); blank<Step>("Step");
  for (int i = 0; i < n; i++) {
    strs = i & 1; { MT a = rt(), b = R(2) ? a : rt(); life<Tag>(a, "Tag"); rel<Tag>(a, b, "Tag"); } { MV a = rv(), b = R(2) ? a : rv(); life<Vertex>(a, "Vertex"); rel<Vertex>(a, b, "Vertex"); }
    { ME a = re(), b = R(2) ? a : re(); if (R(2)) std::swap(b.src, b.dst); if (R(2)) b.type = -b.type; if (R(3) == 0) b.name = R(2); life<Edge>(a, "Edge"); rel<Edge>(a, b, "Edge"); }
    { MS a = rs(), b = R(3) ? a : rs(); if (R(2)) switch (R(5)) { case 0: b.dst = rv(); break; case 1: b.type = ty(); break; case 2: b.name = R(2); break; case 3: b.rank = rk(); break; default: b.props = rp(); } life<Step>(a, "Step"); rel<Step>(a, b, "Step"); }
    { MP a = rpath(3), b = R(3) ? a : rpath(3); if (R(2) && !b.steps.empty()) b.steps.back() = rs(); life<Path>(a, "Path"); rel<Path>(a, b, "Path"); }
    lookups(); hosts(); conts();
  }
}
// ---------------------------------------------------------------- C26
static void paths(int n) {
  for (int i = 0; i < n; i++) {
    strs = i & 1; MP a = rpath(5); hist = "reverse of " + sh(a); Path p = mk(a); p.reverse(); MP b = a;
    if (!a.steps.empty()) { size_t k = a.steps.size(); b.src = a.steps.back().dst; for (size_t j = 0; j < k; j++) { b.steps[j] = a.steps[k - 1 - j]; b.steps[j].type = -b.steps[j].type; b.steps[j].dst = j + 1 < k ? a.steps[k - 2 - j].dst : a.src; } }
    need(is(p, b), "Path::reverse"); p.reverse(); need(is(p, a), "Path::reverse twice");
    MP c = rpath(4); if (R(2)) c.src = a.steps.empty() ? a.src : a.steps.back().dst; hist = sh(a) + "  appended by  " + sh(c); Path q = mk(a); bool ok = c.src == (a.steps.empty() ? a.src : a.steps.back().dst); need(q.append(mk(c)) == ok, "Path::append accepts exactly a path that begins where this one ends");
    MP d = a; if (ok) d.steps.insert(d.steps.end(), c.steps.begin(), c.steps.end()); need(is(q, d), "Path::append"); MS s = rs(); q.addStep(mk(s)); d.steps.push_back(s); need(is(q, d), "Path::addStep");
    MP e = rpath(5); for (auto& x : e.steps) { x.dst.vid = R(6); x.type = R(2) ? 1 : -1; x.rank = R(2); } hist = "duplicates in " + sh(e); Path r = mk(e); bool dv = false, de = false; std::set<int> vs{e.src.vid}; std::set<std::tuple<int, int, int, int64_t>> es; int at = e.src.vid;
    for (auto& x : e.steps) { dv |= !vs.insert(x.dst.vid).second; de |= !es.emplace(x.type > 0 ? at : x.dst.vid, x.type > 0 ? x.dst.vid : at, abs(x.type), x.rank).second; at = x.dst.vid; }
    need(r.hasDuplicateVertices() == dv, "Path::hasDuplicateVertices"); need(r.hasDuplicateEdges() == de, "Path::hasDuplicateEdges"); need(is(r, e), "the path is untouched");
  }
}
struct MD { vector<int> cols; vector<vector<int>> rows; };
static MD rd(int nc, int nr) { MD d; for (int i = 0; i < nc; i++) d.cols.push_back(R(4)); for (int i = 0; i < nr; i++) { d.rows.emplace_back(); for (int j = 0; j < nc; j++) d.rows.back().push_back(R(5)); } return d; }
static Row row(const vector<int>& r) { Row x; for (int i : r) x.values.emplace_back(val(i)); return x; }
static DataSet mk(const MD& d) { vector<string> n; for (int i : d.cols) n.push_back(text(i)); DataSet x(std::move(n)); for (auto& r : d.rows) x.rows.emplace_back(row(r)); return x; }
static bool is(const DataSet& x, const MD& d) { if (x.colNames.size() != d.cols.size() || x.rows.size() != d.rows.size()) return false; for (size_t i = 0; i < d.cols.size(); i++) if (x.colNames[i] != text(d.cols[i])) return false; for (size_t i = 0; i < d.rows.size(); i++) { if (x.rows[i].values.size() != d.rows[i].size()) return false; for (size_t j = 0; j < d.rows[i].size(); j++) if (!is(x.rows[i].values[j], d.rows[i][j])) return false; } return true; }
static string sh(const MD& d) { string s = "dataset [cols"; for (int i : d.cols) s += " " + std::to_string(i); for (auto& r : d.rows) { s += " |"; for (int i : r) s += " " + std::to_string(i); } return s + "]"; }
static void datasets(int n) {
  for (int i = 0; i < n; i++) {
    strs = i & 1; MD a = rd(R(4), R(4)), b = rd(R(4), R(4)); if (R(2)) b = rd(a.cols.size(), R(4)); if (R(2)) { b.cols.resize(a.cols.size()); for (auto& r : b.rows) r.resize(a.cols.size(), 1); b.cols = a.cols; }
    hist = sh(a) + "  and  " + sh(b); { DataSet x = mk(a); MD c = a; bool ok = a.cols.empty() || a.cols == b.cols; if (a.cols.empty()) c.cols = b.cols; if (ok) c.rows.insert(c.rows.end(), b.rows.begin(), b.rows.end()); need(x.append(mk(b)) == ok, "DataSet::append accepts the same header"); need(is(x, c), "DataSet::append"); }
    if (R(2)) b.rows.resize(a.rows.size(), vector<int>(b.cols.size(), 2)); hist = sh(a) + "  and  " + sh(b);
    { DataSet x = mk(a); MD c = a; bool ok = a.rows.size() == b.rows.size(); if (ok) { c.cols.insert(c.cols.end(), b.cols.begin(), b.cols.end()); for (size_t j = 0; j < c.rows.size(); j++) c.rows[j].insert(c.rows[j].end(), b.rows[j].begin(), b.rows[j].end()); } need(x.merge(mk(b)) == ok, "DataSet::merge accepts the same number of rows"); need(is(x, c), "DataSet::merge joins the rows column by column"); }
    { DataSet x = mk(a); MD c = a; vector<int> r; for (int j = R(4); j > 0; j--) r.push_back(R(4)); bool ok = r.size() == a.cols.size(); need(x.emplace_back(row(r)) == ok, "DataSet::emplace_back accepts a row of the right width"); if (ok) c.rows.push_back(r); need(is(x, c), "DataSet::emplace_back"); need(x.size() == c.rows.size() && x.rowSize() == c.rows.size() && x.colSize() == c.cols.size(), "sizes"); }
    { DataSet x = mk(a); int k = R(5); auto col = x.colValues(text(k)); size_t j = std::find(a.cols.begin(), a.cols.end(), k) - a.cols.begin(); bool there = j < a.cols.size(); need(col.size() == (there ? a.rows.size() : 0), "DataSet::colValues size"); for (size_t y = 0; y < col.size(); y++) need(is(col[y], a.rows[y][j]), "DataSet::colValues");
      if (!a.rows.empty()) { size_t y = R(a.rows.size()); auto& rv = x.rowValues(y); need(rv.size() == a.rows[y].size(), "DataSet::rowValues size"); for (size_t z = 0; z < rv.size(); z++) need(is(rv[z], a.rows[y][z]), "DataSet::rowValues"); } need(is(x, a), "the dataset is untouched"); }
  }
}
int main(int argc, char** argv) {
  string what = argc > 1 ? argv[1] : "records"; int n = argc > 2 ? atoi(argv[2]) : 3000; G.seed(getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1);
  if (what == "records") records(n); else { paths(n * 3); datasets(n * 3); for (int i = 0; i < n; i++) { strs = i & 1; MV a = rv(), b = R(2) ? a : rv(); rel<Vertex>(a, b, "Vertex"); MP c = rpath(4), d = R(2) ? c : rpath(4); rel<Path>(c, d, "Path"); lookups(); conts(); } }
  printf("OK\n"); return 0;
}
