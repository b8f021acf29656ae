// C18: random histories over a pool of Values against a mirror (kind, seed); ASan/UBSan/LSan watch the memory.
#include "common/base/Base.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
#include "common/datatypes/Vertex.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/Path.h"
#include <random>
#include <sys/wait.h>
#include <unistd.h>
using namespace nebula; using std::string; using V = Value;
static std::mt19937_64 G;
static string hist;
static void fail(const string& m) { printf("FAIL %s\nhistory: %s\n", m.c_str(), hist.c_str()); fflush(stdout); _exit(1); }
// contents, built without Value's own copying where possible
static string sv(int s) { return (s % 3 ? "str-" : "a rather long string that does not fit the small buffer ") + std::to_string(s); }
#define EACH(F) F(0, Null, NullType) F(1, Bool, bool) F(2, Int, int64_t) F(3, Float, double) F(4, Str, string) F(5, Date, Date) F(6, Time, Time) F(7, DateTime, DateTime) \
  F(8, Vertex, Vertex) F(9, Edge, Edge) F(10, Path, Path) F(11, List, List) F(12, Map, Map) F(13, Set, Set) F(14, DataSet, DataSet)
template <class T> T mk(int s);
template <> NullType mk(int s) { return static_cast<NullType>(s % 8); }
template <> bool mk(int s) { return s & 1; }
template <> int64_t mk(int s) { return s % 5 == 0 ? INT64_MIN + s : s % 5 == 1 ? INT64_MAX - s : s; }
template <> double mk(int s) { return s * 1.25 + 1e300 * (s % 2); }
template <> string mk(int s) { return sv(s); }
template <> Date mk(int s) { return Date(s - 100, 1 + s % 12, 1 + s % 28); }
template <> Time mk(int s) { return Time(s % 24, s % 60, s % 59, s * 997); }
template <> DateTime mk(int s) { return DateTime(s - 100, 1 + s % 12, 1 + s % 28, s % 24, s % 60, s % 59, s * 997); }
template <> Vertex mk(int s) { std::unordered_map<string, V> p; p.emplace("p", s); return Vertex(sv(s), {Tag("t", p)}); }
template <> Edge mk(int s) { std::unordered_map<string, V> p; p.emplace("p", s); return Edge(sv(s), sv(s + 1), s, "e", s, std::move(p)); }
template <> Path mk(int s) { Path p; p.src = mk<Vertex>(s); p.steps.emplace_back(mk<Vertex>(s + 1), 1, "e", s, std::unordered_map<string, V>()); return p; }
template <> List mk(int s) { List l; l.values.resize(3); l.values[0].setInt(static_cast<int64_t>(s)); l.values[1].setStr(sv(s)); l.values[2].setList(List()); l.values[2].mutableList().values.resize(2); return l; }
template <> Map mk(int s) { Map m; m.kvs["k"].setInt(static_cast<int64_t>(s)); m.kvs["l"].setStr(sv(s)); return m; }
template <> Set mk(int s) { Set m; m.values.emplace(static_cast<int64_t>(s)); return m; }
template <> DataSet mk(int s) { DataSet d({"c"}); d.rows.resize(1); d.rows[0].values.resize(1); d.rows[0].values[0].setInt(static_cast<int64_t>(s)); return d; }
template <class T> bool same(const T& a, int s) { return a == mk<T>(s); }
template <> bool same(const double& a, int s) { return a == mk<double>(s); }
static bool sameInt(const V& v, int64_t x) { return v.type() == V::Type::INT && v.getInt() == x; }
static bool sameStr(const V& v, const string& x) { return v.type() == V::Type::STRING && v.getStr() == x; }
static bool pr(const std::unordered_map<string, V>& m, int s) { return m.size() == 1 && sameInt(m.at("p"), s); }
template <> bool same(const Vertex& a, int s) { return sameStr(a.vid, sv(s)) && a.tags.size() == 1 && pr(a.tags[0].props, s); }
template <> bool same(const Edge& a, int s) { return sameStr(a.src, sv(s)) && sameStr(a.dst, sv(s + 1)) && a.type == s && a.ranking == s && pr(a.props, s); }
template <> bool same(const Path& a, int s) { return same(a.src, s) && a.steps.size() == 1 && same(a.steps[0].dst, s + 1) && a.steps[0].ranking == s; }
template <> bool same(const List& a, int s) { return a.values.size() == 3 && sameInt(a.values[0], s) && sameStr(a.values[1], sv(s)) && a.values[2].isList() && a.values[2].getList().values.size() == 2; }
template <> bool same(const Map& a, int s) { return a.kvs.size() == 2 && sameInt(a.kvs.at("k"), s) && sameStr(a.kvs.at("l"), sv(s)); }
template <> bool same(const Set& a, int s) { return a.values.size() == 1 && sameInt(*a.values.begin(), s); }
template <> bool same(const DataSet& a, int s) { return a.rows.size() == 1 && a.colNames.size() == 1 && a.colNames[0] == "c" && sameInt(a.rows[0].values[0], s); }
struct M { int k = -1, s = 0; };   // -1: empty
static void set(V& v, int k, int s, int how) {
  switch (k) {
#define F(N, K, T) case N: { if (how % 3 == 0) { const T t = mk<T>(s); v.set##K(t); } else if (how % 3 == 1) { T t = mk<T>(s); v.set##K(std::move(t)); } else { T t = mk<T>(s); v = V(std::move(t)); } break; }
    EACH(F)
#undef F
  }
  if (how % 5 == 4) switch (k) {
#define F(N, K) case N: v.set##K(std::make_unique<K>(mk<K>(s))); break;
    F(8, Vertex) F(9, Edge) F(10, Path) F(11, List) F(12, Map) F(13, Set) F(14, DataSet)
#undef F
  }
}
static const uint64_t TAGS[] = {1UL << 63, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384};
static void check(const V& v, const M& m, const char* op) {
  uint64_t want = m.k < 0 ? 1 : TAGS[m.k];
  if (static_cast<uint64_t>(v.type()) != want) fail(string(op) + ": type is " + std::to_string(static_cast<uint64_t>(v.type())) + ", expected " + std::to_string(want));
  bool isq[] = {v.isNull(), v.isBool(), v.isInt(), v.isFloat(), v.isStr(), v.isDate(), v.isTime(), v.isDateTime(), v.isVertex(), v.isEdge(), v.isPath(), v.isList(), v.isMap(), v.isSet(), v.isDataSet()};
  for (int i = 0; i < 15; i++) if (isq[i] != (i == m.k)) fail(string(op) + ": type query " + std::to_string(i) + " answers " + std::to_string(isq[i]) + " for kind " + std::to_string(m.k));
  if (v.empty() != (m.k < 0) || v.isNumeric() != (m.k == 2 || m.k == 3) || v.isBadNull() != (m.k == 0 && m.s % 8 != 0)) fail(string(op) + ": empty/isNumeric/isBadNull wrong for kind " + std::to_string(m.k) + " seed " + std::to_string(m.s));
  switch (m.k) {
#define F(N, K, T) case N: if (!same<T>(v.get##K(), m.s) || !same<T>(const_cast<V&>(v).mutable##K(), m.s)) fail(string(op) + ": content of " #K " changed (seed " + std::to_string(m.s) + ")"); break;
    EACH(F)
#undef F
  }
  switch (m.k) {
#define F(N, K) case N: if (v.get##K##Ptr() != &v.get##K()) fail("get" #K "Ptr"); break;
    F(8, Vertex) F(9, Edge) F(10, Path) F(11, List) F(12, Map) F(13, Set) F(14, DataSet)
#undef F
  }
}
static void moveOut(V& v, const M& m) {
  switch (m.k) {
#define F(N, K, T) case N: { T t = v.move##K(); if (!same<T>(t, m.s)) fail("move" #K " returns another content"); break; }
    EACH(F)
#undef F
  }
}
template <class Fn> static bool dies(Fn f) {
  fflush(stdout); pid_t c = fork();
  if (!c) { freopen("/dev/null", "w", stderr); f(); _exit(0); }
  int st; waitpid(c, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static void abortcheck() {
  for (int k = -1; k < 15; k++) {
#define F(N, K, T) if (k != N) { V v; if (k >= 0) set(v, k, 7, 0); \
      if (!dies([&] { volatile auto p = &v.get##K(); (void)p; })) fail("get" #K " returned on a Value of kind " + std::to_string(k)); \
      if (!dies([&] { volatile auto p = &v.mutable##K(); (void)p; })) fail("mutable" #K " returned on a Value of kind " + std::to_string(k)); \
      if (!dies([&] { T t = v.move##K(); (void)t; })) fail("move" #K " returned on a Value of kind " + std::to_string(k)); }
    EACH(F)
#undef F
  }
}
static V* part(V& v) {
  if (v.isList() && !v.getList().values.empty()) { auto& l = v.mutableList().values; return &l[G() % l.size()]; }
  if (v.isMap()) return &v.mutableMap().kvs["l"];
  if (v.isVertex()) return &v.mutableVertex().vid;
  if (v.isEdge()) return &v.mutableEdge().dst;
  if (v.isPath()) return &v.mutablePath().src.vid;
  if (v.isDataSet()) return &v.mutableDataSet().rows[0].values[0];
  return nullptr;
}
template <class T, class Get, class Mv, class Su> static void emptyContent(const char* nm, int k, Get get, Mv mv, Su su) {
  hist = string("content without parts: ") + nm; auto tag = [&](const V& v, int w, const char* op) { if (static_cast<uint64_t>(v.type()) != (w < 0 ? 1 : TAGS[w])) fail(string(op) + " leaves kind " + std::to_string(static_cast<uint64_t>(v.type()))); };
  V v{T()}; tag(v, k, "construction"); V c(v); tag(c, k, "copy"); tag(v, k, "copy source"); V d(std::move(v)); tag(d, k, "move"); tag(v, -1, "move source");
  v = d; tag(v, k, "assignment"); V e; e = std::move(v); tag(e, k, "move assignment"); tag(v, -1, "move assignment source"); mv(e); tag(e, -1, "taking the content out"); d.clear(); tag(d, -1, "clear"); swap(c, d); tag(c, -1, "swap"); tag(d, k, "swap");
  for (int j = -1; j < 15; j++) { V t; if (j >= 0) set(t, j, 5, 0); auto u = std::make_unique<T>(); auto p = u.get(); su(t, std::move(u)); tag(t, k, "set from a pointer"); if (u) fail("set from a pointer leaves the caller's pointer"); if (&get(t) != p) fail("set from a pointer does not take the object over"); }
}
int main(int argc, char** argv) {
  uint64_t seed = getenv("VERIF_SEED") ? atoll(getenv("VERIF_SEED")) : 1; G.seed(seed);
  int rounds = argc > 1 ? atoi(argv[1]) : 2000;
  for (int k = -1; k < 15; k++) for (int j = -1; j < 15; j++) for (int op = 0; op < 3; op++) {   // every pair of kinds
    hist = "pair " + std::to_string(k) + "," + std::to_string(j) + " op " + std::to_string(op);
    V a, b; M ma, mb; if (k >= 0) { set(a, k, 11, 0); ma = {k, 11}; } if (j >= 0) { set(b, j, 12, 1); mb = {j, 12}; }
    if (op == 0) { a = b; ma = mb; } else if (op == 1) { a = std::move(b); ma = mb; mb = M(); } else { swap(a, b); std::swap(ma, mb); }
    check(a, ma, "target"); check(b, mb, "source");
  }
#define F(K, N) emptyContent<K>(#K, N, [](V& v) -> const K& { return v.get##K(); }, [](V& v) { K t = v.move##K(); (void)t; }, [](V& v, std::unique_ptr<K>&& u) { v.set##K(std::move(u)); });
  F(Vertex, 8) F(Edge, 9) F(Path, 10) F(List, 11) F(Map, 12) F(Set, 13) F(DataSet, 14)
#undef F
  for (int r = 0; r < rounds; r++) {
    const int N = 4; std::vector<V> p(N); std::vector<M> m(N); hist.clear();
    for (int i = 0; i < 24; i++) {
      int a = G() % N, b = G() % N, op = G() % 12, s = G() % 200, k = G() % 15, how = G() % 30;
      hist += " " + std::to_string(op) + ":" + std::to_string(a) + "," + std::to_string(b) + (op < 4 ? "(kind " + std::to_string(k) + " seed " + std::to_string(s) + " how " + std::to_string(how) + ")" : "");
      switch (op) {
        case 0: case 1: case 2: case 3: set(p[a], k, s, how); m[a] = {k, s}; break;
        case 4: p[a] = p[b]; m[a] = m[b]; break;
        case 5: { p[a] = std::move(p[b]); if (a != b) { m[a] = m[b]; m[b] = M(); } break; }
        case 6: { V c(p[a]); check(c, m[a], "copy"); V d(std::move(c)); check(c, M(), "moved-from copy"); check(d, m[a], "moved copy"); break; }
        case 7: swap(p[a], p[b]); std::swap(m[a], m[b]); break;
        case 8: p[a].clear(); m[a] = M(); break;
        case 9: { moveOut(p[a], m[a]); m[a] = M(); break; }
        case 10: { V* q = part(p[a]); if (q) { V c(*q); p[a] = *q; if (p[a].type() != c.type() || p[a].toString() != c.toString()) fail("a part copied over its own value changed"); p[a].clear(); m[a] = M(); } break; }
        case 11: { V* q = part(p[a]); if (q) { V c(*q); p[a] = std::move(*q); if (p[a].type() != c.type() || p[a].toString() != c.toString()) fail("a part moved over its own value changed"); p[a].clear(); m[a] = M(); } break; }
      }
      for (int x = 0; x < N; x++) check(p[x], m[x], "slot");
    }
  }
  { V v(static_cast<int8_t>(-5)), w(static_cast<int16_t>(-500)), x(static_cast<int32_t>(-70000)), y("cstr"); if (!sameInt(v, -5) || !sameInt(w, -500) || !sameInt(x, -70000) || !sameStr(y, "cstr")) fail("narrow constructors");
    v.setInt(static_cast<int8_t>(-6)); w.setInt(static_cast<int16_t>(-600)); x.setInt(static_cast<int32_t>(-80000)); y.setStr("other"); if (!sameInt(v, -6) || !sameInt(w, -600) || !sameInt(x, -80000) || !sameStr(y, "other")) fail("narrow setters"); }
  if (argc > 2) abortcheck();
  printf("OK\n"); return 0;
}
