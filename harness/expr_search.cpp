// C27-C30: expressions of the real code over leaves with random values, against an oracle of their documented results; ASan/UBSan watch.
#include "common/base/Base.h"
#include "common/expression/ExprVisitor.h"
#include "common/expression/TextSearchExpression.h"
#include "common/expression/SubscriptExpression.h"
#include "common/context/ExpressionContext.h"
#include "common/datatypes/Vertex.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/Path.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
#include <random>
#include <unistd.h>
using namespace nebula; using std::string; using std::vector; using V = Value; using T = Value::Type; using E = Expression; using K = Expression::Kind;
static std::mt19937_64 G(3); static string hist; static ObjectPool* P; static int base_ = 0;
static int R(int n) { return static_cast<int>(G() % n); }
static string show(const V& v) { std::ostringstream o; o << v.type() << ":" << v.toString(); return o.str(); }
[[noreturn]] static void fail(const string& m) { printf("FAIL %s\n%s\n", m.c_str(), hist.c_str()); fflush(stdout); _exit(1); }
static bool ident(const V& a, const V& b) {
  if (a.type() != b.type()) return false;
  switch (a.type()) {
    case T::__EMPTY__: return true; case T::NULLVALUE: return a.getNull() == b.getNull(); case T::BOOL: return a.getBool() == b.getBool(); case T::INT: return a.getInt() == b.getInt();
    case T::FLOAT: return (std::isnan(a.getFloat()) && std::isnan(b.getFloat())) || a.getFloat() == b.getFloat(); case T::STRING: return a.getStr() == b.getStr();
    case T::LIST: { auto &x = a.getList().values, &y = b.getList().values; if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!ident(x[i], y[i])) return false; return true; }
    case T::MAP: { auto &x = a.getMap().kvs, &y = b.getMap().kvs; if (x.size() != y.size()) return false; for (auto& i : x) { auto j = y.find(i.first); if (j == y.end() || !ident(i.second, j->second)) return false; } return true; }
    case T::SET: { auto &x = a.getSet().values, &y = b.getSet().values; if (x.size() != y.size()) return false; for (auto& i : x) if (!y.count(i)) return false; return true; }
    default: return a.toString() == b.toString();
  }
}
struct Leaf : E {
  V v; std::function<V(ExpressionContext&)> f; int n = 0;
  Leaf(ObjectPool* p, V x, K k = K::kConstant) : E(p, k), v(std::move(x)) {}
  const V& eval(ExpressionContext& c) override { n++; if (f) v = f(c); return v; }
  bool operator==(const E&) const override { return false; } string toString() const override { return show(v); } void accept(ExprVisitor*) override {} E* clone() const override { return nullptr; } void writeTo(Encoder&) const override {} void resetFrom(Decoder&) override {}
};
struct Ctx : ExpressionContext {
  std::map<string, V> vars; mutable std::map<string, V> cells;
  const V& cell(const string& s) const { auto& c = cells[s]; c.setStr(s); return c; }
  const V& getVar(const string& n) const override { auto i = vars.find(n); return i == vars.end() ? V::kEmpty : i->second; }
  const V& getVersionedVar(const string& n, int64_t k) const override { return cell("ver|" + n + "|" + std::to_string(k)); }
  const V& getVarProp(const string& a, const string& b) const override { return cell("var|" + a + "|" + b); }
  V getEdgeProp(const string& a, const string& b) const override { return cell("edge|" + a + "|" + b); }
  V getTagProp(const string& a, const string& b) const override { return cell("tag|" + a + "|" + b); }
  V getSrcProp(const string& a, const string& b) const override { return cell("src|" + a + "|" + b); }
  const V& getDstProp(const string& a, const string& b) const override { return cell("dst|" + a + "|" + b); }
  const V& getInputProp(const string& a) const override { return cell("in|" + a); }
  V getVertex() const override { return V(Vertex("ctxv", {})); } V getEdge() const override { return V(Edge("a", "b", 1, "ctxe", 0, {})); } V getColumn(int32_t i) const override { return V("col" + std::to_string(i)); }
  void setVar(const string& n, V v) override { vars[n] = std::move(v); }
};
static V nul(int k) { return V(static_cast<NullType>(k)); }
static string word() { static const char* w[] = {"", "a", "b", "ab", "ba", "aba", "a long text that is not kept inside the string object", "_src", "_dst", "_rank", "_type", "_vid", "_x", "12", "true"}; return w[R(15)]; }
static V scalar() { switch (R(8)) { case 0: return V(); case 1: return nul(R(2) ? 0 : R(8)); case 2: case 3: return V(R(2) == 0); case 4: { static const int64_t k[] = {0, 1, -1, 2, -2, 3, -3, 7, INT64_MAX, INT64_MIN}; return V(k[R(10)]); } case 5: return V(R(5) / 2.0 - 1); default: return V(word()); } }
static V value(int d = 2);
static List list(int d) { List l; for (int i = R(4); i > 0; i--) l.values.push_back(value(d - 1)); return l; }
static std::unordered_map<string, V> kvs(int d) { std::unordered_map<string, V> m; for (int i = R(4); i > 0; i--) m.emplace(word(), value(d - 1)); return m; }
static Vertex vertex() { Vertex v; v.vid = R(2) ? V(R(3)) : V(word()); for (int i = R(3); i > 0; i--) v.tags.emplace_back(word(), kvs(1)); return v; }
static Edge edge() { return Edge(V(R(3)), V(R(3)), R(3) - 1, word(), R(3), kvs(1)); }
static V value(int d) {
  if (d <= 0 || R(2)) return scalar();
  switch (R(8)) { case 0: case 1: return V(list(d)); case 2: { Map m; m.kvs = kvs(d); return V(m); } case 3: { Set s; for (int i = R(3); i > 0; i--) s.values.insert(scalar()); return V(s); }
    case 4: return V(vertex()); case 5: return V(edge()); case 6: { DataSet ds({"x", "y"}); for (int i = R(3); i > 0; i--) { Row r; r.values.push_back(scalar()); r.values.push_back(scalar()); ds.rows.push_back(r); } return V(ds); } default: return R(2) ? V(Date(2020, 2, 1 + R(28))) : V(Path(vertex(), {})); }
}
static Leaf* leaf(const V& v, K k = K::kConstant) { return P->add(new Leaf(P, v, k)); }
static bool special(const V& v) { return v.isNull() || v.empty(); }
static V NOT(const V& v) { return special(v) ? v : v.isBool() ? V(!v.getBool()) : nul(3); }
static V J(const V& a, const V& b, bool orr) { if (a.isNull()) return a; if (b.isNull()) return b; if (a.empty() || b.empty()) return V(); if (!a.isBool() || !b.isBool()) return nul(3); return V(orr ? a.getBool() || b.getBool() : a.getBool() && b.getBool()); }
static void want(E* e, Ctx& c, const V& w, const string& what, const string& in) { hist = what + " of " + in; const V& r = e->eval(c); if (!ident(r, w)) fail(what + ": gives " + show(r) + ", expected " + show(w)); }
// ------------------------------------------------------------------ C27
static void arith() {
  V a = value(1), b = value(1); if (R(2)) { a = V(int64_t(R(7) - 3)); b = V(int64_t(R(7) - 3)); } Ctx c; Leaf *l = leaf(V()), *r = leaf(V()); vector<E*> es = {ArithmeticExpression::makeAdd(P, l, r), ArithmeticExpression::makeMinus(P, l, r), ArithmeticExpression::makeMultiply(P, l, r), ArithmeticExpression::makeDivision(P, l, r), ArithmeticExpression::makeMod(P, l, r)};
  static const char* n[] = {"+", "-", "*", "/", "%"};
  for (int round = 0; round < 2; round++) { if (a.isDate()) a = V(1); if (b.isDate()) b = V(2); l->v = a; r->v = b; vector<V> w = {a + b, a - b, a * b, a / b, a % b}; for (int i = 0; i < 5; i++) want(es[i], c, w[i], n[i], show(a) + ", " + show(b)); a = value(1); b = scalar(); }
}
static void unary() {
  V v = value(1); Ctx c; Leaf* l = leaf(v); string s = show(v);
  want(UnaryExpression::makePlus(P, l), c, v, "unary +", s); want(UnaryExpression::makeNegate(P, l), c, -v, "unary -", s); want(UnaryExpression::makeNot(P, l), c, NOT(v), "!", s);
  want(UnaryExpression::makeIsNull(P, l), c, V(v.isNull()), "IS NULL", s); want(UnaryExpression::makeIsNotNull(P, l), c, V(!v.isNull()), "IS NOT NULL", s); want(UnaryExpression::makeIsEmpty(P, l), c, V(v.empty()), "IS EMPTY", s); want(UnaryExpression::makeIsNotEmpty(P, l), c, V(!v.empty()), "IS NOT EMPTY", s);
  want(UnaryExpression::makeIncr(P, l), c, nul(3), "++ of no variable", s); want(UnaryExpression::makeDecr(P, l), c, nul(3), "-- of no variable", s);
  V n(int64_t(R(9) - 4)); if (R(2)) n = scalar(); c.vars["x"] = n; c.vars["y"] = V(5); auto* var = VariableExpression::make(P, "x"); V up = n + 1, down = n - 1; bool inc = R(2); want(inc ? UnaryExpression::makeIncr(P, var) : UnaryExpression::makeDecr(P, var), c, inc ? up : down, inc ? "++ of a variable" : "-- of a variable", show(n)); if (!ident(c.vars["x"], inc ? up : down) || !ident(c.vars["y"], V(5)) || c.vars.size() != 2) fail("the variable after ++/-- is " + show(c.vars["x"]));
}
static bool contains(const V& c, const V& x) { if (c.isList()) { for (auto& y : c.getList().values) if (y == x) return true; return false; } if (c.isSet()) return c.getSet().values.count(x); return c.getMap().kvs.count(x.isStr() ? x.getStr() : string()) && x.isStr(); }
static V rel(int k, const V& a, const V& b) {
  V e = a.equal(b), t = a.lessThan(b);
  switch (k) {
    case 0: return e; case 1: return NOT(e); case 2: return t; case 3: return J(t, e, true); case 4: return J(NOT(t), NOT(e), false); case 5: return J(NOT(t), e, true);
    case 7: case 8: { bool neg = k == 8; if (b.isNull() && b.getNull() == NullType::__NULL__) return nul(0); if (!b.isList() && !b.isSet() && !b.isMap()) return nul(3); if (a.isNull()) return nul(0); if (contains(b, a)) return V(!neg); if (contains(b, nul(0))) return nul(0); return V(neg); }
    default: { bool neg = k == 10 || k == 12 || k == 14; auto ok = [](const V& v) { return v.isStr() || (v.isNull() && v.getNull() == NullType::__NULL__); }; if (!ok(a) || !ok(b)) return nul(3); if (a.isNull() || b.isNull()) return nul(0); const string &x = a.getStr(), &y = b.getStr(); bool h = false;
      if (k == 6) return V(x == y);
      if (k < 11) { for (size_t i = 0; i + y.size() <= x.size(); i++) h |= x.compare(i, y.size(), y) == 0; } else if (y.size() <= x.size()) h = (k < 13 ? x.substr(0, y.size()) : x.substr(x.size() - y.size())) == y;
      return V(h != neg); }
  }
}
static void relational() {
  static const K kinds[] = {K::kRelEQ, K::kRelNE, K::kRelLT, K::kRelLE, K::kRelGT, K::kRelGE, K::kRelREG, K::kRelIn, K::kRelNotIn, K::kContains, K::kNotContains, K::kStartsWith, K::kNotStartsWith, K::kEndsWith, K::kNotEndsWith}; int k = R(15);
  Leaf *l = leaf(V()), *r = leaf(V()); auto* e = RelationalExpression::makeKind(P, kinds[k], l, r); Ctx c;
  for (int round = 0; round < 3; round++) { V a = k >= 9 || k == 6 ? (R(5) ? V(word()) : scalar()) : value(1), b = k >= 9 || k == 6 ? (R(5) ? V(word()) : scalar()) : value(); if (k < 6 && R(3) == 0) b = a; if (k == 7 || k == 8) { if (b.isSet()) a = scalar(); if (b.isList() && R(2)) { V x = b; if (R(2)) x.mutableList().values.insert(x.mutableList().values.begin() + R(x.getList().size() + 1), a); if (R(3) == 0) x.mutableList().values.push_back(nul(0)); b = x; } } l->v = a; r->v = b; std::ostringstream o; o << kinds[k]; want(e, c, rel(k, a, b), o.str(), show(a) + ", " + show(b)); }
}
static void logical() {
  int k = R(3), n = 2 + R(3); Ctx c; auto* e = k == 0 ? LogicalExpression::makeAnd(P) : k == 1 ? LogicalExpression::makeOr(P) : LogicalExpression::makeXor(P); vector<Leaf*> ls; for (int i = 0; i < n; i++) { ls.push_back(leaf(V())); e->addOperand(ls.back()); }
  for (int round = 0; round < 3; round++) {
    string s; for (auto* l : ls) { l->v = R(6) ? (R(3) ? V(R(2) == 0) : R(2) ? V() : nul(0)) : scalar(); s += show(l->v) + "; "; }
    V w; bool done = false, en = false, em = false, par = false;
    for (auto* l : ls) { const V& v = l->v; bool other = !v.isBool() && !special(v);
      if (k == 2) { if (v.isNull()) { w = v; done = true; break; } if (other) { w = nul(3); done = true; break; } if (v.empty()) em = true; else par ^= v.getBool(); }
      else { if ((v.isNull() && v.getNull() != NullType::__NULL__) || (v.isBool() && v.getBool() == (k == 1))) { w = v; done = true; break; } if (other) { w = nul(3); done = true; break; } if (v.isNull()) en = true; if (v.empty()) em = true; } }
    if (!done) w = en ? nul(0) : em ? V() : V(k == 2 ? par : k == 0);
    want(e, c, w, k == 0 ? "AND" : k == 1 ? "OR" : "XOR", s);
  }
}
static void cases() {
  Ctx c; bool cond = R(2), dflt = R(2); int n = R(4); auto* cl = CaseList::make(P); vector<Leaf*> ws, ts; for (int i = 0; i < n; i++) { ws.push_back(leaf(cond ? scalar() : R(5) ? V(R(3) == 0) : scalar())); ts.push_back(leaf(V(100 + i))); cl->add(ws[i], ts[i]); }
  auto* e = CaseExpression::make(P, cl, R(2)); Leaf *cd = leaf(n && R(2) ? ws[R(n)]->v : scalar()), *df = leaf(V("default")); if (cond) e->setCondition(cd); if (dflt) e->setDefault(df);
  for (int round = 0; round < 2; round++) { V w = dflt ? df->v : nul(0); string s = cond ? "condition " + show(cd->v) : "no condition"; bool hit = false; for (int i = 0; i < n; i++) { s += "; " + show(ws[i]->v); if (hit) continue; if (cond ? cd->v == ws[i]->v : !ws[i]->v.isBool() || ws[i]->v.getBool()) { hit = true; w = cond || ws[i]->v.isBool() ? ts[i]->v : nul(3); } } want(e, c, w, "CASE", s); for (auto* x : ws) x->v = cond ? scalar() : V(R(3) == 0); }
}
static void leaves() {
  Ctx c; V v = value(1); c.vars["x"] = v; string a = word(), b = word(); want(ConstantExpression::make(P, v), c, v, "a constant", show(v)); want(VariableExpression::make(P, "x"), c, v, "a variable", ""); want(VersionedVariableExpression::make(P, "x", nullptr), c, v, "a variable without version", "");
  V n = R(2) ? V(int64_t(R(9) - 4)) : scalar(); want(VersionedVariableExpression::make(P, "x", leaf(n)), c, n.isInt() ? V("ver|x|" + std::to_string(n.getInt())) : nul(3), "a version of a variable", show(n)); string q = a + "|" + b;
  want(EdgePropertyExpression::make(P, a, b), c, V("edge|" + q), "an edge property", q); want(TagPropertyExpression::make(P, a, b), c, V("tag|" + q), "a tag property", q); want(SourcePropertyExpression::make(P, a, b), c, V("src|" + q), "a source property", q); want(DestPropertyExpression::make(P, a, b), c, V("dst|" + q), "a destination property", q); want(VariablePropertyExpression::make(P, a, b), c, V("var|" + q), "a variable property", q); want(InputPropertyExpression::make(P, a), c, V("in|" + a), "an input property", a);
  want(EdgeSrcIdExpression::make(P, a), c, V("edge|" + a + "|_src"), "the source of an edge", a); want(EdgeDstIdExpression::make(P, a), c, V("edge|" + a + "|_dst"), "the destination of an edge", a); want(EdgeRankExpression::make(P, a), c, V("edge|" + a + "|_rank"), "the rank of an edge", a); want(EdgeTypeExpression::make(P, a), c, V("edge|" + a + "|_type"), "the type of an edge", a);
  want(VertexExpression::make(P), c, c.getVertex(), "the vertex", ""); want(EdgeExpression::make(P), c, c.getEdge(), "the edge", ""); int i = R(9) - 4; want(ColumnExpression::make(P, i), c, V("col" + std::to_string(i)), "a column", std::to_string(i));
  static const T ts[] = {T::BOOL, T::INT, T::FLOAT, T::STRING, T::LIST, T::DATE}; T t = ts[R(6)]; Leaf* l = leaf(v); auto* e = TypeCastingExpression::make(P, t, l); for (int r = 0; r < 2; r++) { V x = l->v; std::ostringstream o; o << "cast to " << t; want(e, c, t == T::BOOL ? x.toBool() : t == T::INT ? x.toInt() : t == T::FLOAT ? x.toFloat() : t == T::STRING ? V(x.isStr() ? x.getStr() : x.toString()) : nul(0), o.str(), show(x)); l->v = scalar(); }
}
#include "expr_func.h"
#include "expr_more.h"
int main(int ac, char** av) {
  FLAGS_minloglevel = 3;
  string mode = ac > 1 ? av[1] : "scalar"; int n = ac > 2 ? atoi(av[2]) : 2000;
  if (mode == "types") { types(ac - 2, av + 2); fflush(stdout); _exit(0); }
  for (int i = 0; i < n; i++) { ObjectPool p; P = &p;
    if (mode == "scalar") { arith(); unary(); relational(); relational(); logical(); cases(); leaves(); } else more(mode); }
  puts("OK"); fflush(stdout); _exit(0);
}
