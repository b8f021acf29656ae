// C28-C30: the part of expr_search.cpp on collections, the wire form, and copies.
// ------------------------------------------------------------------ C28
static V prop(const V& o, const string& k, bool attr) {
  V unknown = nul(attr ? 5 : 0);
  if (o.isVertex()) { if (k == "_vid") return o.getVertex().vid; for (auto& t : o.getVertex().tags) for (auto& kv : t.props) if (kv.first == k) return kv.second; return unknown; }
  const Edge& e = o.getEdge(); if (k[0] == '_') return k == "_src" ? e.src : k == "_dst" ? e.dst : k == "_rank" ? V(e.ranking) : k == "_type" ? V(e.name) : unknown;
  for (auto& kv : e.props) if (kv.first == k) return kv.second; return unknown;
}
static V atkey(const V& m, const string& k) { for (auto& kv : m.getMap().kvs) if (kv.first == k) return kv.second; return nul(5); }
static V some(int k) { V v; for (int i = 0; i < 40; i++) { v = value(); if (k == 0 ? v.isList() : k == 1 ? v.isMap() : k == 2 ? v.isDataSet() : k == 3 ? v.isVertex() : k == 4 ? v.isEdge() : true) break; } return v; }
static string keyof(const V& o) { vector<string> ks; if (o.isVertex()) for (auto& t : o.getVertex().tags) for (auto& kv : t.props) ks.push_back(kv.first); if (o.isEdge()) for (auto& kv : o.getEdge().props) ks.push_back(kv.first); if (o.isMap()) for (auto& kv : o.getMap().kvs) ks.push_back(kv.first); return ks.empty() || R(3) == 0 ? word() : ks[R(ks.size())]; }
static void subscripts() {
  Ctx c; Leaf *l = leaf(V()), *r = leaf(V()); auto* e = SubscriptExpression::make(P, l, r); auto* a = AttributeExpression::make(P, l, r);
  for (int round = 0; round < 3; round++) {
    V o = some(R(7)), k = R(4) ? (o.isList() || o.isDataSet() ? V(int64_t(R(9) - 4)) : V(keyof(o))) : scalar(); if (o.isEdge() && k.isStr() && k.getStr().empty()) k = V("q"); l->v = o; r->v = k; V w = nul(3);
    if (o.isList()) { int64_t n = o.getList().values.size(); if (k.isInt()) { int64_t i = k.getInt(); w = i >= n || i < -n ? nul(7) : o.getList().values[i < 0 ? i + n : i]; } }
    else if (o.isMap()) w = k.isStr() ? atkey(o, k.getStr()) : nul(0);
    else if (o.isDataSet()) { if (k.isInt()) w = k.getInt() < 0 || k.getInt() >= int64_t(o.getDataSet().rows.size()) ? nul(7) : V(o.getDataSet().rows[k.getInt()]); }
    else if (o.isVertex() || o.isEdge()) w = k.isStr() ? prop(o, k.getStr(), false) : nul(0);
    want(e, c, w, "subscript", show(o) + " [" + show(k) + "]");
    if (!k.isStr() || o.isDate()) continue;
    want(a, c, o.isMap() ? atkey(o, k.getStr()) : o.isVertex() || o.isEdge() ? prop(o, k.getStr(), true) : nul(3), "attribute", show(o) + "." + show(k));
  }
}
static void ranges() {
  Ctx c; Leaf *l = leaf(V()), *lo = R(3) ? leaf(V()) : nullptr, *hi = R(3) || !lo ? leaf(V()) : nullptr; auto* e = SubscriptRangeExpression::make(P, l, lo, hi);
  for (int round = 0; round < 3; round++) {
    V o = R(6) ? some(0) : value(); auto b = [] { return R(5) ? V(int64_t(R(11) - 5)) : scalar(); }; l->v = o; string s = show(o); if (lo) { lo->v = b(); s += " from " + show(lo->v); } if (hi) { hi->v = b(); s += " to " + show(hi->v); }
    V w; if (!o.isList()) w = nul(3); else if (lo && !lo->v.isInt()) w = nul(lo->v.isNull() ? 0 : 3); else if (hi && !hi->v.isInt()) w = nul(hi->v.isNull() ? 0 : 3);
    else { __int128 n = o.getList().values.size(), x = lo ? lo->v.getInt() : 0, y = hi ? hi->v.getInt() : n; if (x < 0) x += n; if (y < 0) y += n; List r; for (__int128 i = 0; i < n; i++) if (i >= x && i < y) r.values.push_back(o.getList().values[i]); w = V(r); }
    want(e, c, w, "a part of a list", s);
  }
}
static void containers() {
  Ctx c; int n = R(5); auto *x = ExpressionList::make(P), *y = ExpressionList::make(P); auto* m = MapItemList::make(P); vector<Leaf*> ls; vector<string> ks;
  for (int i = 0; i < n; i++) { ls.push_back(leaf(V())); ks.push_back(word()); x->add(ls[i]); y->add(ls[i]); m->add(ks[i], ls[i]); }
  auto* a = ListExpression::make(P, x); auto* b = SetExpression::make(P, y); auto* d = MapExpression::make(P, m);
  for (int round = 0; round < 2; round++) { List li; Set se; Map ma; string s; for (int i = 0; i < n; i++) { do ls[i]->v = scalar(); while (ls[i]->v.isFloat()); s += ks[i] + " " + show(ls[i]->v) + "; "; li.values.push_back(ls[i]->v); se.values.insert(ls[i]->v); if (!ma.kvs.count(ks[i])) ma.kvs[ks[i]] = ls[i]->v; } want(a, c, V(li), "a list", s); want(b, c, V(se), "a set", s); want(d, c, V(ma), "a map", s); }
}
static V filt(const V& v, int k) { if (k == 0) return V(v.isInt()); if (k == 1) return v.isBool() ? v : v.isInt() ? V() : v.isStr() ? V(true) : nul(0); if (k == 2) return V(v.isStr() || v.isNull()); return v.isStr() ? v : V(true); }
static void lists() {
  Ctx c; c.vars["other"] = V("kept"); Leaf *l = leaf(V()), *f = leaf(V()), *m = leaf(V()); int fk = R(4); f->f = [fk](ExpressionContext& x) { return filt(x.getVar("x"), fk); }; m->f = [](ExpressionContext& x) { List l; l.values.push_back(x.getVar("x")); return V(l); };
  bool hf = R(3), hm = R(2); static const char* names[] = {"all", "any", "single", "none", "exists2"}; int pk = R(5); auto* e = ListComprehensionExpression::make(P, "x", l, hf ? f : nullptr, hm ? m : nullptr); auto* p = PredicateExpression::make(P, names[pk], "x", l, f);
  Leaf *r0 = leaf(V()), *rm = leaf(V()); rm->f = [](ExpressionContext& x) { List l; if (x.getVar("acc").isList()) l = x.getVar("acc").getList(); l.values.push_back(x.getVar("x")); return l.values.size() > 5 ? V("full") : V(l); }; auto* red = ReduceExpression::make(P, "acc", r0, "x", l, rm);
  for (int round = 0; round < 3; round++) {
    V o = R(6) ? some(0) : value(); if (o.isList() && R(2)) { V q = o; auto& vs = q.mutableList().values; int keep = R(4); vs.clear(); for (int i = 0; i < keep; i++) vs.push_back(R(3) ? V(int64_t(i)) : scalar()); o = q; } l->v = o; string s = show(o) + " filter " + std::to_string(fk); V w; bool done = true; auto bad = [](const V& v) { return !v.isBool() && !special(v); }; auto yes = [](const V& v) { return v.isBool() && v.getBool(); };
    if (special(o)) w = o; else if (!o.isList()) w = nul(3); else done = false;
    V wc = w, wp = w, wr = w;
    if (!done) {
      auto& vs = o.getList().values; List r; bool b = false; for (auto& v : vs) { if (hf) { V t = filt(v, fk); if (bad(t)) { b = true; break; } if (!yes(t)) continue; } if (hm) { List q; q.values.push_back(v); r.values.push_back(V(q)); } else r.values.push_back(v); } wc = b ? nul(3) : V(r);
      int cnt = 0; bool end = false; wp = V(); for (auto& v : vs) { V t = filt(v, fk); if (bad(t)) { wp = nul(3); end = true; break; } cnt += yes(t); if ((pk == 0 && !yes(t)) || (pk == 2 && cnt == 2) || (pk == 3 && yes(t))) { wp = V(false); end = true; break; } if (pk == 1 && yes(t)) { wp = V(true); end = true; break; } } if (!end) wp = V(pk == 0 || pk == 3 || (pk == 2 && cnt == 1));
      r0->v = scalar(); V acc = r0->v; for (auto& v : vs) { c.vars["x"] = v; c.vars["acc"] = acc; acc = rm->f(c); } wr = acc;
    }
    want(e, c, wc, string("list comprehension") + (hf ? " filtered" : "") + (hm ? " mapped" : ""), s); want(p, c, pk == 4 ? nul(3) : wp, string("predicate ") + names[pk], s); if (done) { r0->v = V(1); } want(red, c, wr, "reduce", s); if (!ident(c.vars["other"], V("kept")) || c.vars.size() > 3) fail("another variable changed");
  }
}
static void exists() {
  Ctx c; Leaf *l = leaf(V()), *r = leaf(V()); E* col = R(2) ? static_cast<E*>(AttributeExpression::make(P, l, r)) : SubscriptExpression::make(P, l, r); auto* p = PredicateExpression::make(P, "exists", "", col, nullptr);
  for (int i = 0; i < 2; i++) { V o = some(R(7)), k = R(6) ? V(keyof(o)) : scalar(), w = nul(3); l->v = o; r->v = k; if (k.isStr()) { if (o.isVertex()) { bool h = false; for (auto& t : o.getVertex().tags) if (!h) for (auto& kv : t.props) if (kv.first == k.getStr()) { w = V(!kv.second.isNull()); h = true; } if (!h) w = V(false); } else if (o.isEdge()) { w = V(false); for (auto& kv : o.getEdge().props) if (kv.first == k.getStr()) w = V(!kv.second.isNull()); } else if (o.isMap()) w = V(!atkey(o, k.getStr()).isNull()); else if (o.isNull()) w = nul(0); } want(p, c, w, "exists", show(o) + "." + show(k)); }
}
static void calls() {
  Ctx c; static const std::pair<const char*, int> fs[] = {{"upper", 1}, {"toBoolean", 1}, {"size", 1}, {"coalesce", 3}, {"strcasecmp", 2}, {"left", 2}, {"substr", 3}, {"lower", 1}, {"sign", 1}, {"nosuchfunction", 0}}; auto& fn = fs[R(9)]; auto* args = ArgumentList::make(P); vector<Leaf*> ls; for (int i = 0; i < fn.second; i++) { ls.push_back(leaf(V())); args->addArgument(ls[i]); } auto* e = FunctionCallExpression::make(P, fn.first, args); auto g = FunctionManager::get(fn.first, fn.second); if (!g.ok()) return; auto f = g.value();
  for (int round = 0; round < 2; round++) { string s = fn.first; vector<std::reference_wrapper<const V>> vs; for (auto* x : ls) { x->v = R(2) ? scalar() : value(1); s += " " + show(x->v); vs.push_back(x->v); } want(e, c, f(vs), "a function call", s); }
}
// ------------------------------------------------------------------ C29, C30
// trees are built from a tape of choices, so that a tape with one change gives a nearly equal tree; d describes what == is to compare (K kind{members})
static vector<int> tape; static size_t at_; static bool wire_;
static int T_(int n) { if (at_ == tape.size()) tape.push_back(R(1 << 20)); return tape[at_++] % n; }
struct Node { E* e; string d; };
struct Cell : E {   // a leaf of clone mode: its copy is another generation
  int id, g; Cell(ObjectPool* p, int i, int n) : E(p, static_cast<K>(200)), id(i), g(n) {} const V& eval(ExpressionContext&) override { return V::kEmpty; }
  bool operator==(const E& r) const override { auto* c = dynamic_cast<const Cell*>(&r); return c && c->id == id; } string toString() const override { return "<" + std::to_string(id) + "." + std::to_string(g) + ">"; }
  void accept(ExprVisitor*) override {} E* clone() const override { return pool_->add(new Cell(pool_, id, g + 1)); } void writeTo(Encoder&) const override {} void resetFrom(Decoder&) override {}
};
static string name_(bool some = false) { static const char* w[] = {"", "a", "b", "ab", "a long text that is not kept inside the string object", "$x"}; string r = w[some ? 1 + T_(5) : T_(6)]; if (T_(12) == 0) r += '\0'; if (T_(30) == 0) r += string(300, 'z'); return r; }
static V const_() {
  switch (T_(8)) { case 0: return V(); case 1: { int k = T_(8); return nul(wire_ ? k : 0); } case 2: return V(T_(2) == 0); case 3: return V(int64_t(T_(5)) - 2); case 4: return V(std::numeric_limits<int64_t>::min() + T_(2)); case 5: return V(name_());
    case 6: { List l; for (int n = T_(4); n > 0; n--) l.values.push_back(const_()); return V(std::move(l)); } default: return V(T_(3) + 0.5); } }
static Node tree(int d);
static E* sub(int d, string& s) { Node n = tree(d); s += n.d + ","; return n.e; }
static string q(const string& s) { return std::to_string(s.size()) + ":" + s + ","; }
static Node tree(int d) {
  string s; E* e = nullptr; int k = T_(d <= 0 ? 6 : wire_ ? 23 : 27);
  switch (k) {
    case 0: case 1: if (!wire_) { int i = T_(4); e = P->add(new Cell(P, i, 1)); s = "cell" + std::to_string(i); break; } else { V v = const_(); e = ConstantExpression::make(P, v); s = show(v); break; }
    case 2: { V v = const_(); e = ConstantExpression::make(P, v); s = show(v); break; }
    case 3: { string a = name_(), b = name_(); s = q(a) + q(b); switch (T_(wire_ ? 8 : 10)) {
      case 0: e = EdgePropertyExpression::make(P, a, b); break; case 1: e = TagPropertyExpression::make(P, a, b); break; case 2: e = SourcePropertyExpression::make(P, a, b); break; case 3: e = DestPropertyExpression::make(P, a, b); break;
      case 4: e = EdgeSrcIdExpression::make(P, a); s = q(a); break; case 5: e = EdgeTypeExpression::make(P, a); s = q(a); break; case 6: e = EdgeRankExpression::make(P, a); s = q(a); break; case 7: e = EdgeDstIdExpression::make(P, a); s = q(a); break;
      case 8: e = InputPropertyExpression::make(P, b); s = q(b); break; default: e = VariablePropertyExpression::make(P, a, b); } break; }
    case 4: { string a = name_(true); s = q(a); int i; switch (T_(4)) { case 0: e = UUIDExpression::make(P, a); break; case 1: e = LabelExpression::make(P, a); break; case 2: e = VariableExpression::make(P, a, wire_ || T_(2)); break; default: i = T_(5) - 2; e = ColumnExpression::make(P, i); s = std::to_string(i); } break; }
    case 5: if (T_(2)) e = VertexExpression::make(P); else e = EdgeExpression::make(P); break;
    case 6: case 7: { static const K ks[] = {K::kAdd, K::kMinus, K::kMultiply, K::kDivision, K::kMod}; E *l = sub(d - 1, s), *r = sub(d - 1, s); e = ArithmeticExpression::makeKind(P, ks[T_(5)], l, r); break; }
    case 8: { static const K ks[] = {K::kUnaryPlus, K::kUnaryNegate, K::kUnaryNot, K::kIsNull, K::kIsNotNull, K::kIsEmpty, K::kIsNotEmpty, K::kUnaryIncr, K::kUnaryDecr}; E* o = sub(d - 1, s); switch (ks[T_(9)]) {
      case K::kUnaryPlus: e = UnaryExpression::makePlus(P, o); break; case K::kUnaryNegate: e = UnaryExpression::makeNegate(P, o); break; case K::kUnaryNot: e = UnaryExpression::makeNot(P, o); break; case K::kIsNull: e = UnaryExpression::makeIsNull(P, o); break; case K::kIsNotNull: e = UnaryExpression::makeIsNotNull(P, o); break;
      case K::kIsEmpty: e = UnaryExpression::makeIsEmpty(P, o); break; case K::kIsNotEmpty: e = UnaryExpression::makeIsNotEmpty(P, o); break; case K::kUnaryIncr: e = UnaryExpression::makeIncr(P, o); break; default: e = UnaryExpression::makeDecr(P, o); } break; }
    case 9: case 10: { static const K ks[] = {K::kRelEQ, K::kRelNE, K::kRelLT, K::kRelLE, K::kRelGT, K::kRelGE, K::kRelREG, K::kRelIn, K::kRelNotIn, K::kContains, K::kNotContains, K::kStartsWith, K::kNotStartsWith, K::kEndsWith, K::kNotEndsWith}; E *l = sub(d - 1, s), *r = sub(d - 1, s); e = RelationalExpression::makeKind(P, ks[T_(15)], l, r); break; }
    case 11: { static const K ks[] = {K::kLogicalAnd, K::kLogicalOr, K::kLogicalXor}; E *l = sub(d - 1, s), *r = sub(d - 1, s); auto* x = LogicalExpression::makeKind(P, ks[T_(3)], l, r); for (int n = T_(3); n > 0; n--) x->addOperand(sub(d - 1, s)); e = x; break; }
    case 12: { E *l = sub(d - 1, s), *r = sub(d - 1, s); e = SubscriptExpression::make(P, l, r); break; }
    case 13: { E* l = sub(d - 1, s); int f = T_(3); E *lo = f == 1 ? nullptr : sub(d - 1, s += "L"), *hi = f == 0 ? nullptr : sub(d - 1, s += "H"); e = SubscriptRangeExpression::make(P, l, lo, hi); break; }
    case 14: { E* l = sub(d - 1, s); string b = name_(true); s += q(b); e = AttributeExpression::make(P, l, ConstantExpression::make(P, b)); break; }
    case 15: { static const T ts[] = {T::INT, T::FLOAT, T::STRING, T::BOOL, T::DATE}; T t = ts[T_(5)]; s = std::to_string(int(t)); e = TypeCastingExpression::make(P, t, sub(d - 1, s)); break; }
    case 16: { static const char* fs[] = {"upper", "lower", "abs", "no such", "now"}; string f = fs[T_(5)]; s = q(f); auto* a = ArgumentList::make(P); for (int n = T_(4); n > 0; n--) a->addArgument(sub(d - 1, s)); e = FunctionCallExpression::make(P, f, a); break; }
    case 17: { static const char* fs[] = {"COUNT", "SUM", "", "no such"}; string f = fs[T_(4)]; bool u = T_(2); s = q(f) + (u ? "distinct," : ""); e = AggregateExpression::make(P, f, sub(d - 1, s), u); break; }
    case 18: { auto* x = ExpressionList::make(P); for (int n = T_(4); n >= 0; n--) x->add(sub(d - 1, s)); e = T_(2) ? static_cast<E*>(ListExpression::make(P, x)) : SetExpression::make(P, x); break; }
    case 19: { auto* x = MapItemList::make(P); for (int n = T_(4); n >= 0; n--) { string a = name_(); s += q(a); x->add(a, sub(d - 1, s)); } e = MapExpression::make(P, x); break; }
    case 20: { auto* x = CaseList::make(P); for (int n = T_(3); n >= 0; n--) { E *w = sub(d - 1, s), *t = sub(d - 1, s); x->add(w, t); } bool gen = T_(2); auto* c = CaseExpression::make(P, x, gen); s += gen ? "generic," : ""; if (T_(2)) c->setCondition(sub(d - 1, s += "C")); if (T_(2) || !gen) c->setDefault(sub(d - 1, s += "D")); e = c; break; }
    case 21: { string a = name_(true), b = name_(true), o = name_(); int f = T_(3); if (f == 0) { E* l = sub(d - 1, s = q(a)); E *g = T_(2) ? sub(d - 1, s += "F") : nullptr, *m = T_(2) ? sub(d - 1, s += "M") : nullptr; auto* x = ListComprehensionExpression::make(P, a, l, g, m); if (!o.empty()) x->setOriginString(o); e = x; }
      else if (f == 1) { if (T_(2)) a = "exists"; s = q(a); string v = T_(3) ? b : ""; s += q(v); E* l = sub(d - 1, s); E* g = T_(3) || a != "exists" ? sub(d - 1, s += "F") : nullptr; auto* x = PredicateExpression::make(P, a, v, l, g); if (!o.empty()) x->setOriginString(o); e = x; }
      else { s = q(a) + q(b); E *i = sub(d - 1, s), *l = sub(d - 1, s), *m = sub(d - 1, s); auto* x = ReduceExpression::make(P, a, i, b, l, m); if (!o.empty()) x->setOriginString(o); e = x; } break; }
    case 22: { auto* x = PathBuildExpression::make(P); for (int n = T_(4); n >= 0; n--) x->add(sub(d - 1, s)); e = x; break; }
    case 23: { string a = name_(), b = name_(); s = q(a) + q(b); e = LabelAttributeExpression::make(P, LabelExpression::make(P, a), ConstantExpression::make(P, b)); break; }
    case 24: { string a = name_(); s = q(a); e = VersionedVariableExpression::make(P, a, T_(3) ? sub(d - 1, s) : nullptr); break; }
    default: { string a = name_(), b = name_(), c = name_(), o = T_(2) ? "or" : "and"; int f = T_(4) - 2, l = T_(3) - 1, t = T_(3) - 1, w = T_(4); auto* x = TextSearchArgument::make(P, a, b, c); x->setOP(o); x->setFuzziness(f); x->setLimit(l); x->setTimeout(t); s = q(a) + q(b) + q(c) + q(o) + q(std::to_string(f)) + q(std::to_string(l)) + q(std::to_string(t));
      e = w == 0 ? TextSearchExpression::makePrefix(P, x) : w == 1 ? TextSearchExpression::makeWildcard(P, x) : w == 2 ? TextSearchExpression::makeRegexp(P, x) : TextSearchExpression::makeFuzzy(P, x); }
  }
  return {e, "K" + std::to_string(int(e->kind())) + "{" + s + "}"};
}
static Node build(int d) { at_ = 0; Node n = tree(d); return n; }
static string later(const string& s) { string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '<' && i + 4 < s.size() && s[i + 2] == '.' && s[i + 4] == '>') { r += s.substr(i, 3); r += char(s[i + 3] + 1); r += '>'; i += 4; } else { r += s[i]; } } return r; }
static void codec() {
  wire_ = true; tape.clear(); Node n = build(R(4)); hist = "encode and decode " + n.d + "  = " + n.e->toString(); string b = E::encode(*n.e); E* r = E::decode(P, b);
  if (!r) fail("decoding gives nothing"); if (r->kind() != n.e->kind()) fail("another kind comes back"); if (r->toString() != n.e->toString()) fail("what comes back prints " + r->toString());
  if (r->rawString() != n.e->rawString()) fail("what comes back has the original string " + r->rawString()); if (!(*r == *n.e) || !(*n.e == *r)) fail("what comes back is not equal: " + r->toString()); if (E::encode(*r) != b) fail("what comes back is encoded differently"); if (E::encode(*n.e) != b) fail("a second encoding differs");
  if (b.empty() || b[0] != char(n.e->kind())) fail("the encoding does not begin with the kind");
}
static void clones() {
  wire_ = false; tape.clear(); int depth = R(4); Node n = build(depth); auto keep = tape; hist = "copy " + n.d; string t = n.e->toString(); E* r = n.e->clone();
  if (!r || r == n.e) fail("clone gives no new expression"); if (r->kind() != n.e->kind()) fail("the copy has another kind"); if (r->toString() != later(t)) fail("the copy of " + t + " prints " + r->toString()); if (n.e->toString() != t) fail("copying changed the original");
  if (r->rawString() != later(n.e->rawString())) fail("the copy has the original string " + r->rawString() + " instead of " + n.e->rawString()); if (!(*r == *n.e) || !(*n.e == *r) || *r != *n.e) fail("the copy is not equal: " + r->toString());
  E* r2 = r->clone(); if (r2->toString() != later(later(t))) fail("the copy of the copy of " + t + " prints " + r2->toString()); if (!(*r2 == *n.e)) fail("the copy of the copy is not equal");
  for (int i = 0; i < 3; i++) { tape = keep; if (i) tape[R(tape.size())] = R(1 << 20); Node m = build(depth); bool w = m.d == n.d; hist = "compare " + n.d + " with " + m.d; if ((*n.e == *m.e) != w || (*m.e == *n.e) != w || (*n.e != *m.e) == w) fail(w ? "equal expressions are told apart" : "different expressions are called equal"); }
}
static void more(const string& mode) {
  if (mode == "collection") { subscripts(); ranges(); containers(); lists(); exists(); calls(); }
  if (mode == "function") functions();
  if (mode == "aggregate") aggregates();
  if (mode == "codec") codec();
  if (mode == "clone") clones();
}
