// Random histories of EitherOr / ErrorOr / StatusOr over tracked types, against a reference model; run under ASan+UBSan.
#include "common/base/Base.h"
#include "common/base/EitherOr.h"
#include "common/base/ErrorOr.h"
#include "common/base/Status.h"
#include "common/base/StatusOr.h"
#include <random>
#include <sys/wait.h>
#include <unistd.h>
using namespace nebula;
static std::mt19937_64 rng(1); static std::string cur; static bool inited = false;
static void die(const std::string& s) { printf("FAIL %s\n  history: %s\n", s.c_str(), cur.c_str()); fflush(stdout); _exit(1); }
static std::set<const void*>& live() { static std::set<const void*> s; return s; }
template <int K> struct Tr {   // a value with identity: long string payload + registration of its lifetime
  std::string v;
  explicit Tr(const std::string& x) : v(x) { reg(); }
  Tr(const Tr& r) : v(r.get()) { reg(); }
  Tr(Tr&& r) : v(r.get()) { r.v = "moved"; reg(); }
  Tr& operator=(const Tr& r) { v = r.get(); return *this; }
  Tr& operator=(Tr&& r) { if (&r != this) { v = r.get(); r.v = "moved"; } return *this; }
  ~Tr() { if (!live().erase(this)) die("destructor of an object that is not alive"); v.assign("dead dead dead dead dead"); }
  const std::string& get() const { if (!live().count(this)) die("use of an object that is not alive"); return v; }
  void reg() { if (!live().insert(this).second) die("construction over a live object"); }
};
struct LT : Tr<0> { using Tr::Tr; LT(const LT&) = default; LT(LT&&) = default; LT& operator=(const LT&) = default; LT& operator=(LT&&) = default; LT(int, const char* s) : Tr(std::string("conv") + s) {} LT(const struct LU& u); };
struct LU : Tr<1> { using Tr::Tr; };
struct RT : Tr<2> { using Tr::Tr; RT(const RT&) = default; RT(RT&&) = default; RT& operator=(const RT&) = default; RT& operator=(RT&&) = default; RT(const struct RU& u); long pad[5]; RT(short, short, const char* s) : Tr(std::string("conv") + s) {} };
struct RU : Tr<3> { using Tr::Tr; };
LT::LT(const LU& u) : Tr("from" + u.get()) {} RT::RT(const RU& u) : Tr("from" + u.get()) {}
static std::string val() { return "value-long-enough-to-be-on-the-heap-" + std::to_string(rng() % 1000); }
using E = EitherOr<LT, RT>; using E2 = EitherOr<LU, RU>;
struct M { int s = 0; std::string v; };
template <class X> static void chk(X& e, const M& m, const char* w) {
  if (e.isVoid() != (m.s == 0) || e.isLeftType() != (m.s == 1) || e.isRightType() != (m.s == 2)) die(std::string(w) + ": wrong state (void/left/right = " + std::to_string(e.isVoid()) + std::to_string(e.isLeftType()) + std::to_string(e.isRightType()) + ", expected state " + std::to_string(m.s) + ")");
  const X& c = e;
  if (m.s == 1 && (c.left().get() != m.v || e.left().get() != m.v)) die(std::string(w) + ": left value is " + e.left().get() + ", expected " + m.v);
  if (m.s == 2 && (c.right().get() != m.v || e.right().get() != m.v)) die(std::string(w) + ": right value is " + e.right().get() + ", expected " + m.v);
}
static void either(int steps) {
  { std::unique_ptr<E> e[4]; M m[4]; std::unique_ptr<E2> f[2]; M n[2];
    auto mk = [&](int i) { int k = rng() % 6; std::string v = val(); cur += "e" + std::to_string(i) + "=new(" + std::to_string(k) + "); ";
      switch (k) { case 0: e[i].reset(new E()); m[i] = M(); break; case 1: { LT x(v); e[i].reset(new E(x)); m[i] = {1, v}; if (x.get() != v) die("source changed"); break; } case 2: e[i].reset(new E(LT(v))); m[i] = {1, v}; break;
        case 3: { const RT x(v); e[i].reset(new E(x)); m[i] = {2, v}; break; } case 4: e[i].reset(new E(RT(v))); m[i] = {2, v}; break; case 5: e[i].reset(new E(short(1), short(2), v.c_str())); m[i] = {2, "conv" + v}; break; } };
    for (int i = 0; i < 4; i++) mk(i);
    for (int i = 0; i < 2; i++) { int k = rng() % 3; std::string v = val(); if (k == 0) f[i].reset(new E2()); else if (k == 1) f[i].reset(new E2(LU(v))); else f[i].reset(new E2(RU(v))); n[i] = {k, k ? v : ""}; }
    for (int t = 0; t < steps; t++) {
      int i = rng() % 4, j = rng() % 4, k = rng() % 2, op = rng() % 24; std::string v = val();
      cur += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "); ";
      switch (op) {
        case 0: *e[i] = *e[j]; m[i] = m[j]; break;
        case 1: { *e[i] = std::move(*e[j]); if (i != j) { m[i] = m[j]; m[j] = M(); } break; }
        case 2: { LT x(v); *e[i] = x; m[i] = {1, v}; if (x.get() != v) die("source changed"); break; } case 3: { const LT x(v); *e[i] = x; m[i] = {1, v}; break; } case 4: *e[i] = LT(v); m[i] = {1, v}; break;
        case 5: { RT x(v); *e[i] = x; m[i] = {2, v}; if (x.get() != v) die("source changed"); break; } case 6: { const RT x(v); *e[i] = x; m[i] = {2, v}; break; } case 7: *e[i] = RT(v); m[i] = {2, v}; break;
        case 8: if (m[i].s == 1) *e[i] = e[i]->left(); else if (m[i].s == 2) *e[i] = e[i]->right(); break;
        case 9: if (m[i].s == 1) *e[i] = static_cast<const E&>(*e[i]).left(); else if (m[i].s == 2) *e[i] = static_cast<const E&>(*e[i]).right(); break;
        case 10: if (m[i].s == 1) *e[i] = std::move(e[i]->left()); else if (m[i].s == 2) *e[i] = std::move(e[i]->right()); break;
        case 11: if (m[j].s == 1) { LT x = std::move(*e[j]).left(); if (x.get() != m[j].v) die("left() && gives another value"); m[j] = M(); } else if (m[j].s == 2) { RT x = std::move(*e[j]).right(); if (x.get() != m[j].v) die("right() && gives another value"); m[j] = M(); } break;
        case 12: { E x(*e[j]); chk(x, m[j], "copy"); break; } case 13: { E x(std::move(*e[j])); chk(x, m[j], "move"); m[j] = M(); break; }
        case 14: e[i].reset(); mk(i); break;
        case 15: *e[i] = *f[k]; m[i] = {n[k].s, n[k].s ? "from" + n[k].v : ""}; break;
        case 16: *e[i] = std::move(*f[k]); m[i] = {n[k].s, n[k].s ? "from" + n[k].v : ""}; n[k] = M(); break;
        case 17: { E x(*f[k]); M w{n[k].s, n[k].s ? "from" + n[k].v : ""}; chk(x, w, "converting copy"); break; } case 18: { E x(std::move(*f[k])); M w{n[k].s, n[k].s ? "from" + n[k].v : ""}; chk(x, w, "converting move"); n[k] = M(); break; }
        case 19: *e[i] = LU(v); m[i] = {1, "from" + v}; break; case 20: *e[i] = RU(v); m[i] = {2, "from" + v}; break;
        case 21: { EitherOr<int32_t, uint32_t> a(kConstructLeft, 12), b(kConstructRight, 13); if (!a.isLeftType() || a.left() != 12 || !b.isRightType() || b.right() != 13u) die("tagged construction"); break; }
        case 22: { const LT* a = nullptr; if (m[i].s == 1) { e[i]->left().v += "+"; m[i].v += "+"; } else if (m[i].s == 2) { e[i]->right().v += "+"; m[i].v += "+"; } (void)a; break; }
        case 23: if (rng() % 4 == 0) { k = rng() % 2; *f[0] = *f[1]; n[0] = n[1]; } break;
      }
      for (int q = 0; q < 4; q++) chk(*e[q], m[q], ("e" + std::to_string(q)).c_str()); for (int q = 0; q < 2; q++) chk(*f[q], n[q], "source");
    } }
  if (!live().empty()) die("objects never destroyed: " + std::to_string(live().size()));
}
enum class Code : int { A = 0 };
static void errors(int steps) {
  using C = ErrorOr<Code, RT>; C e[3]; M m[3]; int code[3] = {};
  for (int t = 0; t < steps; t++) {
    int i = rng() % 3, j = rng() % 3, op = rng() % 7; std::string v = val(); int c = (int)rng(); cur += "err" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "); ";
    switch (op) { case 0: e[i] = static_cast<Code>(c); m[i] = {1, ""}; code[i] = c; break; case 1: e[i] = RT(v); m[i] = {2, v}; break; case 2: e[i] = e[j]; m[i] = m[j]; code[i] = code[j]; break;
      case 3: e[i] = std::move(e[j]); if (i != j) { m[i] = m[j]; code[i] = code[j]; m[j] = M(); } break; case 4: if (m[i].s == 2) { RT x = value(std::move(e[i])); if (x.get() != m[i].v) die("value(&&)"); m[i] = M(); } break;
      case 5: { C x(e[j]); if (ok(x) != (m[j].s != 1)) die("copy of ErrorOr"); break; } case 6: { C x(std::move(e[j])); if (ok(x) != (m[j].s != 1)) die("move of ErrorOr"); m[j] = M(); break; } }
    for (int q = 0; q < 3; q++) { const C& c = e[q]; if (ok(c) != (m[q].s != 1)) die("ok() is wrong"); if (hasValue(c) != (m[q].s == 2)) die("hasValue() is wrong"); if (m[q].s == 1 && static_cast<int>(error(c)) != code[q]) die("error() is wrong");
      if (m[q].s == 2 && (value(c).get() != m[q].v || value(e[q]).get() != m[q].v)) die("value() is wrong"); } }
}
#ifdef STATUSOR
static void statusor(int steps) {
  { using S = StatusOr<LT>; using S2 = StatusOr<LU>; S e[3]; M m[3];   // 1 status, 2 value
  for (int t = 0; t < steps; t++) {
    int i = rng() % 3, j = rng() % 3, op = rng() % 16; std::string v = val(); cur += "so" + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "); ";
    switch (op) { case 0: e[i] = Status::Error(folly::StringPiece(v)); m[i] = {1, v}; break; case 1: { const Status s = Status::Error(folly::StringPiece(v)); e[i] = s; m[i] = {1, v}; if (s.toString() != v) die("status changed"); break; }
      case 2: e[i] = LT(v); m[i] = {2, v}; break; case 3: { const LT x(v); e[i] = x; m[i] = {2, v}; if (x.get() != v) die("source changed"); break; }
      case 4: e[i] = e[j]; m[i] = m[j]; break; case 5: e[i] = std::move(e[j]); if (i != j) { m[i] = m[j]; m[j] = M(); } break;
      case 6: { S x(e[j]); e[i] = x; m[i] = m[j]; break; } case 7: { S x(std::move(e[j])); M w = m[j]; m[j] = M(); e[i] = std::move(x); m[i] = w; break; }
      case 8: if (m[i].s == 2) e[i] = e[i].value(); break; case 9: if (m[i].s == 2) e[i] = std::move(e[i].value()); break; case 10: if (m[i].s == 1) e[i] = e[i].status(); break;
      case 11: if (m[i].s == 2) { LT x = std::move(e[i]).value(); if (x.get() != m[i].v) die("value() &&"); m[i] = M(); } break; case 12: if (m[i].s == 1) { Status s = std::move(e[i]).status(); if (s.toString() != m[i].v) die("status() &&"); m[i] = M(); } break;
      case 13: { S2 x{LU(v)}; if (rng() % 2) x = Status::Error(folly::StringPiece(v)); bool b = x.ok(); e[i] = std::move(x); m[i] = b ? M{2, "from" + v} : M{1, v}; break; }
      case 14: { S2 x{LU(v)}; if (rng() % 2) x = Status::Error(folly::StringPiece(v)); bool b = x.ok(); S y(x); e[i] = y; m[i] = b ? M{2, "from" + v} : M{1, v}; if (x.ok() != b) die("converted source changed"); break; }
      case 15: { if (m[i].s == 1) { Status s = Status::from(e[i]); if (s.toString() != m[i].v) die("Status::from"); } break; } }
    for (int q = 0; q < 3; q++) { const S& c = e[q]; if (c.ok() != (m[q].s == 2) || static_cast<bool>(c) != c.ok()) die("ok() is wrong"); if (m[q].s == 2 && (c.value().get() != m[q].v || e[q].value().get() != m[q].v)) die("value() is wrong"); if (m[q].s == 1 && c.status().toString() != m[q].v) die("status() is wrong"); } } }
  if (!live().empty()) die("objects never destroyed");
}
#endif
template <class F> static void mustAbort(const char* w, F f) {
  fflush(stdout); pid_t p = fork(); if (p == 0) { alarm(10); freopen("/dev/null", "w", stderr); f(); _exit(0); } int st; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("FAIL %s does not abort\n", w); exit(1); }
}
int main(int c, char** v) {
  int n = c > 1 ? atoi(v[1]) : 3000;
  auto guarded = [&](const char* w, void (*f)(int)) {
    for (int lo = 0; lo < n; lo += 500) { fflush(stdout); pid_t p = fork(); if (p == 0) { alarm(60); for (int s = lo; s < std::min(lo + 500, n); s++) { rng.seed(s); cur = std::string(w) + " seed " + std::to_string(s) + ": "; f(1 + s % 30); } fflush(stdout); exit(0); }
      int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { printf("FAIL %s: histories %d..%d ended with %s %d\n", w, lo, lo + 499, WIFSIGNALED(st) ? "signal" : "exit code", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); exit(1); } } };
#ifdef STATUSOR
  guarded("StatusOr", statusor);
  mustAbort("status() of a value", [] { StatusOr<LT> x{LT("a")}; x.status(); });
#else
  guarded("EitherOr", either); guarded("ErrorOr", errors);
  E l{LT("a")}, r{RT("b")}, z;
  mustAbort("left() of a right", [&] { r.left(); }); mustAbort("right() of a left", [&] { l.right(); }); mustAbort("left() of a void", [&] { z.left(); }); mustAbort("right() of a void", [&] { z.right(); });
  mustAbort("const left() of a right", [&] { static_cast<const E&>(r).left(); }); mustAbort("const right() of a left", [&] { static_cast<const E&>(l).right(); });
  mustAbort("left() && of a right", [&] { std::move(r).left(); }); mustAbort("right() && of a left", [&] { std::move(l).right(); });
#endif
  printf("ok %d histories\n", n);
}
