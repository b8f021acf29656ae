// Random histories of Status against a reference (code, message); ASan+UBSan.
#include "common/base/Base.h"
#include "common/base/Status.h"
#include <random>
using namespace nebula;
static std::mt19937_64 rng(1);
static void die(const std::string& s) { printf("FAIL %s\n", s.c_str()); fflush(stdout); _exit(1); }
struct Kind { const char* name; Status (*make)(folly::StringPiece); Status (*make0)(); Status (*fmt)(const char*); bool (Status::*is)() const; Status::Code code; };
#define K(N) { #N, [](folly::StringPiece m) { return Status::N(m); }, [] { return Status::N(); }, [](const char* m) { return Status::N("%s", m); }, &Status::is##N, Status::k##N }
static Kind kinds[] = { K(Inserted), K(Error), K(NoSuchFile), K(NotSupported), K(SyntaxError), K(SemanticError), K(StatementEmpty), K(KeyNotFound), K(PartialSuccess), K(SpaceNotFound), K(HostNotFound), K(TagNotFound), K(EdgeNotFound), K(UserNotFound), K(IndexNotFound), K(GroupNotFound), K(ZoneNotFound), K(LeaderChanged), K(Balanced), K(PartNotFound), K(ListenerNotFound), K(PermissionError) };
static const int N = sizeof(kinds) / sizeof(kinds[0]);
struct M { int k = -1; std::string m; };
static void chk(const Status& s, const M& m, const std::string& w) {
  std::string n = m.k < 0 ? "OK" : kinds[m.k].name;
  if (s.ok() != (m.k < 0)) die(w + ": ok() of " + n); if (s.code() != (m.k < 0 ? Status::kOk : kinds[m.k].code)) die(w + ": code() of " + n);
  if (s.message() != m.m) die(w + ": message() of " + n + " with " + std::to_string(m.m.size()) + " bytes");
  std::string t = m.k < 0 ? "OK" : n == "Error" ? m.m : n + ": " + m.m; if (s.toString() != t) die(w + ": toString() = " + s.toString().substr(0, 80) + ", expected " + t.substr(0, 80));
  for (int i = 0; i < N; i++) if ((s.*kinds[i].is)() != (i == m.k)) die(w + ": is" + kinds[i].name + " of " + n);
}
int main(int c, char** v) {
  int n = c > 1 ? atoi(v[1]) : 20000; Status s[4]; M m[4];
  for (int t = 0; t < n; t++) {
    int i = rng() % 4, j = rng() % 4, k = rng() % N, op = rng() % 9;
    size_t len = rng() % 20 == 0 ? 65536 - rng() % 300 + (rng() % 200) : rng() % 3 ? rng() % 60 : 0; if (rng() % 2000 == 0) len = 65536 * 2 + rng() % 100;
    std::string x(len, 0); for (auto& ch : x) ch = 'a' + rng() % 26; if (len > 3 && rng() % 4 == 0) x[1] = 0;
    std::string cut = x.substr(0, 65535), w = "step " + std::to_string(t) + " op " + std::to_string(op);
    switch (op) {
      case 0: s[i] = kinds[k].make(x); m[i] = {k, cut}; break; case 1: s[i] = kinds[k].make0(); m[i] = {k, ""}; break;
      case 2: s[i] = s[j]; m[i] = m[j]; break; case 3: s[i] = std::move(s[j]); if (i != j) { m[i] = m[j]; m[j] = M(); } break;
      case 4: { Status y(s[j]); chk(y, m[j], w); s[i] = std::move(y); M q = m[j]; m[i] = q; break; } case 5: { Status y(std::move(s[j])); M q = m[j]; m[j] = M(); chk(y, q, w); s[i] = y; m[i] = q; break; }
      case 6: s[i] = Status::OK(); m[i] = M(); break; case 7: s[i] = Status::from(s[j]); m[i] = m[j]; break;
      case 8: { std::string y = x.substr(0, 200); y = y.c_str(); s[i] = kinds[k].fmt(y.c_str()); m[i] = {k, y}; break; }
    }
    for (int q = 0; q < 4; q++) { chk(s[q], m[q], w); int p = rng() % 4; bool eq = m[q].k == m[p].k; if ((s[q] == s[p]) != eq || (s[q] != s[p]) == eq) die(w + ": == is wrong"); }
  }
  printf("ok %d\n", n);
}
