// Random operation sequences on cords of several block sizes, compared with std::string; run under ASan+UBSan.
#include "common/base/Base.h"
#include "common/base/Cord.h"
#include <random>
#include <sys/wait.h>
#include <unistd.h>
using namespace nebula;
static std::mt19937_64 rng(1);
static std::string cur;
static void die(const std::string& s) { printf("FAIL %s\n  sequence: %s\n", s.c_str(), cur.c_str()); fflush(stdout); _exit(1); }
template <class T> static void put(Cord& c, std::string& m, T v) { Cord& r = c << v; if (&r != &c) die("<< returns another cord"); m.append(reinterpret_cast<char*>(&v), sizeof(T)); }
static std::string bytes(size_t n) { std::string s(n, 0); for (auto& ch : s) ch = rng() % 7 == 0 ? 0 : (char)rng(); return s; }
static void check(Cord& c, const std::string& m, const std::string& w) {
  if (c.size() != m.size()) die(w + ": size() = " + std::to_string(c.size()) + ", expected " + std::to_string(m.size()));
  if (c.empty() != m.empty()) die(w + ": empty() is wrong");
  if (c.str() != m) die(w + ": str() differs from the bytes written (" + std::to_string(m.size()) + " bytes)");
  std::string pre = "pre", q = pre; if (c.appendTo(q) != m.size() || q != pre + m) die(w + ": appendTo() is wrong");
  std::string v; int calls = 0; bool ok = c.applyTo([&](const char* p, int32_t n) { if (n <= 0) die(w + ": applyTo passes an empty piece"); v.append(p, n); calls++; return true; });
  if (!ok || v != m) die(w + ": applyTo visits other bytes than the content");
  if (calls > 0) { int stop = rng() % calls, k = 0; std::string x; bool r = c.applyTo([&](const char* p, int32_t n) { x.append(p, n); return k++ < stop; });
    if (r || k != stop + 1 || m.compare(0, x.size(), x) != 0) die(w + ": applyTo does not stop when the visitor says so"); }
}
static void seq(int seed, int steps) {
  rng.seed(seed); int sizes[] = {9, 10, 12, 16, 24, 31, 64, 1024, 1024};
  std::vector<std::unique_ptr<Cord>> cs; std::vector<std::string> ms; std::vector<int> bs;
  cur = "";
  for (int i = 0; i < 4; i++) { int b = sizes[rng() % 9]; bs.push_back(b); cs.emplace_back(b == 1024 && rng() % 2 ? new Cord() : new Cord(b)); ms.push_back(""); cur += "c" + std::to_string(i) + "=Cord(" + std::to_string(b) + "); "; }
  for (int s = 0; s < steps; s++) {
    int i = rng() % 4, op = rng() % 20; Cord& c = *cs[i]; std::string& m = ms[i]; std::string w = "c" + std::to_string(i);
    int C = bs[i] - 8; 
    if (m.size() > 20000) op = 18;
    switch (op) {
      case 0: cur += w + "<<int8; "; put(c, m, (int8_t)rng()); break; case 1: cur += w + "<<uint8; "; put(c, m, (uint8_t)rng()); break;
      case 2: cur += w + "<<int16; "; put(c, m, (int16_t)rng()); break; case 3: cur += w + "<<uint16; "; put(c, m, (uint16_t)rng()); break;
      case 4: cur += w + "<<int32; "; put(c, m, (int32_t)rng()); break; case 5: cur += w + "<<uint32; "; put(c, m, (uint32_t)rng()); break;
      case 6: cur += w + "<<int64; "; put(c, m, (int64_t)rng()); break; case 7: cur += w + "<<uint64; "; put(c, m, (uint64_t)rng()); break;
      case 8: cur += w + "<<char; "; put(c, m, (char)rng()); break; case 9: cur += w + "<<bool; "; put(c, m, (bool)(rng() & 1)); break;
      case 10: cur += w + "<<float; "; put(c, m, (float)rng()); break; case 11: cur += w + "<<double; "; put(c, m, (double)rng()); break;
      case 12: { size_t n = rng() % 3 ? (size_t)C * (rng() % 4) + rng() % 2 : rng() % 40; std::string x = bytes(n); cur += w + "<<string(" + std::to_string(n) + "); "; c << x; m += x; break; }
      case 13: { std::string x = bytes(rng() % 30); for (auto& ch : x) if (!ch) ch = 1; cur += w + "<<cstr(" + std::to_string(x.size()) + "); "; c << x.c_str(); m += x; break; }
      case 14: case 15: { size_t n = rng() % 3 == 0 ? (size_t)(C - (int)(m.size() % C)) + (rng() % 3) * C : rng() % (3 * C + 2); std::string x = bytes(n); cur += w + ".write(" + std::to_string(n) + "); "; if (&c.write(x.data(), n) != &c) die("write returns another cord"); m += x; break; }
      case 16: case 17: { int j = rng() % 4; cur += w + "<<c" + std::to_string(j) + "; "; std::string x = ms[j]; c << *cs[j]; m += x; check(*cs[j], ms[j], "source"); break; }
      case 18: if (rng() % 3 == 0) { cur += w + ".clear(); "; c.clear(); m.clear(); } break;
      case 19: c.write(nullptr, 0); break;
    }
    check(c, m, cur.size() > 200 ? "after " + w : w);
  }
}
int main(int c, char** v) {
  int n = c > 1 ? atoi(v[1]) : 3000;
  // every sequence in a child process: crashes and hangs are attributed to a sequence
  for (int base = 0; base < n; base += 200) {
    for (int half = 0; half < 2; half++) {
      int lo = half == 0 ? base : base, hi = std::min(base + 200, n);
      pid_t p = fork();
      if (p == 0) { alarm(60); for (int s = lo; s < hi; s++) seq(s, 1 + s % 40); fflush(stdout); exit(0); }
      int st; waitpid(p, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
      if (half == 0) {
        for (int s = lo; s < hi; s++) { pid_t q = fork(); if (q == 0) { alarm(10); seq(s, 1 + s % 40); exit(0); } int st2; waitpid(q, &st2, 0);
          if (!(WIFEXITED(st2) && WEXITSTATUS(st2) == 0)) { printf("FAIL sequence %d (%s %d)\n", s, WIFSIGNALED(st2) ? "signal" : "exit", WIFSIGNALED(st2) ? WTERMSIG(st2) : WEXITSTATUS(st2)); return 1; } }
        printf("FAIL a batch of sequences (leak or hang)\n"); return 1;
      }
    }
  }
  printf("ok %d sequences\n", n);
}
