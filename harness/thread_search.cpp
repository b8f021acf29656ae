// NamedThread, Nominator, gettid on real threads.
#include "common/base/Base.h"
#include "common/thread/NamedThread.h"
#include <thread>
#include <atomic>
using nebula::thread::NamedThread;
static int bad = 0; static void fail(const char* m, const std::string& a = "", const std::string& b = "") { printf("FAIL %s: '%s' '%s'\n", m, a.c_str(), b.c_str()); bad = 1; }
static std::string now() { char b[64] = {0}; prctl(PR_GET_NAME, b, 0, 0, 0); return b; }
static std::string cut(const std::string& s) { return s.substr(0, 15); }
static void nom(const std::vector<std::string>& ns) {
  std::string before = now();
  for (auto& a : ns) {
    { NamedThread::Nominator n(a); if (now() != cut(a)) fail("a Nominator does not name the thread", now(), a);
      for (auto& b : ns) { { NamedThread::Nominator m(b); if (now() != cut(b)) fail("an inner Nominator does not name the thread", now(), b); if (b.size() % 2) prctl(PR_SET_NAME, "zzz", 0, 0, 0); } if (now() != cut(a)) fail("the inner Nominator does not restore the name", now(), a); }
      std::string g = "x"; NamedThread::Nominator::get(g); if (g != cut(a)) fail("get", g, a); }
    if (now() != before) fail("the name is not restored", now(), before);
    NamedThread::Nominator::set(a); if (now() != cut(a)) fail("set", now(), a); NamedThread::Nominator::set(before);
  }
}
int main() {
  std::vector<std::string> ns = {"a", "worker", "fourteen-chars", "fifteen-charsXX", "sixteen-charsXXX", "a-much-longer-thread-name-than-the-kernel-keeps", "with space", ""};
  NamedThread::Nominator::set("main-thread"); nom(ns); std::thread([&] { NamedThread::Nominator::set("other"); nom(ns); }).join(); if (now() != "main-thread") fail("another thread was renamed", now());
  for (auto& a : ns) for (int k = 0; k < 20; k++) {
    std::atomic<int> runs{0}; std::string seen; int x = 0; pid_t t1 = 0, t2 = 0, t3 = 0; std::atomic<bool> go{false};
    auto* name = new std::string(a);
    NamedThread t(*name, [&](int d, std::string s) { while (!go) std::this_thread::yield(); runs++; seen = now(); x = d + (int)s.size(); t1 = nebula::thread::gettid(); t2 = syscall(SYS_gettid); t3 = nebula::thread::gettid(); }, 7, std::string("abc"));
    name->assign(name->size(), '#'); delete name; go = true; t.join();
    if (runs != 1 || x != 10) fail("the body does not run exactly once with its arguments", a); if (seen != (a.empty() ? "main-thread" : cut(a))) fail("the thread has another name", seen, a);
    if (t1 != t2 || t3 != t2) fail("gettid is not the id of the calling thread", std::to_string(t1), std::to_string(t2));
    if (nebula::thread::gettid() != (pid_t)syscall(SYS_gettid)) fail("gettid of the main thread", std::to_string(nebula::thread::gettid())); if (now() != "main-thread") fail("the creator was renamed", now());
  }
  NamedThread e; NamedThread m("moved", [] {}); e = std::move(m); if (!e.joinable() || m.joinable()) fail("move"); e.join();
  if (!bad) printf("OK\n"); return bad;
}
