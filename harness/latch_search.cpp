// Concrete stress of Latch (and with -DBARRIER of Barrier): real threads, spurious wake-ups from a chaos thread, oracle counters, watchdog.
#include "common/base/Base.h"
#define private public
#include "common/concurrent/Latch.h"
#include "common/concurrent/Barrier.h"
#undef private
#include <thread>
#include <atomic>
#include <unistd.h>
#include <signal.h>
#ifdef DELAY
// widen the windows: after an unlock a thread may pause, and a wait may wake up for no reason
#include <dlfcn.h>
static thread_local unsigned dl = 0; static std::atomic<unsigned> dseed{1};
static unsigned dnext() { if (!dl) dl = dseed.fetch_add(2654435761u) | 1; dl = dl * 1664525u + 1013904223u; return dl >> 16; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m); if (dnext() % 8 == 0) usleep(dnext() % 800); return r; }
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { static auto f = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait"); if (dnext() % 8 == 0) { pthread_mutex_unlock(m); return pthread_mutex_lock(m); } return f(c, m); }
#endif
using namespace nebula::concurrent;
static const char* doing = "";
static void fail(const char* m, size_t a = 0, size_t b = 0) { printf("FAIL %s: %s (%zu, %zu)\n", doing, m, a, b); fflush(stdout); _exit(1); }
static void hang(int) { char m[200]; strcpy(m, "FAIL "); strcat(m, doing); strcat(m, ": a thread is blocked for ever\n"); if (write(1, m, strlen(m))) {} _exit(1); }
static void guard(const char* d) { doing = d; alarm(10); }
static uint64_t rs = 88172645463325252ull; static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void jit(unsigned k) { if (k % 3 == 0) std::this_thread::yield(); else if (k % 3 == 1) usleep(k % 200); }
struct Chaos { std::condition_variable& c; std::atomic<bool> stop{false}; std::thread t; explicit Chaos(std::condition_variable& c_) : c(c_), t([this] { while (!stop) { c.notify_all(); usleep(20); } }) {} ~Chaos() { stop = true; t.join(); } };
#ifndef BARRIER
static void latch(int it) {
  guard("Latch constructor"); try { Latch l(0); fail("Latch(0) does not throw"); } catch (const std::invalid_argument&) {}
  for (size_t n = 1; n <= 4; n++) {
    guard("Latch, one thread"); Latch l(n);
    for (size_t k = 0; k < n; k++) { if (l.isReady()) fail("ready too early", n, k); if (l.counter_ != n - k) fail("counter", n, l.counter_); l.down(); }
    if (!l.isReady()) fail("not ready after all", n); l.wait();
    for (int k = 0; k < 3; k++) {
      try { l.down(); fail("down on zero does not throw", n, k); } catch (const std::runtime_error&) {}
      try { l.downWait(); fail("downWait on zero does not throw", n, k); } catch (const std::runtime_error&) {}
      if (!l.isReady()) fail("not ready any more", n, k); l.wait();
    }
    Latch l2(1); l2.downWait(); if (!l2.isReady()) fail("not ready after downWait");
  }
  for (int r = 0; r < it; r++) {
    size_t n = 1 + rnd() % 4, m = 1 + rnd() % 3; bool dw = rnd() % 2; guard(dw ? "Latch::downWait, threads" : "Latch::down/wait, threads");
    Latch l(n); std::atomic<size_t> in{0}; size_t plain[4] = {0, 0, 0, 0}; std::vector<std::thread> ts;
    { Chaos ch(l.cond_);
      for (size_t k = 0; k < m; k++) ts.emplace_back([&, s = rnd()] { jit(s % 1000); if (s & 1024) { while (!l.isReady()) std::this_thread::yield(); } else l.wait(); if (in != n) fail("a waiter got through before every down", n, in); for (size_t i = 0; i < n; i++) if (plain[i] != i + 1) fail("work before down is not visible after wait", i, plain[i]); });
      for (size_t k = 0; k < n; k++) ts.emplace_back([&, k, s = rnd()] { jit(s % 1000); plain[k] = k + 1; in++; if (dw) { l.downWait(); if (in != n) fail("downWait got through before every down", n, in); } else l.down(); });
      if (r % 2) usleep(300);
      for (auto& t : ts) t.join(); }
    if (!l.isReady()) fail("not ready at the end");
    // without chaos: a lost wake-up shows as a hang
    Latch q(1); std::vector<std::thread> w; for (size_t k = 0; k < 3; k++) w.emplace_back([&] { q.wait(); }); if (r % 4 == 0) usleep(1000); if (dw) q.downWait(); else q.down(); for (auto& t : w) t.join();
    Latch q2(2); std::thread a([&] { q2.downWait(); }), b([&] { q2.wait(); }); if (r % 4 == 0) usleep(1000); if (r % 8 < 4) q2.downWait(); else q2.down(); a.join(); b.join();
  }
}
#else
static void barrier(int it) {
  guard("Barrier constructor"); try { Barrier b(0); fail("Barrier(0) does not throw"); } catch (const std::invalid_argument&) {}
  { int c = 0; Barrier b(1, [&] { c++; }); for (int k = 1; k < 10; k++) { b.wait(); if (c != k) fail("a barrier of one does not complete at once", k, c); } }
  for (int r = 0; r < it; r++) {
    size_t n = 1 + rnd() % 4, rounds = 1 + rnd() % 5, mult = 1 + (rnd() % 3 == 0); if (mult > 1) rounds = 1;  bool cb = rnd() % 4, chaos = r % 2; guard("Barrier::wait, threads");
    // calls: waits started; phase: completed phases. A completion may only run when calls >= n * (phase + 1)
    std::atomic<size_t> calls{0}, phase{0}; std::vector<size_t> plain(n * mult, 0); std::vector<std::thread> ts;
    Barrier b(n, !cb ? std::function<void()>() : [&] { if (calls < n * (phase + 1)) fail("the completion runs before all have arrived", calls, phase); size_t c = calls; usleep(50); if (mult == 1 && calls != c) fail("a thread got through before the completion had ended", c, calls); phase++; });
    std::unique_ptr<Chaos> ch; if (chaos) ch.reset(new Chaos(b.cond_));
    for (size_t k = 0; k < n * mult; k++) ts.emplace_back([&, k, s = rnd()] {
      for (size_t i = 0; i < rounds; i++) {
        jit((s >> i) % 500); plain[k] = i + 1; calls++; b.wait();
        if (calls < n * (mult == 1 ? 2 * i + 1 : 1)) fail("wait returns before all have arrived", calls, i);
        if (mult > 1) continue;
        if (cb && phase < 2 * i + 1) fail("wait returns before the completion has run", phase, i);
        for (size_t q = 0; q < n; q++) if (plain[q] != i + 1) fail("work before wait is not visible after it", q, plain[q]);
        calls++; b.wait();
      } });
    for (auto& t : ts) t.join();
    ch.reset(); size_t all = n * mult * rounds * (mult == 1 ? 2 : 1);
    if (cb && phase != all / n) fail("number of completions", phase, all / n);
    if (b.ages_ != b.counter_ || b.counter_ != n) fail("the barrier is not reset after a full round", b.ages_, n);
  }
}
#endif
int main(int argc, char** argv) {
  google::InitGoogleLogging(argv[0]); FLAGS_logtostderr = true; signal(SIGALRM, hang); int it = argc > 1 ? atoi(argv[1]) : 300; const char* s = getenv("VERIF_SEED"); if (s) rs += atoi(s) * 7919;
#ifndef BARRIER
  latch(it);
#else
  barrier(it);
#endif
  printf("OK\n"); return 0;
}
