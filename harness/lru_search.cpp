// Histories of the cache against a model: a list of pairs, most recently used first, per bucket; then threads on one cache.
#include "common/base/Base.h"
#include "common/base/StatusOr.h"
#include <boost/optional.hpp>
#include <boost/none.hpp>
#include <list>
#include <random>
#include <thread>
#include <sys/wait.h>
#include "common/base/ConcurrentLRUCache.h"
using namespace nebula;
struct Model { size_t cap; std::list<std::pair<std::string, std::string>> l; uint64_t total = 0, hits = 0, evicts = 0;
    std::list<std::pair<std::string, std::string>>::iterator at(const std::string& k) { for (auto i = l.begin(); i != l.end(); ++i) if (i->first == k) return i; return l.end(); }
    void insert(const std::string& k, const std::string& v) { auto i = at(k); if (i != l.end()) l.erase(i); else if (l.size() >= cap) { l.pop_back(); evicts++; } l.push_front({k, v}); }
    const std::string* get(const std::string& k) { total++; auto i = at(k); if (i == l.end()) return nullptr; hits++; l.splice(l.begin(), l, i); return &l.front().second; }
    void evict(const std::string& k) { auto i = at(k); if (i != l.end()) { l.erase(i); evicts++; } }
    void clear() { l.clear(); total = hits = evicts = 0; } };
static std::string h;
#define BAD(...) do { printf("FAIL "); printf(__VA_ARGS__); printf(" [after %s]\n", h.c_str()); return 1; } while (0)
template <class F> static bool dies(F f) { fflush(stdout); pid_t c = fork(); if (!c) { fclose(stderr); f(); _exit(0); } int s; waitpid(c, &s, 0); return !(WIFEXITED(s) && WEXITSTATUS(s) == 0); }
int main(int, char** v) {
    long runs = atol(v[1]); FLAGS_minloglevel = 3; std::mt19937_64 g(getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1); h = "nothing";
    auto key = [&](int n) { return (g() % 2 ? std::string("k") : std::string("a key that is not short ")) + std::to_string(g() % n); };
    if (!dies([] { ConcurrentLRUCache<int, int> c(4, 2); })) BAD("a capacity of 4 for 4 buckets is taken");
    for (long r = 0; r < runs; r++) {   // one LRU
        size_t cap = 1 + g() % 4; LRU<std::string, std::string> c(cap); Model m{cap}; h = "LRU(" + std::to_string(cap) + ")";
        if (c.capacity() != cap) BAD("capacity() is %zu", c.capacity());
        for (int s = g() % 14; s-- > 0;) {
            std::string k = key(3), val = "value " + std::to_string(g() % 1000); int o = g() % 12;
            if (o < 5) { h += " insert(" + k + ", " + val + ")"; m.insert(k, val); c.insert(std::string(k), std::string(val)); }
            else if (o < 8) { h += " get(" + k + ")"; auto x = c.get(k); auto* y = m.get(k); if (x.is_initialized() != (y != nullptr) || (y && *y != *x)) BAD("get(%s) gives %s", k.c_str(), x ? x->c_str() : "nothing"); }
            else if (o < 9) { h += " evict(" + k + ")"; c.evict(k); m.evict(k); }
            else if (o < 10 && g() % 3 == 0) { h += " clear()"; c.clear(); m.clear(); }
            for (int t = 0; t < 3; t++) for (auto p : {"k", "a key that is not short "}) { std::string q = p + std::to_string(t); if (c.contains(q) != (m.at(q) != m.l.end())) BAD("contains(%s) is %d", q.c_str(), int(c.contains(q))); }
            if (c.size() != m.l.size() || c.empty() != m.l.empty()) BAD("size() is %zu and not %zu", c.size(), m.l.size()); if (c.total() != m.total || c.hits() != m.hits || c.evicts() != m.evicts) BAD("the counters are %lu, %lu, %lu", c.total(), c.hits(), c.evicts());
        }
    }
    for (long r = 0; r < runs / 4; r++) {   // buckets
        uint32_t e = g() % 3; size_t n = 1 << e, cap = n + 1 + g() % 9; ConcurrentLRUCache<std::string, std::string> c(cap, e); std::vector<Model> m(n); h = "ConcurrentLRUCache(" + std::to_string(cap) + ", " + std::to_string(e) + ")";
        for (size_t i = 0; i < n; i++) m[i].cap = i + 1 < n ? cap / n : cap - (n - 1) * (cap / n);
        for (int s = g() % 30; s-- > 0;) {
            std::string k = key(6), val = "value " + std::to_string(g() % 1000); int32_t hint = g() % 2 ? -1 - int(g() % 3) : int(g() % 9); auto& b = m[hint >= 0 ? hint % n : std::hash<std::string>()(k) % n]; int o = g() % 14; std::string a = "(" + k + ", hint " + std::to_string(hint) + ")";
            if (o < 4) { h += " insert" + a; b.insert(k, val); c.insert(k, val, hint); }
            else if (o < 7) { h += " get" + a; auto x = c.get(k, hint); auto* y = b.get(k); if (x.ok() != (y != nullptr) || (y && x.value() != *y)) BAD("get%s gives %s", a.c_str(), x.ok() ? x.value().c_str() : "nothing"); }
            else if (o < 10) { h += " putIfAbsent" + a; auto x = c.putIfAbsent(k, val, hint); auto* y = b.get(k); if (y ? !x.ok() || x.value() != *y : x.ok() || !x.status().isInserted()) BAD("putIfAbsent%s", a.c_str()); if (!y) b.insert(k, val); }
            else if (o < 11) { h += " evict" + a; c.evict(k, hint); b.evict(k); }
            else if (o == 11 && g() % 4 == 0) { h += " clear()"; c.clear(); for (auto& x : m) x.clear(); }
            uint64_t t = 0, hi = 0, ev = 0; for (auto& x : m) t += x.total, hi += x.hits, ev += x.evicts; if (c.total() != t || c.hits() != hi || c.evicts() != ev) BAD("the counters are %lu, %lu, %lu", c.total(), c.hits(), c.evicts());
            for (int q = 0; q < 6; q++) { std::string z = "k" + std::to_string(q); auto& y = m[hint >= 0 ? hint % n : std::hash<std::string>()(z) % n]; if (c.contains(z, hint) != (y.at(z) != y.l.end())) BAD("contains(%s)", z.c_str()); }
        }
    }
    h = "threads"; 
    for (int r = 0; r < 20; r++) {   // every key is put by exactly one of the threads
        ConcurrentLRUCache<int, int> c(100000, 2); std::atomic<int> put{0}; std::vector<std::thread> ts; for (int t = 0; t < 6; t++) ts.emplace_back([&, t] { for (int i = 0; i < 300; i++) { auto x = c.putIfAbsent(i, t); if (!x.ok()) put++; c.get(i); c.insert(1000 + i, t); if (i % 7 == 0) c.evict(1000 + i); } });
        for (auto& t : ts) t.join(); if (put != 300) BAD("300 keys were put %d times by 6 threads", put.load()); if (c.total() != 6 * 600) BAD("%lu requests counted instead of %d", c.total(), 6 * 600);
    }
    printf("no counterexample in %ld histories\n", runs); return 0;
}
