// Every outcome of every draw is enumerated: the exact probability of each value to be in the sample is computed and compared with asked/seen.
#include "common/base/Base.h"
#include "common/algorithm/ReservoirSampling.h"
static std::vector<std::pair<uint64_t, uint64_t>> path; static size_t pos; static bool unbounded;
static uint64_t choose(uint64_t m) {
    if (m == 0) return 0;
    if (m > 1000) { unbounded = true; return 0; }
    if (pos == path.size()) path.push_back({0, m});
    return path[pos++].first;
}
namespace folly {
uint64_t Random::rand64() { unbounded = true; return 0; }
uint32_t Random::rand32() { unbounded = true; return 0; }
uint64_t Random::rand64(uint64_t m) { return choose(m); }
uint32_t Random::rand32(uint32_t m) { return choose(m); }
uint64_t Random::rand64(uint64_t a, uint64_t b) { return a >= b ? 0 : a + choose(b - a); }
uint32_t Random::rand32(uint32_t a, uint32_t b) { return a >= b ? 0 : a + choose(b - a); }
double Random::randDouble01() { unbounded = true; return 0; }
double Random::randDouble(double a, double) { unbounded = true; return a; }
}
int main(int, char** v) {
    int N = atoi(v[1]);
    for (int num = 0; num <= 4; num++) for (int n = 0; n <= N; n++) {
        std::vector<double> in(n, 0.0); path.clear(); long runs = 0;
        for (;;) {
            pos = 0; nebula::algorithm::ReservoirSampling<std::string> r(num); double pr = 1; size_t before = 0;
            std::vector<std::string> have;
            for (int i = 0; i < n; i++) {
                std::string s = "value number " + std::to_string(i); bool kept = r.sampling(std::move(s));
                if (i < num && !kept) { printf("FAIL asked for %d, value %d of %d was not kept although the sample was not full\n", num, i, n); return 1; }
            }
            if (unbounded) { printf("the draws cannot be enumerated\n"); return 0; }
            auto out = std::move(r).samples(); (void)before;
            if (out.size() != size_t(std::min(n, num))) { printf("FAIL asked for %d of %d values, the sample holds %zu\n", num, n, out.size()); return 1; }
            for (auto& p : path) pr /= p.second;
            std::set<std::string> seen;
            for (auto& s : out) {
                if (!seen.insert(s).second) { printf("FAIL asked for %d of %d values, '%s' is in the sample twice\n", num, n, s.c_str()); return 1; }
                if (s.rfind("value number ", 0) != 0) { printf("FAIL asked for %d of %d values, the sample holds '%s'\n", num, n, s.c_str()); return 1; }
                in[atoi(s.c_str() + 13)] += pr;
            }
            runs++; path.resize(pos);
            while (!path.empty() && path.back().first + 1 == path.back().second) path.pop_back();
            if (path.empty()) break;
            path.back().first++;
        }
        double want = n ? double(std::min(n, num)) / n : 0;
        for (int i = 0; i < n; i++) if (std::fabs(in[i] - want) > 1e-9) { printf("FAIL asked for %d of %d values: value %d is in the sample with probability %.4f instead of %.4f (all %ld outcomes of the draws)\n", num, n, i, in[i], want, runs); return 1; }
    }
    printf("no counterexample up to %d values\n", N); return 0;
}
