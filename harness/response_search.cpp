// Concrete comparison of response records: every pair of records that differ in exactly one field, every field; clear against a new record.
#include "common/base/Base.h"
#include "common/graph/Response.h"
#include <functional>
using namespace nebula; using std::string;
static int bad = 0; static void fail(const char* r, int f, const char* m) { printf("FAIL %s, field %d: %s\n", r, f, m); bad = 1; }
template <class T> struct Case { const char* name; std::vector<std::vector<std::function<void(T&)>>> fields; };
template <class T> static T build(const Case<T>& c, const std::vector<int>& v) { T t; for (size_t i = 0; i < v.size(); i++) if (v[i]) c.fields[i][v[i] - 1](t); return t; }
template <class T> static void run(const Case<T>& c) {
  size_t n = c.fields.size(); std::vector<int> v(n, 0); T fresh;
  for (;;) {                               // every combination of at most 3 values per field
    T a = build(c, v), b = build(c, v);
    if (!(a == b)) fail(c.name, -1, "equal records are not equal"); if (!(a == a)) fail(c.name, -1, "a record differs from itself");
    for (size_t i = 0; i < n; i++) for (int k = 0; k <= (int)c.fields[i].size(); k++) if (k != v[i]) { auto w = v; w[i] = k; T d = build(c, w); if (a == d || d == a) { fail(c.name, (int)i, "records that differ in this field only are equal"); } }
    T x = build(c, v); x.clear(); if (!(x == fresh)) fail(c.name, -1, "a cleared record differs from a new one");
    T y = build(c, v); y.__clear();
    for (size_t i = 0; i < n; i++) for (size_t k = 1; k <= c.fields[i].size(); k++) { T p; c.fields[i][k - 1](p); bool was = p == fresh; p.clear(); if (!(p == fresh)) fail(c.name, (int)i, "clear does not reset this field"); (void)was; }
    if (bad) return;
    size_t i = 0; while (i < n && ++v[i] > (int)c.fields[i].size()) v[i++] = 0; if (i == n) break;
  }
}
#define S(T, f, ...) { [](T& r) { r.f = __VA_ARGS__; } }
#define OP(T, f, PT, A, B) {{ [](T& r) { r.f = std::make_unique<PT>(A); }, [](T& r) { r.f = std::make_unique<PT>(B); } }}
#define V(T, f, A, B) {{ [](T& r) { r.f = A; }, [](T& r) { r.f = B; } }}
static Pair mk(string a, string b) { Pair p; p.key = a; p.value = b; return p; }
static ProfilingStats ps(int64_t a) { ProfilingStats p; p.rows = a; return p; }
template <class E> static std::vector<E> vec(E a) { std::vector<E> v; v.push_back(std::move(a)); return v; }
template <class E> static std::vector<E> vec2(E a, E b) { std::vector<E> v; v.push_back(std::move(a)); v.push_back(std::move(b)); return v; }
static PlanNodeBranchInfo bi(bool b, int64_t i) { PlanNodeBranchInfo r; r.isDoBranch = b; r.conditionNodeId = i; return r; }
static PlanNodeDescription nd(string n) { PlanNodeDescription r; r.name = n; return r; }
static PlanDescription pd(string n) { PlanDescription r; r.format = n; return r; }
static DataSet ds(string n) { DataSet d; d.colNames.push_back(n); return d; }
using M = std::unordered_map<string, string>;
int main() {
  run(Case<Pair>{"Pair", {V(Pair, key, "a", "b"), V(Pair, value, "a", "b")}});
  run(Case<PlanNodeBranchInfo>{"PlanNodeBranchInfo", {S(PlanNodeBranchInfo, isDoBranch, true), V(PlanNodeBranchInfo, conditionNodeId, 1, 1LL << 40)}});
  run(Case<ProfilingStats>{"ProfilingStats", {V(ProfilingStats, rows, 1, 1LL << 32), V(ProfilingStats, execDurationInUs, 1, 2), V(ProfilingStats, totalDurationInUs, 1, 1LL << 32), OP(ProfilingStats, otherStats, M, (M{}), (M{{"a", "b"}}))}});
  run(Case<AuthResponse>{"AuthResponse", {V(AuthResponse, errorCode, ErrorCode::E_DISCONNECTED, ErrorCode::E_UNKNOWN), OP(AuthResponse, sessionId, int64_t, 0, 1LL << 32), OP(AuthResponse, errorMsg, string, "", "x"), OP(AuthResponse, timeZoneOffsetSeconds, int32_t, 0, 3600), OP(AuthResponse, timeZoneName, string, "", "+08:00")}});
  run(Case<PlanNodeDescription>{"PlanNodeDescription", {V(PlanNodeDescription, name, "a", "b"), V(PlanNodeDescription, id, 0, 1LL << 32), V(PlanNodeDescription, outputVar, "a", "b"),
    {{ [](PlanNodeDescription& r) { r.description = std::make_unique<std::vector<Pair>>(); }, [](PlanNodeDescription& r) { r.description = std::make_unique<std::vector<Pair>>(vec(mk("a", "b"))); }, [](PlanNodeDescription& r) { r.description = std::make_unique<std::vector<Pair>>(vec2(mk("a", "b"), mk("a", "c"))); } }},
    {{ [](PlanNodeDescription& r) { r.profiles = std::make_unique<std::vector<ProfilingStats>>(); }, [](PlanNodeDescription& r) { r.profiles = std::make_unique<std::vector<ProfilingStats>>(vec(ps(1))); } }},
    OP(PlanNodeDescription, branchInfo, PlanNodeBranchInfo, bi(false, -1), bi(true, 3)), OP(PlanNodeDescription, dependencies, std::vector<int64_t>, (std::vector<int64_t>{}), (std::vector<int64_t>{1, 2}))}});
  run(Case<PlanDescription>{"PlanDescription", {{{ [](PlanDescription& r) { r.planNodeDescs = vec(nd("a")); }, [](PlanDescription& r) { r.planNodeDescs = vec2(nd("a"), nd("b")); } }}, V(PlanDescription, nodeIndexMap, (std::unordered_map<int64_t, int64_t>{{1, 2}}), (std::unordered_map<int64_t, int64_t>{{1, 3}})), V(PlanDescription, format, "dot", "row"), V(PlanDescription, optimize_time_in_us, 1, 2)}});
  run(Case<ExecutionResponse>{"ExecutionResponse", {V(ExecutionResponse, errorCode, ErrorCode::E_DISCONNECTED, ErrorCode::E_UNKNOWN), V(ExecutionResponse, latencyInUs, 1, -1), OP(ExecutionResponse, data, DataSet, ds("a"), ds("b")), OP(ExecutionResponse, spaceName, string, "", "x"), OP(ExecutionResponse, errorMsg, string, "", "x"), OP(ExecutionResponse, planDesc, PlanDescription, pd(""), pd("x")), OP(ExecutionResponse, comment, string, "", "x")}});
  if (!bad) printf("OK\n"); return bad;
}
