// Roots for the graph response records. Field offsets are read off the real types.
#include "common/base/Base.h"
#include "common/graph/Response.h"
#include <new>
#include <cstddef>
using namespace nebula;
#define X extern "C"
#pragma clang diagnostic ignored "-Winvalid-offsetof"
#define REC(n, T) X uint64_t vc_##n##_size() { return sizeof(T); } X void vc_##n##_ctor(T* p) { new (p) T(); } X void vc_##n##_clear(T* p) { p->clear(); } X void vc_##n##__clear(T* p) { p->__clear(); } X bool vc_##n##_eq(const T* a, const T* b) { return *a == *b; }
#define F(n, T, f) X uint64_t vc_##n##_off_##f() { return offsetof(T, f); }
REC(auth, AuthResponse) F(auth, AuthResponse, errorCode) F(auth, AuthResponse, sessionId) F(auth, AuthResponse, errorMsg) F(auth, AuthResponse, timeZoneOffsetSeconds) F(auth, AuthResponse, timeZoneName)
REC(prof, ProfilingStats) F(prof, ProfilingStats, rows) F(prof, ProfilingStats, execDurationInUs) F(prof, ProfilingStats, totalDurationInUs) F(prof, ProfilingStats, otherStats)
REC(branch, PlanNodeBranchInfo) F(branch, PlanNodeBranchInfo, isDoBranch) F(branch, PlanNodeBranchInfo, conditionNodeId)
REC(pair, Pair) F(pair, Pair, key) F(pair, Pair, value)
REC(node, PlanNodeDescription) F(node, PlanNodeDescription, name) F(node, PlanNodeDescription, id) F(node, PlanNodeDescription, outputVar) F(node, PlanNodeDescription, description) F(node, PlanNodeDescription, profiles) F(node, PlanNodeDescription, branchInfo) F(node, PlanNodeDescription, dependencies)
REC(plan, PlanDescription) F(plan, PlanDescription, planNodeDescs) F(plan, PlanDescription, nodeIndexMap) F(plan, PlanDescription, format) F(plan, PlanDescription, optimize_time_in_us)
REC(exec, ExecutionResponse) F(exec, ExecutionResponse, errorCode) F(exec, ExecutionResponse, latencyInUs) F(exec, ExecutionResponse, data) F(exec, ExecutionResponse, spaceName) F(exec, ExecutionResponse, errorMsg) F(exec, ExecutionResponse, planDesc) F(exec, ExecutionResponse, comment)
X const char* vc_errorCode(int c) { return errorCode(static_cast<ErrorCode>(c)); }
