// Roots for StatusOr over an opaque value type T and a real Status.
#include "common/base/Base.h"
#include "common/base/Status.h"
#include "common/base/StatusOr.h"
#include <new>
using namespace nebula;
struct U { U(const U&); U(U&&); ~U(); long d[3]; };
struct XT { long d[2]; };
struct T { T(const T&); T(T&&); ~T(); T(const U&); T(U&&); T(const XT&); T(XT&&); T& operator=(const T&); T& operator=(T&&); long d[4]; };
using S = StatusOr<T>; using S2 = StatusOr<U>;
#define X extern "C"
X uint64_t vc_so_size() { return sizeof(S); } X uint64_t vc_so2_size() { return sizeof(S2); } X uint64_t vc_size_T() { return sizeof(T); } X uint64_t vc_size_U() { return sizeof(U); } X uint64_t vc_size_X() { return sizeof(XT); } X uint64_t vc_size_Status() { return sizeof(Status); }
X void vc_so_ctor0(S* p) { new (p) S(); } X void vc_so2_ctor0(S2* p) { new (p) S2(); }
X void vc_so_ctorV(S* p, const T* v) { new (p) S(*v); } X void vc_so2_ctorV(S2* p, const U* v) { new (p) S2(*v); }
X void vc_so_ctorVm(S* p, T* v) { new (p) S(std::move(*v)); } X void vc_so_ctorVr(S* p, T* v) { new (p) S(*v); }
X void vc_so_ctorX(S* p, const XT* v) { new (p) S(*v); }
X void vc_so_ctorS(S* p, const Status* v) { new (p) S(*v); } X void vc_so2_ctorS(S2* p, const Status* v) { new (p) S2(*v); }
X void vc_so_ctorSm(S* p, Status* v) { new (p) S(std::move(*v)); } X void vc_so_ctorSr(S* p, Status* v) { new (p) S(*v); }
X void vc_so_copy(S* p, const S* r) { new (p) S(*r); } X void vc_so_move(S* p, S* r) { new (p) S(std::move(*r)); }
X void vc_so_ccopy(S* p, const S2* r) { new (p) S(*r); } X void vc_so_cmove(S* p, S2* r) { new (p) S(std::move(*r)); }
X void vc_so_asV(S* p, const T* v) { *p = *v; } X void vc_so_asVm(S* p, T* v) { *p = std::move(*v); } X void vc_so_asVr(S* p, T* v) { *p = *v; } X void vc_so_asX(S* p, const XT* v) { *p = *v; }
X void vc_so_asS(S* p, const Status* v) { *p = *v; } X void vc_so_asSm(S* p, Status* v) { *p = std::move(*v); }
X S* vc_so_ascopy(S* p, const S* r) { return &(*p = *r); } X S* vc_so_asmove(S* p, S* r) { return &(*p = std::move(*r)); } X S* vc_so_ascm(S* p, S2* r) { return &(*p = std::move(*r)); }
X void vc_so_dtor(S* p) { p->~S(); }
X bool vc_so_ok(const S* p) { return p->ok(); } X bool vc_so_bool(const S* p) { return static_cast<bool>(*p); }
X T* vc_so_value(S* p) { return &p->value(); } X const T* vc_so_valuec(const S* p) { return &p->value(); } X const U* vc_so2_valuec(const S2* p) { return &p->value(); } X void vc_so_valuem(T* o, S* p) { new (o) T(std::move(*p).value()); }
X void vc_so_status(Status* o, const S* p) { new (o) Status(p->status()); } X void vc_so_statusm(Status* o, S* p) { new (o) Status(std::move(*p).status()); }
X void vc_so_from(Status* o, const S* p) { new (o) Status(Status::from(*p)); } X void vc_so_fromm(Status* o, S* p) { new (o) Status(Status::from(std::move(*p))); }
