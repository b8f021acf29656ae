// Roots for EitherOr over opaque types: L, R, U, V have no bodies here, so every proof is parametric in them.
#include "common/base/Base.h"
#include "common/base/EitherOr.h"
#include "common/base/ErrorOr.h"
#include <new>
using namespace nebula;
struct U { U(const U&); U(U&&); ~U(); long d[1]; };
struct V { V(const V&); V(V&&); ~V(); long d[3]; };
struct XL { long d[2]; };           // builds only L
struct XR { long d[2]; };           // builds only R
struct XB { long d[2]; };           // builds both
struct L { L(const L&); L(L&&); ~L(); L(const U&); L(U&&); L(const XL&); L(XL&&); L(const XB&); L(XB&&); L(int, const XL&); long d[2]; };
struct R { R(const R&); R(R&&); ~R(); R(const V&); R(V&&); R(const XR&); R(XR&&); R(const XB&); R(XB&&); R(int, const XR&); long d[5]; };
using E = EitherOr<L, R>; using E2 = EitherOr<U, V>;
enum class Code : int32_t { OK = 0 };
using EC = ErrorOr<Code, R>;
#define X extern "C"
X uint64_t vc_eo_size() { return sizeof(E); } X uint64_t vc_eo2_size() { return sizeof(E2); } X uint64_t vc_ec_size() { return sizeof(EC); }
X uint64_t vc_size_L() { return sizeof(L); } X uint64_t vc_size_R() { return sizeof(R); } X uint64_t vc_size_U() { return sizeof(U); } X uint64_t vc_size_V() { return sizeof(V); }
X uint64_t vc_size_X() { return sizeof(XL); }
X void vc_eo_ctor0(E* p) { new (p) E(); }
X void vc_eo_ctorL(E* p, const L* v) { new (p) E(*v); }
X void vc_eo_ctorLm(E* p, L* v) { new (p) E(std::move(*v)); }
X void vc_eo_ctorLr(E* p, L* v) { new (p) E(*v); }
X void vc_eo_ctorR(E* p, const R* v) { new (p) E(*v); }
X void vc_eo_ctorRm(E* p, R* v) { new (p) E(std::move(*v)); }
X void vc_eo_ctorRr(E* p, R* v) { new (p) E(*v); }
X void vc_eo_ctorXL(E* p, const XL* v) { new (p) E(*v); }
X void vc_eo_ctorXR(E* p, const XR* v) { new (p) E(*v); }
X void vc_eo_ctorU(E* p, U* v) { new (p) E(std::move(*v)); }
X void vc_eo_ctorV(E* p, V* v) { new (p) E(std::move(*v)); }
X void vc_eo_ctorXL2(E* p, int i, const XL* v) { new (p) E(i, *v); }
X void vc_eo_ctorXR2(E* p, int i, const XR* v) { new (p) E(i, *v); }
X void vc_eo_tagL(E* p, const XB* v) { new (p) E(kConstructLeft, *v); }
X void vc_eo_tagR(E* p, const XB* v) { new (p) E(kConstructRight, *v); }
X void vc_eo_copy(E* p, const E* r) { new (p) E(*r); }
X void vc_eo_move(E* p, E* r) { new (p) E(std::move(*r)); }
X void vc_eo_ccopy(E* p, const E2* r) { new (p) E(*r); }
X void vc_eo_cmove(E* p, E2* r) { new (p) E(std::move(*r)); }
X void vc_eo_asL(E* p, const L* v) { *p = *v; }
X void vc_eo_asLm(E* p, L* v) { *p = std::move(*v); }
X void vc_eo_asLr(E* p, L* v) { *p = *v; }
X void vc_eo_asR(E* p, const R* v) { *p = *v; }
X void vc_eo_asRm(E* p, R* v) { *p = std::move(*v); }
X void vc_eo_asRr(E* p, R* v) { *p = *v; }
X void vc_eo_asXL(E* p, const XL* v) { *p = *v; }
X void vc_eo_asXR(E* p, const XR* v) { *p = *v; }
X void vc_eo_asU(E* p, U* v) { *p = std::move(*v); }
X void vc_eo_asV(E* p, V* v) { *p = std::move(*v); }
X E* vc_eo_ascopy(E* p, const E* r) { return &(*p = *r); }
X E* vc_eo_asmove(E* p, E* r) { return &(*p = std::move(*r)); }
X E* vc_eo_ascc(E* p, const E2* r) { return &(*p = *r); }
X E* vc_eo_ascm(E* p, E2* r) { return &(*p = std::move(*r)); }
X void vc_eo_dtor(E* p) { p->~E(); }
X void vc_eo2_ctor0(E2* p) { new (p) E2(); }
X void vc_eo2_ctorL(E2* p, const U* v) { new (p) E2(*v); }
X void vc_eo2_ctorR(E2* p, const V* v) { new (p) E2(*v); }
X bool vc_eo_isVoid(const E* p) { return p->isVoid(); } X bool vc_eo_isL(const E* p) { return p->isLeftType(); } X bool vc_eo_isR(const E* p) { return p->isRightType(); }
X bool vc_eo2_isVoid(const E2* p) { return p->isVoid(); } X bool vc_eo2_isL(const E2* p) { return p->isLeftType(); } X bool vc_eo2_isR(const E2* p) { return p->isRightType(); }
X L* vc_eo_left(E* p) { return &p->left(); } X const L* vc_eo_leftc(const E* p) { return &p->left(); }
X R* vc_eo_right(E* p) { return &p->right(); } X const R* vc_eo_rightc(const E* p) { return &p->right(); }
X const U* vc_eo2_leftc(const E2* p) { return &p->left(); } X const V* vc_eo2_rightc(const E2* p) { return &p->right(); }
X void vc_eo_leftm(L* o, E* p) { new (o) L(std::move(*p).left()); }
X void vc_eo_rightm(R* o, E* p) { new (o) R(std::move(*p).right()); }
X void vc_ec_ctor0(EC* p) { new (p) EC(); }
X void vc_ec_ctorL(EC* p, int32_t c) { new (p) EC(static_cast<Code>(c)); }
X void vc_ec_ctorR(EC* p, const R* v) { new (p) EC(*v); }
X bool vc_ec_ok(const EC* p) { return ok(*p); } X int32_t vc_ec_error(const EC* p) { return static_cast<int32_t>(error(*p)); } X bool vc_ec_hasValue(const EC* p) { return hasValue(*p); }
X R* vc_ec_value(EC* p) { return &value(*p); } X const R* vc_ec_valuec(const EC* p) { return &value(*p); }
X void vc_ec_valuem(R* o, EC* p) { new (o) R(value(std::move(*p))); }
X void vc_ec_copy(EC* p, const EC* r) { new (p) EC(*r); } X void vc_ec_move(EC* p, EC* r) { new (p) EC(std::move(*r)); }
X void vc_ec_ascopy(EC* p, const EC* r) { *p = *r; } X void vc_ec_asmove(EC* p, EC* r) { *p = std::move(*r); } X void vc_ec_dtor(EC* p) { p->~EC(); }
