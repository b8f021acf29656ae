// Roots for nebula::Value. The contained class types are opaque to the proof (ghost lifetimes); Value itself and unique_ptr run.
#include "common/base/Base.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
#include "common/datatypes/Vertex.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/Path.h"
#include <new>
using namespace nebula; using std::string; using V = nebula::Value;
#define X extern "C"
X uint64_t vc_v_size() { return sizeof(V); }
X uint64_t vc_v_type(const V* p) { return static_cast<uint64_t>(p->type()); }
X void vc_v_ctor0(V* p) { new (p) V(); }
X void vc_v_copy(V* p, const V* q) { new (p) V(*q); }
X void vc_v_move(V* p, V* q) { new (p) V(std::move(*q)); }
X void vc_v_dtor(V* p) { p->~V(); }
X void vc_v_clear(V* p) { p->clear(); }
X void vc_v_clear2(V* p) { p->__clear(); }
X V* vc_v_as(V* p, const V* q) { return &(*p = *q); }
X V* vc_v_asm(V* p, V* q) { return &(*p = std::move(*q)); }
X void vc_v_swap(V* p, V* q) { swap(*p, *q); }
X void vc_v_stdswap(V* p, V* q) { std::swap(*p, *q); }
#define IS(K) X bool vc_v_is##K(const V* p) { return p->is##K(); }
IS(Null) IS(BadNull) IS(Numeric) IS(Bool) IS(Int) IS(Float) IS(Str) IS(Date) IS(Time) IS(DateTime) IS(Vertex) IS(Edge) IS(Path) IS(List) IS(Map) IS(Set) IS(DataSet)
X bool vc_v_isEmpty(const V* p) { return p->empty(); }
#define KIND(K, T) \
  X uint64_t vc_size_##K() { return sizeof(T); } \
  X void vc_v_ctor_##K(V* p, const T* t) { new (p) V(*t); } \
  X void vc_v_ctorm_##K(V* p, T* t) { new (p) V(std::move(*t)); } \
  X void vc_v_set_##K(V* p, const T* t) { p->set##K(*t); } \
  X void vc_v_setm_##K(V* p, T* t) { p->set##K(std::move(*t)); } \
  X const T* vc_v_get_##K(const V* p) { return &p->get##K(); } \
  X T* vc_v_mut_##K(V* p) { return &p->mutable##K(); }
#define MOVEC(K, T) X void vc_v_mov_##K(T* o, V* p) { new (o) T(p->move##K()); }
KIND(Null, NullType) KIND(Bool, bool) KIND(Int, int64_t) KIND(Float, double) KIND(Str, string) KIND(Date, Date) KIND(Time, Time) KIND(DateTime, DateTime)
MOVEC(Null, NullType) MOVEC(Bool, bool) MOVEC(Int, int64_t) MOVEC(Float, double) MOVEC(Str, string) MOVEC(Date, Date) MOVEC(Time, Time) MOVEC(DateTime, DateTime)
#define BOX(K) KIND(K, K) MOVEC(K, K) \
  X void vc_up_##K(std::unique_ptr<K>* u, K* t) { new (u) std::unique_ptr<K>(t); } X K* vc_upget_##K(const std::unique_ptr<K>* u) { return u->get(); } \
  X void vc_v_setu_##K(V* p, std::unique_ptr<K>* t) { p->set##K(std::move(*t)); } \
  X const K* vc_v_getp_##K(const V* p) { return p->get##K##Ptr(); }
BOX(Vertex) BOX(Edge) BOX(Path) BOX(List) BOX(Map) BOX(Set) BOX(DataSet)
#define NARROW(N, T) \
  X void vc_v_ctor_I##N(V* p, const T* t) { new (p) V(*t); } X void vc_v_ctorm_I##N(V* p, T* t) { new (p) V(std::move(*t)); } \
  X void vc_v_set_I##N(V* p, const T* t) { p->setInt(*t); } X void vc_v_setm_I##N(V* p, T* t) { p->setInt(std::move(*t)); }
NARROW(8, int8_t) NARROW(16, int16_t) NARROW(32, int32_t)
X void vc_v_ctor_cstr(V* p, const char* s) { new (p) V(s); }
X void vc_v_set_cstr(V* p, const char* s) { p->setStr(s); }
X void vc_mk_Date(Date* p, int16_t y, int8_t m, int8_t d) { new (p) Date(y, m, d); }
X void vc_mk_Time(Time* p, int8_t h, int8_t m, int8_t s, int32_t u) { new (p) Time(h, m, s, u); }
X void vc_mk_DateTime(DateTime* p, int64_t q) { new (p) DateTime(); p->qword = q; }
X int16_t vc_ob_Date0(const Date* p) { return p->year; } X int8_t vc_ob_Date1(const Date* p) { return p->month; } X int8_t vc_ob_Date2(const Date* p) { return p->day; }
X int8_t vc_ob_Time0(const Time* p) { return p->hour; } X int8_t vc_ob_Time1(const Time* p) { return p->minute; } X int8_t vc_ob_Time2(const Time* p) { return p->sec; } X int32_t vc_ob_Time3(const Time* p) { return p->microsec; }
X uint64_t vc_ob_DateTime0(const DateTime* p) { return p->qword; }
X int32_t vc_ob_Null0(const NullType* p) { return static_cast<int32_t>(*p); }
X bool vc_ob_Bool0(const bool* p) { return *p; }
X int64_t vc_ob_Int0(const int64_t* p) { return *p; }
X double vc_ob_Float0(const double* p) { return *p; }
#define CMP(N, OP) X bool vc_v_##N(const V* a, const V* b) { return *a OP *b; }
CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=) CMP(eq, ==) CMP(ne, !=)
#define BIN(N, OP) X void vc_v_##N(V* o, const V* a, const V* b) { new (o) V(*a OP *b); }
BIN(add, +) BIN(sub, -) BIN(mul, *) BIN(div, /) BIN(mod, %) BIN(land, &&) BIN(lor, ||) BIN(band, &) BIN(bor, |) BIN(bxor, ^)
X void vc_v_neg(V* o, const V* a) { new (o) V(-*a); }
X void vc_v_not(V* o, const V* a) { new (o) V(!*a); }
X void vc_v_less(V* o, const V* a, const V* b) { new (o) V(a->lessThan(*b)); }
X void vc_v_equal(V* o, const V* a, const V* b) { new (o) V(a->equal(*b)); }
X void vc_v_toBool(V* o, const V* a) { new (o) V(a->toBool()); }
X void vc_v_toInt(V* o, const V* a) { new (o) V(a->toInt()); }
X void vc_v_toFloat(V* o, const V* a) { new (o) V(a->toFloat()); }
X uint64_t vc_v_hash(const V* a) { return std::hash<V>()(*a); }
X const V* vc_v_const(int i) {
  switch (i) { case -1: return &V::kEmpty; case 0: return &V::kNullValue; case 1: return &V::kNullNaN; case 2: return &V::kNullBadData; case 3: return &V::kNullBadType;
    case 4: return &V::kNullOverflow; case 5: return &V::kNullUnknownProp; case 6: return &V::kNullDivByZero; case 7: return &V::kNullOutOfRange; }
  return nullptr;
}
X void vc_v_toString(string* o, const V* a) { new (o) string(a->toString()); }
X const string* vc_v_typeName(const V* a) { return &a->typeName(); }
X void vc_type_out(std::ostream* o, uint64_t t) { *o << static_cast<V::Type>(t); }
