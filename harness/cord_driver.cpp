// Representation accessors (the representation invariant speaks about private members) and roots.
#include "common/base/Base.h"
#include "common/base/Logging.h"
#include <functional>
#include <string>
#include <new>
#define private public
#include "common/base/Cord.h"
#undef private
using namespace nebula;
extern "C" {
uint64_t vc_cord_sizeof() { return sizeof(Cord); }
int64_t vc_cord_bs(const Cord* c) { return c->blockSize_; }
int64_t vc_cord_bc(const Cord* c) { return c->blockContentSize_; }
int64_t vc_cord_pt(const Cord* c) { return c->blockPt_; }
uint64_t vc_cord_len(const Cord* c) { return c->len_; }
char* vc_cord_head(const Cord* c) { return c->head_; }
char* vc_cord_tail(const Cord* c) { return c->tail_; }
void vc_cord_set(Cord* c, int32_t bs, int32_t bc, int32_t pt, size_t len, char* h, char* t) {
  const_cast<int32_t&>(c->blockSize_) = bs; const_cast<int32_t&>(c->blockContentSize_) = bc; c->blockPt_ = pt; c->len_ = len; c->head_ = h; c->tail_ = t; }
void vc_cord_ctor0(void* p) { new (p) Cord(); }
void vc_cord_ctor1(void* p, int32_t n) { new (p) Cord(n); }
void vc_cord_dtor(Cord* c) { c->Cord::~Cord(); }
uint64_t vc_cord_size(const Cord* c) { return c->size(); }
bool vc_cord_empty(const Cord* c) { return c->empty(); }
void vc_cord_clear(Cord* c) { c->clear(); }
bool vc_cord_applyTo(const Cord* c, std::function<bool(const char*, int32_t)>* f) { return c->applyTo(*f); }
uint64_t vc_cord_appendTo(const Cord* c, std::string* s) { return c->appendTo(*s); }
void vc_cord_str(const Cord* c, std::string* out) { *out = c->str(); }
Cord* vc_cord_write(Cord* c, const char* v, size_t n) { return &c->write(v, n); }
Cord* vc_cord_i8(Cord* c, int8_t v) { return &(*c << v); }
Cord* vc_cord_u8(Cord* c, uint8_t v) { return &(*c << v); }
Cord* vc_cord_i16(Cord* c, int16_t v) { return &(*c << v); }
Cord* vc_cord_u16(Cord* c, uint16_t v) { return &(*c << v); }
Cord* vc_cord_i32(Cord* c, int32_t v) { return &(*c << v); }
Cord* vc_cord_u32(Cord* c, uint32_t v) { return &(*c << v); }
Cord* vc_cord_i64(Cord* c, int64_t v) { return &(*c << v); }
Cord* vc_cord_u64(Cord* c, uint64_t v) { return &(*c << v); }
Cord* vc_cord_char(Cord* c, char v) { return &(*c << v); }
Cord* vc_cord_bool(Cord* c, bool v) { return &(*c << v); }
Cord* vc_cord_float(Cord* c, float v) { return &(*c << v); }
Cord* vc_cord_double(Cord* c, double v) { return &(*c << v); }
Cord* vc_cord_string(Cord* c, const std::string* v) { return &(*c << *v); }
Cord* vc_cord_cstr(Cord* c, const char* v) { return &(*c << v); }
Cord* vc_cord_cord(Cord* c, const Cord* v) { return &(*c << *v); }
}
