// Representation accessors (the representation invariant speaks about private members) and roots, for two block sizes.
#include "common/base/Base.h"
#include "common/base/Logging.h"
#include <functional>
#include <string>
#include <new>
#define private public
#include "common/base/ICord.h"
#undef private
using namespace nebula;
extern "C" {
#define R(T, N) \
uint64_t N##_sizeof() { return sizeof(T); } \
uint64_t N##_inlineoff() { return offsetof(T, inlineBlock_); } \
uint64_t N##_content() { return T::kBlockSize - sizeof(char*); } \
uint64_t N##_len(const T* c) { return c->len_; } \
char* N##_head(const T* c) { return c->head_; } \
char* N##_tail(const T* c) { return c->tail_; } \
void N##_set(T* c, size_t len, char* h, char* t) { c->len_ = len; c->head_ = h; c->tail_ = t; } \
void N##_ctor0(void* p) { ::new (p) T(); } \
void N##_dtor(T* c) { c->T::~T(); } \
uint64_t N##_size(const T* c) { return c->size(); } \
bool N##_empty(const T* c) { return c->empty(); } \
void N##_clear(T* c) { c->clear(); } \
bool N##_applyTo(const T* c, std::function<bool(const char*, int32_t)>* f) { return c->applyTo(*f); } \
uint64_t N##_appendTo(const T* c, std::string* s) { return c->appendTo(*s); } \
void N##_str(const T* c, std::string* out) { *out = c->str(); } \
T* N##_write(T* c, const char* v, size_t n) { return &c->write(v, n); } \
T* N##_i8(T* c, int8_t v) { return &(*c << v); } \
T* N##_u8(T* c, uint8_t v) { return &(*c << v); } \
T* N##_i16(T* c, int16_t v) { return &(*c << v); } \
T* N##_u16(T* c, uint16_t v) { return &(*c << v); } \
T* N##_i32(T* c, int32_t v) { return &(*c << v); } \
T* N##_u32(T* c, uint32_t v) { return &(*c << v); } \
T* N##_i64(T* c, int64_t v) { return &(*c << v); } \
T* N##_u64(T* c, uint64_t v) { return &(*c << v); } \
T* N##_char(T* c, char v) { return &(*c << v); } \
T* N##_bool(T* c, bool v) { return &(*c << v); } \
T* N##_float(T* c, float v) { return &(*c << v); } \
T* N##_double(T* c, double v) { return &(*c << v); } \
T* N##_string(T* c, const std::string* s) { return &(*c << *s); } \
T* N##_cstr(T* c, const char* s) { return &(*c << s); } \
T* N##_cord(T* c, const T* d) { return &(*c << *d); }
R(ICord<16>, vc_ic16)
R(ICord<>, vc_ic)
}
