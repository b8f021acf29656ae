#include "common/base/Base.h"
#include "common/meta/NebulaSchemaProvider.h"
using namespace nebula; using namespace nebula::meta;
using P = NebulaSchemaProvider; using F = P::SchemaField; using I = SchemaProviderIf::Iterator; using SF = SchemaProviderIf::Field;
#define X extern "C"
X void vc_ctor(P* p, int64_t v) { new (p) P(v); }
X void vc_field_ctor(F* f, std::string* n, cpp2::PropertyType t, bool nullable, bool has, Expression* d, size_t size, size_t off, size_t pos) { new (f) F(std::move(*n), t, nullable, has, d, size, off, pos); }
X void* vc_vec(P* p) { return &p->fields_; }
X void* vc_map(P* p) { return &p->fieldNameIndex_; }
X size_t* vc_nn(P* p) { return &p->numNullableFields_; }
X cpp2::SchemaProp* vc_prop(P* p) { return &p->schemaProp_; }
X uint64_t vc_psize() { return sizeof(P); }
X uint64_t vc_fsize() { return sizeof(F); }
X uint64_t vc_isize() { return sizeof(I); }
X uint64_t vc_ssize() { return sizeof(StatusOr<std::pair<std::string, int64_t>>); }
X void* vc_f_name(F* f) { return &f->name_; }
X void* vc_f_type(F* f) { return &f->type_; }
X void* vc_f_nullable(F* f) { return &f->nullable_; }
X void* vc_f_has(F* f) { return &f->hasDefault_; }
X void* vc_f_default(F* f) { return &f->defaultValue_; }
X void* vc_f_size(F* f) { return &f->size_; }
X void* vc_f_offset(F* f) { return &f->offset_; }
X void* vc_f_pos(F* f) { return &f->nullFlagPos_; }
X void* vc_p_hascol(cpp2::SchemaProp* p) { return &p->has_ttl_col; }
X void* vc_p_col(cpp2::SchemaProp* p) { return &p->ttl_col; }
X void* vc_p_hasdur(cpp2::SchemaProp* p) { return &p->has_ttl_duration; }
X void* vc_p_dur(cpp2::SchemaProp* p) { return &p->ttl_duration; }
// the functions
X int64_t vc_getVersion(P* p) { return p->getVersion(); }
X size_t vc_getNumFields(P* p) { return p->getNumFields(); }
X size_t vc_getNumNullableFields(P* p) { return p->getNumNullableFields(); }
X size_t vc_size(P* p) { return p->size(); }
X int64_t vc_getFieldIndex(P* p, std::string* n) { return p->getFieldIndex(*n); }
X const char* vc_getFieldName(P* p, int64_t i) { return p->getFieldName(i); }
X cpp2::PropertyType vc_getFieldType(P* p, int64_t i) { return p->getFieldType(i); }
X cpp2::PropertyType vc_getFieldTypeN(P* p, std::string* n) { return p->getFieldType(*n); }
X const SF* vc_field(P* p, int64_t i) { return p->field(i); }
X const SF* vc_fieldN(P* p, std::string* n) { return p->field(*n); }
X void vc_addField(P* p, folly::StringPiece* n, cpp2::PropertyType t, size_t len, bool nullable, Expression* d) { p->addField(*n, t, len, nullable, d); }
X size_t vc_fieldSize(cpp2::PropertyType t, size_t len) { return P::fieldSize(t, len); }
X void vc_setProp(P* p, cpp2::SchemaProp* s) { p->setProp(*s); }
X void vc_getProp(P* p, cpp2::SchemaProp* out) { new (out) cpp2::SchemaProp(p->getProp()); }
X void vc_getTTLInfo(P* p, StatusOr<std::pair<std::string, int64_t>>* out) { new (out) StatusOr<std::pair<std::string, int64_t>>(p->getTTLInfo()); }
X bool vc_ok(StatusOr<std::pair<std::string, int64_t>>* s) { return s->ok(); }
X void* vc_val(StatusOr<std::pair<std::string, int64_t>>* s) { return &s->value(); }
X const char* vc_m_name(const SF* f) { return f->name(); }
X cpp2::PropertyType vc_m_type(const SF* f) { return f->type(); }
X bool vc_m_nullable(const SF* f) { return f->nullable(); }
X bool vc_m_has(const SF* f) { return f->hasDefault(); }
X Expression* vc_m_default(const SF* f) { return f->defaultValue(); }
X size_t vc_m_size(const SF* f) { return f->size(); }
X size_t vc_m_offset(const SF* f) { return f->offset(); }
X size_t vc_m_pos(const SF* f) { return f->nullFlagPos(); }
X void vc_begin(P* p, I* i) { new (i) I(static_cast<SchemaProviderIf*>(p)->begin()); }
X void vc_end(P* p, I* i) { new (i) I(static_cast<SchemaProviderIf*>(p)->end()); }
X void vc_at(P* p, I* i, int64_t k) { new (i) I(static_cast<SchemaProviderIf*>(p), k); }
X I* vc_inc(I* i) { return &++*i; }
X I* vc_plus(I* i, uint16_t k) { return &(*i + k); }
X bool vc_bool(I* i) { return static_cast<bool>(*i); }
X bool vc_eq(I* i, I* j) { return *i == *j; }
X const SF* vc_star(I* i) { return &**i; }
X const SF* vc_arrow(I* i) { return i->operator->(); }
