// CompactSerializer<Value> for search programs and demonstrations: the real codec of Value over the token protocol, the tokens as bytes.
#include "common/base/Base.h"
#include "common/datatypes/Value.h"
#include "common/datatypes/Vertex.h"
#include "common/datatypes/Edge.h"
#include "common/datatypes/Path.h"
#include "common/datatypes/List.h"
#include "common/datatypes/Map.h"
#include "common/datatypes/Set.h"
#include "common/datatypes/DataSet.h"
#include "common/datatypes/ValueOps.inl"
#include "common/datatypes/DateOps.inl"
#include "common/datatypes/VertexOps.inl"
#include "common/datatypes/EdgeOps.inl"
#include "common/datatypes/PathOps.inl"
#include "common/datatypes/MapOps.inl"
#include "common/datatypes/SetOps.inl"
#include "common/datatypes/ListOps.inl"
#include "common/datatypes/DataSetOps.inl"
#include <thrift/lib/cpp2/token_protocol.h>
#include <thrift/lib/cpp2/protocol/Serializer.h>
#include <cstring>
namespace apache { namespace thrift {
namespace {
void raw(std::string* o, const void* p, size_t n) { o->append(static_cast<const char*>(p), n); }
template <class T> T take(const char*& p, const char* end) { T x; if (p + sizeof(T) > end) throw std::runtime_error("codec: the bytes end early"); memcpy(&x, p, sizeof(T)); p += sizeof(T); return x; }
}
template <> void CompactSerializer::serialize<nebula::Value>(const nebula::Value& v, std::string* out) {
    TokenProtocol p; Cpp2Ops<nebula::Value>::write(&p, &v); uint32_t n = p.t.size(); raw(out, &n, 4);
    for (auto& t : p.t) { uint32_t l = t.s.size(); raw(out, &t.op, 1); raw(out, &t.type, 4); raw(out, &t.i, 8); raw(out, &t.d, 8); raw(out, &t.w, 4); raw(out, &l, 4); out->append(t.s); }
}
template <> size_t CompactSerializer::deserialize<nebula::Value>(folly::StringPiece in, nebula::Value& v) {
    const char *b = in.begin(), *q = b, *e = in.end(); TokenProtocol p; uint32_t n = take<uint32_t>(q, e);
    while (n--) { TokenProtocol::Tok t{take<char>(q, e)}; t.type = take<int>(q, e); t.i = take<int64_t>(q, e); t.d = take<double>(q, e); t.w = take<int>(q, e); uint32_t l = take<uint32_t>(q, e); if (q + l > e) throw std::runtime_error("codec: the bytes end early"); t.s.assign(q, l); q += l; p.t.push_back(t); }
    Cpp2Ops<nebula::Value>::read(&p, &v); return q - b;
}
}}  // namespace apache::thrift
