// The names of fbthrift that the hand-written codecs of nebula-common use, so that those files can be compiled unmodified where
// fbthrift is absent. With VC_PROOF the members are declared only: the proofs use their contracts. Otherwise they are templates
// over any protocol class (see token_protocol.h), for search programs and demonstrations.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <folly/Range.h>
#include <folly/Likely.h>
#ifndef MAYBE_UNUSED
#define MAYBE_UNUSED __attribute__((unused))
#endif
namespace apache { namespace thrift {
namespace protocol {
enum TType { T_STOP = 0, T_VOID = 1, T_BOOL = 2, T_BYTE = 3, T_DOUBLE = 4, T_I16 = 6, T_I32 = 8, T_U64 = 9, T_I64 = 10, T_STRING = 11, T_STRUCT = 12, T_MAP = 13, T_SET = 14, T_LIST = 15, T_UTF8 = 16, T_UTF16 = 17, T_STREAM = 18, T_FLOAT = 19 };
class TProtocolException : public std::runtime_error {
public:
    explicit TProtocolException(const std::string& m) : std::runtime_error(m) {}
#ifdef VC_PROOF
    [[noreturn]] static void throwUnionMissingStop();
    [[noreturn]] static void throwMissingRequiredField(const char* field, const char* type);
#else
    [[noreturn]] static void throwUnionMissingStop() { throw TProtocolException("missing stop marker to terminate a union"); }
    [[noreturn]] static void throwMissingRequiredField(const char* field, const char* type) { throw TProtocolException(std::string("Required field '") + field + "' was not found in serialized data! Struct: " + type); }
#endif
};
}  // namespace protocol
using TProtocolException = protocol::TProtocolException;
namespace type_class {
struct integral {}; struct floating_point {}; struct binary {}; struct string {}; struct enumeration {}; struct structure {}; struct variant {};
template <class V> struct list {}; template <class V> struct set {}; template <class K, class V> struct map {};
}  // namespace type_class
template <class T, class = void> class Cpp2Ops;
namespace detail {
template <class T> struct TccStructTraits;
template <class P> struct ProtocolReaderStructReadState {
    int16_t fieldId;
    protocol::TType fieldType;
#ifdef VC_PROOF
    folly::StringPiece fieldName() const;
    void readStructBegin(P*); void readStructEnd(P*); void readFieldBegin(P*); void readFieldBeginNoInline(P*); void readFieldEnd(P*);
    bool advanceToNextField(P*, int32_t cur, int32_t next, protocol::TType type);
#else
    std::string name;
    folly::StringPiece fieldName() const { return folly::StringPiece(name); }
    void readStructBegin(P* p) { p->readStructBegin(); }
    void readStructEnd(P* p) { p->readStructEnd(); }
    void readFieldEnd(P* p) { p->readFieldEnd(); }
    void readFieldBegin(P* p) { p->readFieldBegin(name, fieldType, fieldId, fieldId); }
    void readFieldBeginNoInline(P* p) { readFieldBegin(p); }
    bool advanceToNextField(P* p, int32_t cur, int32_t next, protocol::TType type) {
        p->readFieldEndIfAny();
        p->readFieldBegin(name, fieldType, fieldId, static_cast<int16_t>(cur));
        return fieldType == type && (type == protocol::T_STOP || (!p->kUsesFieldNames() && fieldId == next));
    }
#endif
};
namespace pm {
#ifdef VC_PROOF
template <class TC, class T> struct protocol_methods {
    template <class P> static uint32_t write(P&, const T&);
    template <class P> static void read(P&, T&);
    template <bool ZC, class P> static uint32_t serializedSize(P&, const T&);
};
#else
template <class TC, class T> struct protocol_methods;
template <class T> struct int_methods {
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeInt(static_cast<int64_t>(v), sizeof(T)); }
    template <class P> static void read(P& p, T& v) { v = static_cast<T>(p.readInt(sizeof(T))); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { return p.sizeInt(static_cast<int64_t>(v), sizeof(T)); }
};
template <class T> struct protocol_methods<type_class::integral, T> : int_methods<T> {};
template <class T> struct protocol_methods<type_class::enumeration, T> : int_methods<T> {};
template <class T> struct protocol_methods<type_class::binary, T> {
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeBinary(v); }
    template <class P> static void read(P& p, T& v) { p.readBinary(v); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { return p.serializedSizeBinary(v); }
};
template <class T> struct protocol_methods<type_class::structure, T> {
    template <class P> static uint32_t write(P& p, const T& v) { return Cpp2Ops<T>::write(&p, &v); }
    template <class P> static void read(P& p, T& v) { Cpp2Ops<T>::read(&p, &v); }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { return ZC ? Cpp2Ops<T>::serializedSizeZC(&p, &v) : Cpp2Ops<T>::serializedSize(&p, &v); }
};
template <class TC, class T> struct seq_methods {
    using E = protocol_methods<TC, typename T::value_type>;
    template <class P> static uint32_t write(P& p, const T& v) { uint32_t n = p.writeSize(v.size()); for (auto& x : v) n += E::write(p, x); return n; }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { uint32_t n = p.sizeSize(v.size()); for (auto& x : v) n += E::template serializedSize<ZC>(p, x); return n; }
};
template <class TC, class T> struct protocol_methods<type_class::list<TC>, T> : seq_methods<TC, T> {
    template <class P> static void read(P& p, T& v) { v.resize(p.readSize()); for (auto& x : v) protocol_methods<TC, typename T::value_type>::read(p, x); }
};
template <class TC, class T> struct protocol_methods<type_class::set<TC>, T> : seq_methods<TC, T> {
    template <class P> static void read(P& p, T& v) { for (size_t n = p.readSize(); n; n--) { typename T::value_type x; protocol_methods<TC, typename T::value_type>::read(p, x); v.insert(std::move(x)); } }
};
template <class KC, class VC, class T> struct protocol_methods<type_class::map<KC, VC>, T> {
    using K = protocol_methods<KC, typename T::key_type>; using V = protocol_methods<VC, typename T::mapped_type>;
    template <class P> static uint32_t write(P& p, const T& v) { uint32_t n = p.writeSize(v.size()); for (auto& x : v) { n += K::write(p, x.first); n += V::write(p, x.second); } return n; }
    template <class P> static void read(P& p, T& v) { for (size_t n = p.readSize(); n; n--) { typename T::key_type k; K::read(p, k); V::read(p, v[std::move(k)]); } }
    template <bool ZC, class P> static uint32_t serializedSize(P& p, const T& v) { uint32_t n = p.sizeSize(v.size()); for (auto& x : v) { n += K::template serializedSize<ZC>(p, x.first); n += V::template serializedSize<ZC>(p, x.second); } return n; }
};
#endif
}  // namespace pm
}  // namespace detail
}}  // namespace apache::thrift
