#pragma once
#include <string>
#include <folly/Range.h>
#include <thrift/lib/cpp2/GeneratedCodeHelper.h>
namespace apache { namespace thrift {
struct CompactSerializer {
    // Defined by the program that links the expressions (a proof gives them a contract).
    template <class T> static void serialize(const T& obj, std::string* out);
    template <class T> static size_t deserialize(folly::StringPiece in, T& obj);
};
}}  // namespace apache::thrift
