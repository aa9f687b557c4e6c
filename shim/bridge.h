// What the shim asks of the installed protobuf library. Implemented in
// bridge.cc, the one file that is compiled against protobuf's own util headers.
#pragma once
#include <functional>
#include <memory>
#include <string>

#include "google/protobuf/descriptor.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/type.pb.h"

namespace vbridge {

struct Resolver {
  // Return false if there is no such type.
  std::function<bool(const std::string&, google::protobuf::Type*)> type;
  std::function<bool(const std::string&, google::protobuf::Enum*)> enu;
};

struct PrintOptions {
  bool whitespace = false, primitives = false, enums_as_ints = false, proto_names = false;
};

// Both return the canonical status code; 0 is OK.
int JsonToBinary(const Resolver& r, const std::string& url, const std::string& json, bool ignore_unknown,
                 bool case_insensitive_enums, std::string* out, std::string* error);
int BinaryToJson(const Resolver& r, const std::string& url, google::protobuf::io::ZeroCopyInputStream* in,
                 google::protobuf::io::ZeroCopyOutputStream* out, const PrintOptions& o, std::string* error);

// A resolver of the types of a descriptor pool.
Resolver PoolResolver(const std::string& prefix, const google::protobuf::DescriptorPool* pool);

}  // namespace vbridge
