// Stand-in for protobuf's header of this name in its absl::Status form; see
// /verif/DESIGN.md, "The part that does not build here".
#pragma once
#include <string>

#include "absl/status/status.h"
#include "google/protobuf/type.pb.h"

namespace google {
namespace protobuf {
namespace util {
inline namespace vshim {
class TypeResolver {
 public:
  TypeResolver() {}
  virtual ~TypeResolver() {}
  virtual absl::Status ResolveMessageType(const std::string& type_url, google::protobuf::Type* message_type) = 0;
  virtual absl::Status ResolveEnumType(const std::string& type_url, google::protobuf::Enum* enum_type) = 0;
};
}  // namespace vshim
}  // namespace util
}  // namespace protobuf
}  // namespace google
