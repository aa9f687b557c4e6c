#pragma once
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/type_resolver.h"

namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace vshim {
class TypeInfo {
 public:
  TypeInfo() {}
  virtual ~TypeInfo() {}
  virtual absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Type* GetTypeByTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Enum* GetEnumByTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Field* FindField(const google::protobuf::Type* type,
                                                   absl::string_view camel_case_name) const = 0;
  static TypeInfo* NewTypeInfo(TypeResolver* type_resolver);
};

// Like protobuf's, the type information is a cache without a lock: calls must
// not overlap. The number of overlaps seen so far, and a switch that makes
// calls slow enough to show them.
int OverlappingCalls();
void SetSlowCalls(bool slow);
}  // namespace vshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
