#pragma once
#include <string>

#include "google/protobuf/descriptor.h"
#include "google/protobuf/util/type_resolver.h"

namespace google {
namespace protobuf {
namespace util {
inline namespace vshim {
TypeResolver* NewTypeResolverForDescriptorPool(const std::string& url_prefix, const DescriptorPool* pool);
}  // namespace vshim
}  // namespace util
}  // namespace protobuf
}  // namespace google
