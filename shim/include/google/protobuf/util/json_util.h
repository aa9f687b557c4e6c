#pragma once
#include <string>

#include "absl/status/status.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/util/type_resolver.h"

namespace google {
namespace protobuf {
namespace util {
inline namespace vshim {
struct JsonPrintOptions {
  bool add_whitespace = false;
  bool always_print_primitive_fields = false;
  bool always_print_enums_as_ints = false;
  bool preserve_proto_field_names = false;
};
using JsonOptions = JsonPrintOptions;

absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& type_url,
                                io::ZeroCopyInputStream* binary_input, io::ZeroCopyOutputStream* json_output,
                                const JsonPrintOptions& options);
inline absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& type_url,
                                       io::ZeroCopyInputStream* binary_input,
                                       io::ZeroCopyOutputStream* json_output) {
  return BinaryToJsonStream(resolver, type_url, binary_input, json_output, JsonPrintOptions());
}
// Only for the repository's own unit tests.
absl::Status JsonToBinaryString(TypeResolver* resolver, const std::string& type_url, const std::string& json,
                                std::string* binary);
}  // namespace vshim
}  // namespace util
}  // namespace protobuf
}  // namespace google
