#pragma once
#include <memory>
#include <string>
#include <vector>

#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/converter/error_listener.h"
#include "google/protobuf/util/converter/object_writer.h"
#include "google/protobuf/util/type_resolver.h"

namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace vshim {
// Collects the events of one root value as a tree. When the root is closed,
// the tree is handed to protobuf's own JSON-to-binary translation.
class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  struct Options {
    bool struct_integers_as_strings = false;
    bool ignore_unknown_fields = false;
    bool ignore_unknown_enum_values = false;
    bool use_lower_camel_for_enums = false;
    bool case_insensitive_enum_parsing = false;
    bool ignore_null_value_map_entry = false;
    static const Options& Defaults() {
      static Options o;
      return o;
    }
  };
  ProtoStreamObjectWriter(TypeResolver* type_resolver, const google::protobuf::Type& type,
                          strings::ByteSink* output, ErrorListener* listener,
                          const Options& options = Options::Defaults());
  ~ProtoStreamObjectWriter() override;
  bool done() { return done_; }

  ProtoStreamObjectWriter* StartObject(absl::string_view name) override;
  ProtoStreamObjectWriter* EndObject() override;
  ProtoStreamObjectWriter* StartList(absl::string_view name) override;
  ProtoStreamObjectWriter* EndList() override;
  ProtoStreamObjectWriter* RenderBool(absl::string_view name, bool value) override;
  ProtoStreamObjectWriter* RenderInt32(absl::string_view name, int32_t value) override;
  ProtoStreamObjectWriter* RenderUint32(absl::string_view name, uint32_t value) override;
  ProtoStreamObjectWriter* RenderInt64(absl::string_view name, int64_t value) override;
  ProtoStreamObjectWriter* RenderUint64(absl::string_view name, uint64_t value) override;
  ProtoStreamObjectWriter* RenderDouble(absl::string_view name, double value) override;
  ProtoStreamObjectWriter* RenderFloat(absl::string_view name, float value) override;
  ProtoStreamObjectWriter* RenderString(absl::string_view name, absl::string_view value) override;
  ProtoStreamObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) override;
  ProtoStreamObjectWriter* RenderNull(absl::string_view name) override;

  struct Node;

 private:
  ProtoStreamObjectWriter* Add(absl::string_view name, Node* node);
  void Open(absl::string_view name, Node* node);
  void CloseOne(bool list);
  void Write();
  void Print(const Node& n, const google::protobuf::Type* type, const google::protobuf::Field* field, bool element,
             std::string* out);

  TypeResolver* resolver_;
  const google::protobuf::Type& type_;
  strings::ByteSink* output_;
  ErrorListener* listener_;
  Options options_;
  std::unique_ptr<Node> root_;
  std::vector<Node*> open_;
  bool done_ = false;
  int lists_ = 0;  // depth of a list at the root
};
}  // namespace vshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
