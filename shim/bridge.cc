#include "bridge.h"

#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/type_resolver.h"
#include "google/protobuf/util/type_resolver_util.h"

namespace vbridge {
namespace pu = google::protobuf::util;
namespace {
class Real : public pu::TypeResolver {
 public:
  explicit Real(const Resolver& r) : r_(r) {}
  pu::Status ResolveMessageType(const std::string& url, google::protobuf::Type* t) override {
    return r_.type(url, t) ? pu::Status() : pu::Status(pu::StatusCode::kNotFound, "no such type");
  }
  pu::Status ResolveEnumType(const std::string& url, google::protobuf::Enum* t) override {
    return r_.enu(url, t) ? pu::Status() : pu::Status(pu::StatusCode::kNotFound, "no such enum");
  }

 private:
  const Resolver& r_;
};
}  // namespace

int JsonToBinary(const Resolver& r, const std::string& url, const std::string& json, bool ignore_unknown,
                 bool ci, std::string* out, std::string* error) {
  Real res(r);
  google::protobuf::io::ArrayInputStream in(json.data(), static_cast<int>(json.size()));
  google::protobuf::io::StringOutputStream os(out);
  pu::JsonParseOptions o;
  o.ignore_unknown_fields = ignore_unknown;
  o.case_insensitive_enum_parsing = ci;
  pu::Status s = pu::JsonToBinaryStream(&res, url, &in, &os, o);
  *error = std::string(s.message());
  return static_cast<int>(s.code());
}

int BinaryToJson(const Resolver& r, const std::string& url, google::protobuf::io::ZeroCopyInputStream* in,
                 google::protobuf::io::ZeroCopyOutputStream* out, const PrintOptions& p, std::string* error) {
  Real res(r);
  pu::JsonPrintOptions o;
  o.add_whitespace = p.whitespace;
  o.always_print_primitive_fields = p.primitives;
  o.always_print_enums_as_ints = p.enums_as_ints;
  o.preserve_proto_field_names = p.proto_names;
  pu::Status s = pu::BinaryToJsonStream(&res, url, in, out, o);
  *error = std::string(s.message());
  return static_cast<int>(s.code());
}

Resolver PoolResolver(const std::string& prefix, const google::protobuf::DescriptorPool* pool) {
  std::shared_ptr<pu::TypeResolver> real(pu::NewTypeResolverForDescriptorPool(prefix, pool));
  Resolver r;
  r.type = [real](const std::string& url, google::protobuf::Type* t) {
    return real->ResolveMessageType(url, t).ok();
  };
  r.enu = [real](const std::string& url, google::protobuf::Enum* t) {
    return real->ResolveEnumType(url, t).ok();
  };
  return r;
}

}  // namespace vbridge
