// Implements the stand-ins for the protobuf util headers that are not installed.
// Everything with semantics of its own (binary to JSON, JSON to binary, the
// conversion of values, well-known types) is left to the installed protobuf.
#include <atomic>
#include <cctype>
#include <cmath>
#include <cstdio>
#include <limits>
#include <map>
#include <set>
#include <thread>
#include <chrono>

#include <nlohmann/json.hpp>

#include "absl/strings/str_cat.h"
#include "bridge.h"
#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/stubs/strutil.h"
#include "google/protobuf/util/converter/datapiece.h"
#include "google/protobuf/util/converter/error_listener.h"
#include "google/protobuf/util/converter/json_stream_parser.h"
#include "google/protobuf/util/converter/object_location_tracker.h"
#include "google/protobuf/util/converter/object_writer.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
#include "google/protobuf/util/converter/type_info.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/type_resolver.h"
#include "google/protobuf/util/type_resolver_util.h"

namespace google {
namespace protobuf {
namespace util {
inline namespace vshim {
namespace {
absl::Status MakeStatus(int code, const std::string& what) {
  if (code == 0) return absl::OkStatus();
  return absl::Status(static_cast<absl::StatusCode>(code), what);
}
vbridge::Resolver Wrap(TypeResolver* r) {
  vbridge::Resolver v;
  v.type = [r](const std::string& u, google::protobuf::Type* t) { return r->ResolveMessageType(u, t).ok(); };
  v.enu = [r](const std::string& u, google::protobuf::Enum* t) { return r->ResolveEnumType(u, t).ok(); };
  return v;
}
class PoolTypes : public TypeResolver {
 public:
  PoolTypes(const std::string& p, const DescriptorPool* pool) : r_(vbridge::PoolResolver(p, pool)) {}
  absl::Status ResolveMessageType(const std::string& u, google::protobuf::Type* t) override {
    return r_.type(u, t) ? absl::OkStatus() : absl::NotFoundError("Invalid type URL: " + u);
  }
  absl::Status ResolveEnumType(const std::string& u, google::protobuf::Enum* t) override {
    return r_.enu(u, t) ? absl::OkStatus() : absl::NotFoundError("Invalid enum URL: " + u);
  }

 private:
  vbridge::Resolver r_;
};
}  // namespace

TypeResolver* NewTypeResolverForDescriptorPool(const std::string& prefix, const DescriptorPool* pool) {
  return new PoolTypes(prefix, pool);
}

absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& url, io::ZeroCopyInputStream* in,
                                io::ZeroCopyOutputStream* out, const JsonPrintOptions& o) {
  vbridge::PrintOptions p;
  p.whitespace = o.add_whitespace;
  p.primitives = o.always_print_primitive_fields;
  p.enums_as_ints = o.always_print_enums_as_ints;
  p.proto_names = o.preserve_proto_field_names;
  std::string error;
  int code = vbridge::BinaryToJson(Wrap(resolver), url, in, out, p, &error);
  return MakeStatus(code, error);
}

absl::Status JsonToBinaryString(TypeResolver* resolver, const std::string& url, const std::string& json,
                                std::string* binary) {
  std::string error;
  int code = vbridge::JsonToBinary(Wrap(resolver), url, json, false, false, binary, &error);
  return MakeStatus(code, error);
}
}  // namespace vshim

namespace converter {
inline namespace vshim {

// ---- values -------------------------------------------------------------
namespace {
template <class To, class From>
absl::StatusOr<To> Number(From v) {
  if constexpr (std::is_floating_point<To>::value) {
    return static_cast<To>(v);
  } else if constexpr (std::is_floating_point<From>::value) {
    if (!(v >= -9.3e18 && v <= 1.9e19) || v != std::trunc(v)) return absl::InvalidArgumentError(absl::StrCat(v));
    if (v < static_cast<double>(std::numeric_limits<To>::min()) ||
        v > static_cast<double>(std::numeric_limits<To>::max()) ||
        (sizeof(To) == 8 && v >= (std::is_signed<To>::value ? 9223372036854775808.0 : 18446744073709551616.0)))
      return absl::InvalidArgumentError(absl::StrCat(v));
    return static_cast<To>(v);
  } else {
    To r = static_cast<To>(v);
    if (static_cast<From>(r) != v || ((v < From()) != (r < To()))) return absl::InvalidArgumentError(absl::StrCat(v));
    return r;
  }
}
absl::Status Bad(absl::string_view s) { return absl::InvalidArgumentError(absl::StrCat("\"", s, "\"")); }

template <class To>
absl::StatusOr<To> Text(absl::string_view s, bool (*f)(const std::string&, To*)) {
  if (!s.empty() && (s.front() == ' ' || s.back() == ' ')) return Bad(s);
  To v;
  if (f(std::string(s), &v)) return v;
  return Bad(s);
}
bool S32(const std::string& s, int32_t* v) { return safe_strto32(s, v); }
bool U32(const std::string& s, uint32_t* v) { return safe_strtou32(s, v); }
bool S64(const std::string& s, int64_t* v) {
  google::protobuf::int64 x;
  if (!safe_strto64(s, &x)) return false;
  *v = x;
  return true;
}
bool U64(const std::string& s, uint64_t* v) {
  google::protobuf::uint64 x;
  if (!safe_strtou64(s, &x)) return false;
  *v = x;
  return true;
}
bool SD(const std::string& s, double* v) { return safe_strtod(s, v); }
bool SF(const std::string& s, float* v) { return safe_strtof(s, v); }
bool SB(const std::string& s, bool* v) { return safe_strtob(s, v); }

template <class To>
absl::StatusOr<To> Real(absl::string_view s, bool (*f)(const std::string&, To*)) {
  if (s == "Infinity") return std::numeric_limits<To>::infinity();
  if (s == "-Infinity") return -std::numeric_limits<To>::infinity();
  if (s == "NaN") return std::numeric_limits<To>::quiet_NaN();
  auto r = Text<To>(s, f);
  if (r.ok() && !std::isfinite(*r)) return Bad(s);
  return r;
}
bool Decode64(absl::string_view s, bool strict, std::string* out) {
  std::string in(s);
  std::string plain = in;
  while (!plain.empty() && plain.back() == '=') plain.pop_back();
  if (WebSafeBase64Unescape(in, out)) {
    if (strict) {
      std::string again;
      WebSafeBase64Escape(*out, &again);
      while (!again.empty() && again.back() == '=') again.pop_back();
      return again == plain;
    }
    return true;
  }
  if (Base64Unescape(in, out)) {
    if (strict) {
      std::string again;
      Base64Escape(reinterpret_cast<const unsigned char*>(out->data()), static_cast<int>(out->size()), &again, false);
      while (!again.empty() && again.back() == '=') again.pop_back();
      return again == plain;
    }
    return true;
  }
  return false;
}
std::string Encode64(absl::string_view s) {
  std::string r;
  Base64Escape(reinterpret_cast<const unsigned char*>(s.data()), static_cast<int>(s.size()), &r, true);
  return r;
}
}  // namespace

#define VSHIM_NUMERIC(T)                          \
  switch (type_) {                                \
    case TYPE_INT32: return Number<T>(i32_);      \
    case TYPE_INT64: return Number<T>(i64_);      \
    case TYPE_UINT32: return Number<T>(u32_);     \
    case TYPE_UINT64: return Number<T>(u64_);     \
    case TYPE_DOUBLE: return Number<T>(double_);  \
    case TYPE_FLOAT: return Number<T>(float_);    \
    default: return absl::InvalidArgumentError(ValueAsStringOrDefault("Wrong type. Bool, Enum, String and Cord not supported.")); \
  }

absl::StatusOr<int32_t> DataPiece::ToInt32() const {
  if (type_ == TYPE_STRING) return Text<int32_t>(str_, S32);
  VSHIM_NUMERIC(int32_t)
}
absl::StatusOr<uint32_t> DataPiece::ToUint32() const {
  if (type_ == TYPE_STRING) return Text<uint32_t>(str_, U32);
  VSHIM_NUMERIC(uint32_t)
}
absl::StatusOr<int64_t> DataPiece::ToInt64() const {
  if (type_ == TYPE_STRING) return Text<int64_t>(str_, S64);
  VSHIM_NUMERIC(int64_t)
}
absl::StatusOr<uint64_t> DataPiece::ToUint64() const {
  if (type_ == TYPE_STRING) return Text<uint64_t>(str_, U64);
  VSHIM_NUMERIC(uint64_t)
}
absl::StatusOr<double> DataPiece::ToDouble() const {
  if (type_ == TYPE_STRING) return Real<double>(str_, SD);
  VSHIM_NUMERIC(double)
}
absl::StatusOr<float> DataPiece::ToFloat() const {
  if (type_ == TYPE_STRING) return Real<float>(str_, SF);
  VSHIM_NUMERIC(float)
}
absl::StatusOr<bool> DataPiece::ToBool() const {
  if (type_ == TYPE_BOOL) return bool_;
  if (type_ == TYPE_STRING) return Text<bool>(str_, SB);
  return absl::InvalidArgumentError(ValueAsStringOrDefault("Wrong type. Cannot convert to Bool."));
}
absl::StatusOr<std::string> DataPiece::ToString() const {
  if (type_ == TYPE_STRING) return std::string(str_);
  if (type_ == TYPE_BYTES) return Encode64(str_);
  return absl::InvalidArgumentError(ValueAsStringOrDefault("Cannot convert to string."));
}
absl::StatusOr<std::string> DataPiece::ToBytes() const {
  if (type_ == TYPE_BYTES) return std::string(str_);
  if (type_ == TYPE_STRING) {
    std::string out;
    if (!Decode64(str_, strict_, &out)) return absl::InvalidArgumentError(ValueAsStringOrDefault("Invalid data in input."));
    return out;
  }
  return absl::InvalidArgumentError(ValueAsStringOrDefault("Wrong type. Only String or Bytes can be converted to Bytes."));
}
std::string DataPiece::ValueAsStringOrDefault(absl::string_view d) const {
  switch (type_) {
    case TYPE_INT32: return absl::StrCat(i32_);
    case TYPE_INT64: return absl::StrCat(i64_);
    case TYPE_UINT32: return absl::StrCat(u32_);
    case TYPE_UINT64: return absl::StrCat(u64_);
    case TYPE_DOUBLE: return SimpleDtoa(double_);
    case TYPE_FLOAT: return SimpleFtoa(float_);
    case TYPE_BOOL: return bool_ ? "true" : "false";
    case TYPE_STRING: return absl::StrCat("\"", str_, "\"");
    case TYPE_BYTES: return absl::StrCat("\"", Encode64(str_), "\"");
    case TYPE_NULL: return "null";
    default: return std::string(d);
  }
}

void ObjectWriter::RenderDataPieceTo(const DataPiece& d, absl::string_view name, ObjectWriter* ow) {
  switch (d.type()) {
    case DataPiece::TYPE_INT32: ow->RenderInt32(name, *d.ToInt32()); break;
    case DataPiece::TYPE_INT64: ow->RenderInt64(name, *d.ToInt64()); break;
    case DataPiece::TYPE_UINT32: ow->RenderUint32(name, *d.ToUint32()); break;
    case DataPiece::TYPE_UINT64: ow->RenderUint64(name, *d.ToUint64()); break;
    case DataPiece::TYPE_DOUBLE: ow->RenderDouble(name, *d.ToDouble()); break;
    case DataPiece::TYPE_FLOAT: ow->RenderFloat(name, *d.ToFloat()); break;
    case DataPiece::TYPE_BOOL: ow->RenderBool(name, *d.ToBool()); break;
    case DataPiece::TYPE_STRING: ow->RenderString(name, d.str()); break;
    case DataPiece::TYPE_BYTES: ow->RenderBytes(name, d.str()); break;
    case DataPiece::TYPE_NULL: ow->RenderNull(name); break;
    default: break;
  }
}

// ---- types --------------------------------------------------------------
namespace {
std::atomic<int> g_inside{0}, g_overlaps{0};
std::atomic<bool> g_slow{false};
struct Inside {
  const void* who;
  Inside(std::atomic<int>* n) : n_(n) {
    if (n_->fetch_add(1) != 0) g_overlaps++;
    if (g_slow) std::this_thread::sleep_for(std::chrono::microseconds(20));
  }
  ~Inside() {
    if (g_slow) std::this_thread::yield();
    n_->fetch_sub(1);
  }
  std::atomic<int>* n_;
};

class Types : public TypeInfo {
 public:
  explicit Types(TypeResolver* r) : r_(r) {}
  absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(absl::string_view url) const override {
    Inside in(&inside_);
    return Get(url);
  }
  const google::protobuf::Type* GetTypeByTypeUrl(absl::string_view url) const override {
    Inside in(&inside_);
    auto r = Get(url);
    return r.ok() ? *r : nullptr;
  }
  const google::protobuf::Enum* GetEnumByTypeUrl(absl::string_view url) const override {
    Inside in(&inside_);
    auto it = enums_.find(std::string(url));
    if (it == enums_.end()) {
      std::unique_ptr<google::protobuf::Enum> e(new google::protobuf::Enum());
      if (!r_->ResolveEnumType(std::string(url), e.get()).ok()) e.reset();
      it = enums_.emplace(std::string(url), std::move(e)).first;
    }
    return it->second.get();
  }
  const google::protobuf::Field* FindField(const google::protobuf::Type* type, absl::string_view name) const override {
    Inside in(&inside_);
    auto it = names_.find(type);
    if (it == names_.end()) {
      std::map<std::string, std::string> m;
      for (const auto& f : type->fields()) m.emplace(f.json_name(), f.name());
      it = names_.emplace(type, std::move(m)).first;
    }
    auto n = it->second.find(std::string(name));
    std::string want = n == it->second.end() || n->second.empty() ? std::string(name) : n->second;
    for (const auto& f : type->fields())
      if (f.name() == want) return &f;
    return nullptr;
  }

 private:
  absl::StatusOr<const google::protobuf::Type*> Get(absl::string_view url) const {
    auto it = types_.find(std::string(url));
    if (it == types_.end()) {
      std::unique_ptr<google::protobuf::Type> t(new google::protobuf::Type());
      if (!r_->ResolveMessageType(std::string(url), t.get()).ok()) t.reset();
      it = types_.emplace(std::string(url), std::move(t)).first;
    }
    if (!it->second) return absl::NotFoundError(absl::StrCat("no type ", url));
    return it->second.get();
  }
  TypeResolver* r_;
  mutable std::atomic<int> inside_{0};
  mutable std::map<std::string, std::unique_ptr<google::protobuf::Type>> types_;
  mutable std::map<std::string, std::unique_ptr<google::protobuf::Enum>> enums_;
  mutable std::map<const google::protobuf::Type*, std::map<std::string, std::string>> names_;
};
}  // namespace

int OverlappingCalls() { return g_overlaps; }
void SetSlowCalls(bool slow) { g_slow = slow; }
TypeInfo* TypeInfo::NewTypeInfo(TypeResolver* r) { return new Types(r); }

// ---- the JSON parser ----------------------------------------------------
absl::Status JsonStreamParser::Fail(const char* what) {
  failed_ = absl::InvalidArgumentError(what);
  return failed_;
}

absl::Status JsonStreamParser::Parse(absl::string_view json) {
  if (!failed_.ok()) return failed_;
  for (char c : json) {
    absl::Status s = Byte(c);
    if (!s.ok()) return s;
  }
  return absl::OkStatus();
}

absl::Status JsonStreamParser::FinishParse() {
  if (!failed_.ok()) return failed_;
  if (token_ == NUMBER || token_ == WORD) {
    absl::Status s = Scalar();
    if (!s.ok()) return s;
  }
  if (token_ == STRING || state_ != END) return Fail("Unexpected end of input.");
  return absl::OkStatus();
}

absl::Status JsonStreamParser::Byte(char c) {
  if (token_ == STRING) {
    text_.push_back(c);
    if (escape_) {
      escape_ = false;
    } else if (c == '\\') {
      escape_ = true;
    } else if (c == '"') {
      return String();
    }
    return absl::OkStatus();
  }
  if (token_ == WORD) {  // complete at its last letter
    text_.push_back(c);
    for (absl::string_view w : {"true", "false", "null"}) {
      if (w == text_) return Scalar();
      if (w.substr(0, text_.size()) == text_) return absl::OkStatus();
    }
    return Fail("Expected a value.");
  }
  if (token_ == NUMBER) {
    if (std::isalnum(static_cast<unsigned char>(c)) || c == '+' || c == '-' || c == '.' || c == '_') {
      text_.push_back(c);
      return absl::OkStatus();
    }
    absl::Status s = Scalar();
    if (!s.ok()) return s;
  }
  if (c == ' ' || c == '\t' || c == '\n' || c == '\r') return absl::OkStatus();
  return Structural(c);
}

void JsonStreamParser::Close() { state_ = open_.empty() ? END : AFTER_VALUE; }

absl::Status JsonStreamParser::Structural(char c) {
  switch (state_) {
    case END:
      return Fail("Parsing terminated before end of input.");
    case VALUE:
    case FIRST_ELEMENT:
    case AFTER_ELEMENT:
      if (c == ']' && state_ != VALUE) {  // like protobuf's parser: also behind a comma
        open_.pop_back();
        ow_->EndList();
        Close();
        return absl::OkStatus();
      }
      if (c == '{' || c == '[') {
        if (open_.size() >= 100) return Fail("Message too deep.");
        open_.push_back(c);
        std::string key = std::move(key_);
        key_.clear();
        if (c == '{') {
          ow_->StartObject(key);
          state_ = FIRST_KEY;
        } else {
          ow_->StartList(key);
          state_ = FIRST_ELEMENT;
        }
        return absl::OkStatus();
      }
      text_.assign(1, c);
      if (c == '"') {
        token_ = STRING;
      } else if (c == '-' || (c >= '0' && c <= '9')) {
        token_ = NUMBER;
      } else if (std::isalpha(static_cast<unsigned char>(c))) {
        token_ = WORD;
      } else {
        return Fail("Expected a value.");
      }
      return absl::OkStatus();
    case FIRST_KEY:
    case KEY:
      if (c == '}') {  // also behind a comma
        open_.pop_back();
        ow_->EndObject();
        Close();
        return absl::OkStatus();
      }
      if (c != '"') return Fail("Expected an object key.");
      text_.assign(1, c);
      token_ = STRING;
      return absl::OkStatus();
    case COLON:
      if (c != ':') return Fail("Expected : between key:value pair.");
      state_ = VALUE;
      return absl::OkStatus();
    case AFTER_VALUE:
      if (c == ',') {
        state_ = open_.back() == '{' ? KEY : AFTER_ELEMENT;
        return absl::OkStatus();
      }
      if (c == '}' && open_.back() == '{') {
        open_.pop_back();
        ow_->EndObject();
        Close();
        return absl::OkStatus();
      }
      if (c == ']' && open_.back() == '[') {
        open_.pop_back();
        ow_->EndList();
        Close();
        return absl::OkStatus();
      }
      return Fail("Expected , or closing bracket.");
  }
  return Fail("Internal");
}

absl::Status JsonStreamParser::String() {
  token_ = NONE;
  auto v = nlohmann::json::parse(text_, nullptr, false);
  if (v.is_discarded()) return Fail("Invalid string.");
  std::string s = v.get<std::string>();
  if (state_ == FIRST_KEY || state_ == KEY) {
    key_ = std::move(s);
    state_ = COLON;
    return absl::OkStatus();
  }
  std::string key = std::move(key_);
  key_.clear();
  Close();
  ow_->RenderString(key, s);
  return absl::OkStatus();
}

absl::Status JsonStreamParser::Scalar() {
  Token t = token_;
  token_ = NONE;
  std::string key = std::move(key_);
  key_.clear();
  if (t == WORD) {
    if (text_ == "true" || text_ == "false") {
      Close();
      ow_->RenderBool(key, text_ == "true");
    } else if (text_ == "null") {
      Close();
      ow_->RenderNull(key);
    } else {
      return Fail("Unknown word.");
    }
    return absl::OkStatus();
  }
  // The JSON grammar of numbers.
  size_t i = 0;
  auto digits = [&] {
    size_t b = i;
    while (i < text_.size() && text_[i] >= '0' && text_[i] <= '9') ++i;
    return i - b;
  };
  bool ok = true, integer = true;
  if (text_[i] == '-') ++i;
  size_t b = i;
  size_t n = digits();
  ok = n > 0 && (n == 1 || text_[b] != '0');
  if (ok && i < text_.size() && text_[i] == '.') {
    ++i;
    integer = false;
    ok = digits() > 0;
  }
  if (ok && i < text_.size() && (text_[i] == 'e' || text_[i] == 'E')) {
    ++i;
    integer = false;
    if (i < text_.size() && (text_[i] == '+' || text_[i] == '-')) ++i;
    ok = digits() > 0;
  }
  if (!ok || i != text_.size()) return Fail("Unable to parse number.");
  int64_t sv;
  uint64_t uv;
  double dv;
  if (integer && text_[0] == '-' && S64(text_, &sv)) {
    Close();
    ow_->RenderInt64(key, sv);
  } else if (integer && text_[0] != '-' && U64(text_, &uv)) {
    Close();
    ow_->RenderUint64(key, uv);
  } else if (SD(text_, &dv) && std::isfinite(dv)) {
    Close();
    ow_->RenderDouble(key, dv);
  } else {
    return Fail("Number exceeds the range of double.");
  }
  return absl::OkStatus();
}

// ---- the message writer -------------------------------------------------
struct ProtoStreamObjectWriter::Node {
  enum Kind { OBJECT, LIST, SCALAR } kind = SCALAR;
  std::string name;
  std::string text;     // a scalar as JSON
  std::string string;   // and the string, if it is one
  bool is_string = false;
  std::vector<std::unique_ptr<Node>> items;
};

namespace {
std::string Quote(absl::string_view s) {
  return nlohmann::json(std::string(s)).dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
}
std::string RealText(double v) {
  if (std::isnan(v)) return "\"NaN\"";
  if (std::isinf(v)) return v > 0 ? "\"Infinity\"" : "\"-Infinity\"";
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
const std::set<std::string>& WellKnown() {
  static const std::set<std::string>* s = new std::set<std::string>{
      "google.protobuf.Any", "google.protobuf.Struct", "google.protobuf.Value", "google.protobuf.ListValue",
      "google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.FieldMask",
      "google.protobuf.DoubleValue", "google.protobuf.FloatValue", "google.protobuf.Int64Value",
      "google.protobuf.UInt64Value", "google.protobuf.Int32Value", "google.protobuf.UInt32Value",
      "google.protobuf.BoolValue", "google.protobuf.StringValue", "google.protobuf.BytesValue"};
  return *s;
}
bool IsMapEntry(const google::protobuf::Type& t) {
  for (const auto& o : t.options())
    if (o.name() == "map_entry" || o.name() == "google.protobuf.MessageOptions.map_entry" ||
        o.name() == "proto2.MessageOptions.map_entry")
      return true;
  return false;
}
const char kRoot[] = "vshim/root";
}  // namespace

ProtoStreamObjectWriter::ProtoStreamObjectWriter(TypeResolver* resolver, const google::protobuf::Type& type,
                                                 strings::ByteSink* output, ErrorListener* listener,
                                                 const Options& options)
    : resolver_(resolver), type_(type), output_(output), listener_(listener), options_(options) {}
ProtoStreamObjectWriter::~ProtoStreamObjectWriter() {}

void ProtoStreamObjectWriter::Open(absl::string_view name, Node* n) {
  Add(name, n);
  open_.push_back(n);
}

ProtoStreamObjectWriter* ProtoStreamObjectWriter::Add(absl::string_view name, Node* n) {
  n->name = std::string(name);
  if (open_.empty()) {
    root_.reset(n);
  } else {
    open_.back()->items.emplace_back(n);
  }
  return this;
}

ProtoStreamObjectWriter* ProtoStreamObjectWriter::StartObject(absl::string_view name) {
  if (lists_ > 0) {
    ++lists_;
    return this;
  }
  if (open_.empty() && !name.empty()) {
    listener_->InvalidName(ObjectLocationTracker(), name, "Root element should not be named.");
    ++lists_;
    return this;
  }
  Node* n = new Node();
  n->kind = Node::OBJECT;
  Open(name, n);
  return this;
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::StartList(absl::string_view name) {
  if (lists_ > 0 || open_.empty()) {
    if (lists_ == 0) listener_->InvalidName(ObjectLocationTracker(), name, "Root element must be a message.");
    ++lists_;
    return this;
  }
  Node* n = new Node();
  n->kind = Node::LIST;
  Open(name, n);
  return this;
}
void ProtoStreamObjectWriter::CloseOne(bool) {
  if (lists_ > 0) {
    --lists_;
    return;
  }
  if (open_.empty()) return;
  open_.pop_back();
  if (open_.empty()) Write();
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::EndObject() {
  CloseOne(false);
  return this;
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::EndList() {
  CloseOne(true);
  return this;
}

#define VSHIM_SCALAR(TEXT)                                                                                   \
  if (lists_ > 0) return this;                                                                               \
  if (open_.empty()) {                                                                                       \
    listener_->InvalidName(ObjectLocationTracker(), name, "Root element must be a message.");               \
    return this;                                                                                             \
  }                                                                                                          \
  Node* n = new Node();                                                                                      \
  n->text = TEXT;                                                                                            \
  return Add(name, n);

ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderBool(absl::string_view name, bool v) {
  VSHIM_SCALAR(v ? "true" : "false")
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderInt32(absl::string_view name, int32_t v) {
  VSHIM_SCALAR(absl::StrCat(v))
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderUint32(absl::string_view name, uint32_t v) {
  VSHIM_SCALAR(absl::StrCat(v))
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderInt64(absl::string_view name, int64_t v) {
  VSHIM_SCALAR(absl::StrCat(v))
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderUint64(absl::string_view name, uint64_t v) {
  VSHIM_SCALAR(absl::StrCat(v))
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderDouble(absl::string_view name, double v) {
  VSHIM_SCALAR(RealText(v))
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderFloat(absl::string_view name, float v) {
  VSHIM_SCALAR(RealText(v))
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderNull(absl::string_view name) { VSHIM_SCALAR("null") }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderBytes(absl::string_view name, absl::string_view v) {
  VSHIM_SCALAR(Quote(Encode64(v)))
}
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderString(absl::string_view name, absl::string_view v) {
  if (lists_ > 0) return this;
  if (open_.empty()) {
    listener_->InvalidName(ObjectLocationTracker(), name, "Root element must be a message.");
    return this;
  }
  Node* n = new Node();
  n->text = Quote(v);
  n->string = std::string(v);
  n->is_string = true;
  return Add(name, n);
}

// Prints a value of the given type (of a field, or null: whatever it is, it is
// kept). Fields the type does not have are left out.
void ProtoStreamObjectWriter::Print(const Node& n, const google::protobuf::Type* type,
                                    const google::protobuf::Field* field, bool element, std::string* out) {
  if (n.kind == Node::SCALAR) {
    std::string decoded;
    if (n.is_string && field != nullptr && field->kind() == google::protobuf::Field::TYPE_BYTES &&
        !use_strict_base64_decoding() && Decode64(n.string, false, &decoded)) {
      *out += Quote(Encode64(decoded));
    } else {
      *out += n.text;
    }
    return;
  }
  if (n.kind == Node::LIST) {
    *out += "[";
    bool first = true;
    for (const auto& i : n.items) {
      if (!first) *out += ",";
      first = false;
      Print(*i, type, field, true, out);
    }
    *out += "]";
    return;
  }
  *out += "{";
  bool first = true;
  std::unique_ptr<TypeInfo> info(TypeInfo::NewTypeInfo(resolver_));
  bool known = type != nullptr && WellKnown().count(type->name()) == 0;
  bool map = known && field != nullptr && !element && IsMapEntry(*type);
  for (const auto& i : n.items) {
    const google::protobuf::Field* f = nullptr;
    const google::protobuf::Type* t = nullptr;
    if (known) {
      f = map ? info->FindField(type, "value") : info->FindField(type, i->name);
      if (f == nullptr && options_.ignore_unknown_fields) continue;
      if (f != nullptr && (f->kind() == google::protobuf::Field::TYPE_MESSAGE)) t = info->GetTypeByTypeUrl(f->type_url());
    }
    if (!first) *out += ",";
    first = false;
    *out += Quote(i->name) + ":";
    Print(*i, t, f, false, out);
  }
  *out += "}";
}

void ProtoStreamObjectWriter::Write() {
  std::string json, binary, error;
  Print(*root_, &type_, nullptr, true, &json);
  vbridge::Resolver r = Wrap(resolver_);
  auto inner = r.type;
  const google::protobuf::Type* type = &type_;
  r.type = [inner, type](const std::string& url, google::protobuf::Type* t) {
    if (url == kRoot) {
      *t = *type;
      return true;
    }
    return inner(url, t);
  };
  int code = vbridge::JsonToBinary(r, kRoot, json, false, options_.case_insensitive_enum_parsing, &binary, &error);
  if (code != 0) {
    listener_->InvalidValue(ObjectLocationTracker(), type_.name(), error);
  } else {
    output_->Append(binary.data(), binary.size());
  }
  output_->Flush();
  root_.reset();
  done_ = true;
}

}  // namespace vshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
