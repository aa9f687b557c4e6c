#pragma once
#include <cstdint>
#include <string>

#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"

namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace vshim {
// A tagged scalar, with protobuf's conversions.
class DataPiece {
 public:
  enum Type {
    TYPE_INT32 = 1,
    TYPE_INT64 = 2,
    TYPE_UINT32 = 3,
    TYPE_UINT64 = 4,
    TYPE_DOUBLE = 5,
    TYPE_FLOAT = 6,
    TYPE_BOOL = 7,
    TYPE_ENUM = 8,
    TYPE_STRING = 9,
    TYPE_BYTES = 10,
    TYPE_NULL = 11,
  };
  explicit DataPiece(int32_t v) : type_(TYPE_INT32), i32_(v) {}
  explicit DataPiece(int64_t v) : type_(TYPE_INT64), i64_(v) {}
  explicit DataPiece(uint32_t v) : type_(TYPE_UINT32), u32_(v) {}
  explicit DataPiece(uint64_t v) : type_(TYPE_UINT64), u64_(v) {}
  explicit DataPiece(double v) : type_(TYPE_DOUBLE), double_(v) {}
  explicit DataPiece(float v) : type_(TYPE_FLOAT), float_(v) {}
  explicit DataPiece(bool v) : type_(TYPE_BOOL), bool_(v) {}
  DataPiece(absl::string_view v, bool use_strict_base64_decoding)
      : type_(TYPE_STRING), str_(v), strict_(use_strict_base64_decoding) {}
  // A value of type bytes (the third argument is ignored, as in protobuf).
  DataPiece(absl::string_view v, bool /*dummy*/, bool use_strict_base64_decoding)
      : type_(TYPE_BYTES), str_(v), strict_(use_strict_base64_decoding) {}
  static DataPiece NullData() {
    DataPiece d(false);
    d.type_ = TYPE_NULL;
    return d;
  }

  Type type() const { return type_; }
  absl::string_view str() const { return str_; }
  bool use_strict_base64_decoding() const { return strict_; }

  absl::StatusOr<int32_t> ToInt32() const;
  absl::StatusOr<uint32_t> ToUint32() const;
  absl::StatusOr<int64_t> ToInt64() const;
  absl::StatusOr<uint64_t> ToUint64() const;
  absl::StatusOr<double> ToDouble() const;
  absl::StatusOr<float> ToFloat() const;
  absl::StatusOr<bool> ToBool() const;
  absl::StatusOr<std::string> ToString() const;
  absl::StatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(absl::string_view default_string) const;

 private:
  Type type_;
  union {
    int32_t i32_;
    int64_t i64_;
    uint32_t u32_;
    uint64_t u64_;
    double double_;
    float float_;
    bool bool_;
  };
  absl::string_view str_;
  bool strict_ = true;
};
}  // namespace vshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
