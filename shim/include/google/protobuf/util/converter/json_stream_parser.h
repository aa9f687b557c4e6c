#pragma once
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/util/converter/object_writer.h"

namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace vshim {
// An incremental JSON parser: events are sent as soon as the bytes that
// complete them have arrived.
class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow) : ow_(ow) {}
  virtual ~JsonStreamParser() {}
  absl::Status Parse(absl::string_view json);
  absl::Status FinishParse();

 private:
  enum State { VALUE, FIRST_ELEMENT, AFTER_ELEMENT, FIRST_KEY, KEY, COLON, AFTER_VALUE, END };
  enum Token { NONE, STRING, NUMBER, WORD };
  absl::Status Fail(const char* what);
  absl::Status Byte(char c);
  absl::Status Structural(char c);
  absl::Status Scalar();
  absl::Status String();
  void Close();

  ObjectWriter* ow_;
  std::vector<char> open_;   // '{' or '['
  State state_ = VALUE;
  Token token_ = NONE;
  std::string text_;         // the token so far, raw
  bool escape_ = false;
  std::string key_;
  absl::Status failed_;
};
}  // namespace vshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
