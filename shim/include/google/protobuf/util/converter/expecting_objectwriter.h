// For running the repository's own unit tests against the stand-ins.
#pragma once
#include <gmock/gmock.h>

#include "google/protobuf/util/converter/object_writer.h"

namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace vshim {
using testing::Eq;
using testing::IsEmpty;
using testing::NanSensitiveDoubleEq;
using testing::NanSensitiveFloatEq;
using testing::Return;
using testing::StrEq;
using testing::TypedEq;

class MockObjectWriter : public ObjectWriter {
 public:
  MockObjectWriter() {}
  MOCK_METHOD(ObjectWriter*, StartObject, (absl::string_view), (override));
  MOCK_METHOD(ObjectWriter*, EndObject, (), (override));
  MOCK_METHOD(ObjectWriter*, StartList, (absl::string_view), (override));
  MOCK_METHOD(ObjectWriter*, EndList, (), (override));
  MOCK_METHOD(ObjectWriter*, RenderBool, (absl::string_view, bool), (override));
  MOCK_METHOD(ObjectWriter*, RenderInt32, (absl::string_view, int32_t), (override));
  MOCK_METHOD(ObjectWriter*, RenderUint32, (absl::string_view, uint32_t), (override));
  MOCK_METHOD(ObjectWriter*, RenderInt64, (absl::string_view, int64_t), (override));
  MOCK_METHOD(ObjectWriter*, RenderUint64, (absl::string_view, uint64_t), (override));
  MOCK_METHOD(ObjectWriter*, RenderDouble, (absl::string_view, double), (override));
  MOCK_METHOD(ObjectWriter*, RenderFloat, (absl::string_view, float), (override));
  MOCK_METHOD(ObjectWriter*, RenderString, (absl::string_view, absl::string_view), (override));
  MOCK_METHOD(ObjectWriter*, RenderBytes, (absl::string_view, absl::string_view), (override));
  MOCK_METHOD(ObjectWriter*, RenderNull, (absl::string_view), (override));
};

class ExpectingObjectWriter : public ObjectWriter {
 public:
  explicit ExpectingObjectWriter(MockObjectWriter* mock) : mock_(mock) {}
#define VSHIM_EXPECT(call) \
  EXPECT_CALL(*mock_, call).InSequence(seq_).WillOnce(Return(mock_)); \
  return this
  ObjectWriter* StartObject(absl::string_view n) override {
    VSHIM_EXPECT(StartObject(Eq(std::string(n))));
  }
  ObjectWriter* EndObject() override { VSHIM_EXPECT(EndObject()); }
  ObjectWriter* StartList(absl::string_view n) override { VSHIM_EXPECT(StartList(Eq(std::string(n)))); }
  ObjectWriter* EndList() override { VSHIM_EXPECT(EndList()); }
  ObjectWriter* RenderBool(absl::string_view n, bool v) override {
    VSHIM_EXPECT(RenderBool(Eq(std::string(n)), TypedEq<bool>(v)));
  }
  ObjectWriter* RenderInt32(absl::string_view n, int32_t v) override {
    VSHIM_EXPECT(RenderInt32(Eq(std::string(n)), TypedEq<int32_t>(v)));
  }
  ObjectWriter* RenderUint32(absl::string_view n, uint32_t v) override {
    VSHIM_EXPECT(RenderUint32(Eq(std::string(n)), TypedEq<uint32_t>(v)));
  }
  ObjectWriter* RenderInt64(absl::string_view n, int64_t v) override {
    VSHIM_EXPECT(RenderInt64(Eq(std::string(n)), TypedEq<int64_t>(v)));
  }
  ObjectWriter* RenderUint64(absl::string_view n, uint64_t v) override {
    VSHIM_EXPECT(RenderUint64(Eq(std::string(n)), TypedEq<uint64_t>(v)));
  }
  ObjectWriter* RenderDouble(absl::string_view n, double v) override {
    VSHIM_EXPECT(RenderDouble(Eq(std::string(n)), NanSensitiveDoubleEq(v)));
  }
  ObjectWriter* RenderFloat(absl::string_view n, float v) override {
    VSHIM_EXPECT(RenderFloat(Eq(std::string(n)), NanSensitiveFloatEq(v)));
  }
  ObjectWriter* RenderString(absl::string_view n, absl::string_view v) override {
    VSHIM_EXPECT(RenderString(Eq(std::string(n)), Eq(std::string(v))));
  }
  ObjectWriter* RenderBytes(absl::string_view n, absl::string_view v) override {
    VSHIM_EXPECT(RenderBytes(Eq(std::string(n)), Eq(std::string(v))));
  }
  ObjectWriter* RenderNull(absl::string_view n) override {
    VSHIM_EXPECT(RenderNull(Eq(std::string(n))));
  }
#undef VSHIM_EXPECT
  MockObjectWriter* mock_;
  testing::Sequence seq_;
};
}  // namespace vshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
