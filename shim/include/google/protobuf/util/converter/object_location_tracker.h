#pragma once
#include <string>

#include "google/protobuf/util/converter/location_tracker.h"

namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace vshim {
class ObjectLocationTracker : public LocationTrackerInterface {
 public:
  ObjectLocationTracker() {}
  std::string ToString() const override { return ""; }
};
}  // namespace vshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
