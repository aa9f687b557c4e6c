#pragma once
#include <string>

namespace google {
namespace protobuf {
namespace util {
namespace converter {
inline namespace vshim {
class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;

 protected:
  LocationTrackerInterface() {}
};
}  // namespace vshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
