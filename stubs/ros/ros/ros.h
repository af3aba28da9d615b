// Stand-in for the ROS header of the same name: time and silent logging.
#pragma once
#include <cmath>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace ros
{
struct Time {
  uint32_t sec, nsec;
  Time() : sec(0), nsec(0)
  {
  }
  explicit Time(double t) : sec((uint32_t)std::floor(t)), nsec((uint32_t)std::floor((t - std::floor(t)) * 1e9 + 0.5))
  {
  }
  double toSec() const
  {
    return (double)sec + 1e-9 * (double)nsec;
  }
  static Time now()
  {
    return Time(0.0);
  }
  bool operator==(const Time &o) const
  {
    return sec == o.sec && nsec == o.nsec;
  }
};
}
struct StubNullStream {
  template <class T>
  StubNullStream &operator<<(const T &)
  {
    return *this;
  }
};
#define STUB_LOG(x)        \
  do {                     \
    StubNullStream stub_s; \
    stub_s << x;           \
  } while (0)
#define ROS_INFO_STREAM(x) STUB_LOG(x)
#define ROS_DEBUG_STREAM(x) STUB_LOG(x)
#define ROS_WARN_STREAM(x) STUB_LOG(x)
#define ROS_ERROR_STREAM(x) STUB_LOG(x)
#define ROS_INFO(...)
#define ROS_DEBUG(...)
namespace std_msgs
{
struct Header {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}
