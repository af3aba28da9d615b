// Stand-in: records what would be written, touches no file.
#pragma once
#include <pcl/point_cloud.h>
namespace pcl
{
namespace io
{
struct Saved {
  std::string name;
  size_t points;
};
inline std::vector<Saved> &saved()
{
  static std::vector<Saved> s;
  return s;
}
template <typename P>
int savePCDFile(const std::string &name, const PointCloud<P> &c, bool = false)
{
  saved().push_back(Saved{name, c.size()});
  return 0;
}
}
}
