// Stand-in for the PCL header of the same name: exact search by comparing all
// points; equal distances keep the order of the cloud.
#pragma once
#include <pcl/point_cloud.h>
#include <algorithm>
namespace pcl
{
template <typename P>
class KdTreeFLANN
{
public:
  typedef typename PointCloud<P>::ConstPtr PointCloudConstPtr;
  typedef boost::shared_ptr<const std::vector<int>> IndicesConstPtr;
  void setInputCloud(const PointCloudConstPtr &c, const IndicesConstPtr &idx = IndicesConstPtr())
  {
    // like the original, indexes the coordinates at the time of the call
    pts_.clear();
    ids_.clear();
    for (size_t i = 0; i < c->size(); ++i) {
      const P &p = (*c)[i];
      if (std::isnan(p.x) || std::isnan(p.y) || std::isnan(p.z))
        continue;
      pts_.push_back(p);
      ids_.push_back((int)i);
    }
  }
  int nearestKSearch(const P &q, int k, std::vector<int> &ind, std::vector<float> &dist) const
  {
    std::vector<std::pair<float, int>> d;
    for (size_t i = 0; i < pts_.size(); ++i) {
      float x = pts_[i].x - q.x, y = pts_[i].y - q.y, z = pts_[i].z - q.z;
      d.push_back(std::make_pair(x * x + y * y + z * z, (int)i));
    }
    std::sort(d.begin(), d.end());
    size_t n = std::min<size_t>(k < 0 ? 0 : k, d.size());
    ind.resize(n);
    dist.resize(n);
    for (size_t i = 0; i < n; ++i) {
      ind[i] = ids_[d[i].second];
      dist[i] = d[i].first;
    }
    return (int)n;
  }

private:
  std::vector<P> pts_;
  std::vector<int> ids_;
};
}
