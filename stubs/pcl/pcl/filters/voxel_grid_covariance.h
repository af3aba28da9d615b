#pragma once
#include <pcl/point_cloud.h>
namespace pcl
{
template <typename P>
class VoxelGridCovariance
{
public:
  struct Leaf {
  };
  typedef Leaf *LeafPtr;
  typedef const Leaf *LeafConstPtr;
};
}
