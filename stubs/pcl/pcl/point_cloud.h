// Stand-in for the PCL header of the same name: data containers only.
#pragma once
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <iostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <pcl/point_types.h>
namespace pcl
{
struct PCLHeader {
  unsigned seq = 0;
  uint64_t stamp = 0;
  std::string frame_id;
};
struct PointIndices {
  typedef boost::shared_ptr<PointIndices> Ptr;
  typedef boost::shared_ptr<const PointIndices> ConstPtr;
  std::vector<int> indices;
};
template <typename P>
class PointCloud
{
public:
  typedef boost::shared_ptr<PointCloud<P>> Ptr;
  typedef boost::shared_ptr<const PointCloud<P>> ConstPtr;
  typedef P PointType;
  typedef typename std::vector<P>::iterator iterator;
  typedef typename std::vector<P>::const_iterator const_iterator;
  PCLHeader header;
  std::vector<P> points;
  uint32_t width = 0, height = 1;
  bool is_dense = true;
  size_t size() const
  {
    return points.size();
  }
  bool empty() const
  {
    return points.empty();
  }
  void reserve(size_t n)
  {
    points.reserve(n);
  }
  void resize(size_t n)
  {
    points.resize(n);
    width = n;
  }
  void clear()
  {
    points.clear();
    width = 0;
  }
  void push_back(const P &p)
  {
    points.push_back(p);
    width = points.size();
  }
  const P &at(size_t i) const
  {
    return points.at(i);
  }
  P &at(size_t i)
  {
    return points.at(i);
  }
  const P &operator[](size_t i) const
  {
    return points.at(i);
  }
  P &operator[](size_t i)
  {
    return points.at(i);
  }
  iterator begin()
  {
    return points.begin();
  }
  iterator end()
  {
    return points.end();
  }
  const_iterator begin() const
  {
    return points.begin();
  }
  const_iterator end() const
  {
    return points.end();
  }
  Ptr makeShared() const
  {
    return Ptr(new PointCloud<P>(*this));
  }
  PointCloud &operator+=(const PointCloud &o)
  {
    points.insert(points.end(), o.points.begin(), o.points.end());
    width = points.size();
    return *this;
  }
};
}
