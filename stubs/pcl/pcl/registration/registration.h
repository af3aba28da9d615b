// Stand-in for the PCL base class of registrations: holds the inputs and calls
// computeTransformation the way the original does.
#pragma once
#include <omp.h>
#include <pcl/common/transforms.h>
#include <pcl/point_cloud.h>
#include <boost/function.hpp>
namespace pcl
{
template <typename S, typename T>
class Registration
{
public:
  typedef PointCloud<S> PointCloudSource;
  typedef typename PointCloudSource::Ptr PointCloudSourcePtr;
  typedef typename PointCloudSource::ConstPtr PointCloudSourceConstPtr;
  typedef PointCloud<T> PointCloudTarget;
  typedef typename PointCloudTarget::Ptr PointCloudTargetPtr;
  typedef typename PointCloudTarget::ConstPtr PointCloudTargetConstPtr;
  typedef Eigen::Matrix4f Matrix4;
  typedef boost::shared_ptr<std::vector<int>> IndicesPtr;

  Registration()
    : reg_name_("Registration")
    , nr_iterations_(0)
    , max_iterations_(10)
    , final_transformation_(Matrix4::Identity())
    , transformation_(Matrix4::Identity())
    , previous_transformation_(Matrix4::Identity())
    , transformation_epsilon_(0)
    , corr_dist_threshold_(0)
    , inlier_threshold_(0.05)
    , converged_(false)
    , target_cloud_updated_(true)
    , source_cloud_updated_(true)
  {
  }
  virtual ~Registration()
  {
  }
  virtual void setInputSource(const PointCloudSourceConstPtr &c)
  {
    source_cloud_updated_ = true;
    input_ = c;
  }
  virtual void setInputTarget(const PointCloudTargetConstPtr &c)
  {
    if (c->points.empty())
      return;  // the original refuses an empty target
    target_ = c;
    target_cloud_updated_ = true;
  }
  Matrix4 getFinalTransformation()
  {
    return final_transformation_;
  }
  Matrix4 getLastIncrementalTransformation()
  {
    return transformation_;
  }
  void setMaximumIterations(int n)
  {
    max_iterations_ = n;
  }
  int getMaximumIterations()
  {
    return max_iterations_;
  }
  void setTransformationEpsilon(double e)
  {
    transformation_epsilon_ = e;
  }
  double getTransformationEpsilon()
  {
    return transformation_epsilon_;
  }
  bool hasConverged()
  {
    return converged_;
  }
  void align(PointCloudSource &out)
  {
    align(out, Matrix4::Identity());
  }
  void align(PointCloudSource &out, const Matrix4 &guess)
  {
    if (!target_)
      return;  // the original gives up without a target
    if (!input_)
      return;
    indices_.reset(new std::vector<int>());
    for (size_t i = 0; i < input_->size(); ++i)
      indices_->push_back((int)i);
    out = *input_;
    converged_ = false;
    final_transformation_ = transformation_ = previous_transformation_ = Matrix4::Identity();
    computeTransformation(out, guess);
  }
  const std::string &getClassName() const
  {
    return reg_name_;
  }

protected:
  std::string reg_name_;
  PointCloudSourceConstPtr input_;
  IndicesPtr indices_;
  PointCloudTargetConstPtr target_;
  int nr_iterations_, max_iterations_;
  Matrix4 final_transformation_, transformation_, previous_transformation_;
  double transformation_epsilon_, corr_dist_threshold_, inlier_threshold_;
  bool converged_, target_cloud_updated_, source_cloud_updated_;
  boost::function<void(const PointCloudSource &, const std::vector<int> &, const PointCloudTarget &, const std::vector<int> &)> update_visualizer_;
  virtual void computeTransformation(PointCloudSource &out, const Matrix4 &guess) = 0;
};
}
