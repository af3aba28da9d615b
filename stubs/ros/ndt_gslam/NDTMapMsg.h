// What the message generator makes of msg/NDTCellMsg.msg and msg/NDTMapMsg.msg.
#pragma once
#include <ros/ros.h>
namespace ndt_gslam
{
struct NDTCellMsg {
  double mean_x = 0, mean_y = 0, mean_z = 0;
  std::vector<double> cov_matrix;
  double occupancy = 0;
  int64_t N = 0;
};
struct NDTMapMsg {
  std_msgs::Header header;
  double x_size = 0, y_size = 0, z_size = 0;
  double x_cen = 0, y_cen = 0, z_cen = 0;
  double x_cell_size = 0, y_cell_size = 0, z_cell_size = 0;
  std::vector<NDTCellMsg> cells;
};
}
