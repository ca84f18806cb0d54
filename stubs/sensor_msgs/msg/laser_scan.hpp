#pragma once
#include <geometry_msgs/msg/all.hpp>
namespace sensor_msgs { namespace msg {
struct LaserScan
{
  std_msgs::msg::Header header;
  float angle_min = 0, angle_max = 0, angle_increment = 0, time_increment = 0, scan_time = 0;
  float range_min = 0, range_max = 0;
  std::vector<float> ranges, intensities;
  NDT_STUB_PTRS(LaserScan)
};
} }
