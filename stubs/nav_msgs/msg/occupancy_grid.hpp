#pragma once
#include <geometry_msgs/msg/all.hpp>
#include <cstdint>
namespace nav_msgs { namespace msg {
struct MapMetaData
{
  builtin_interfaces::msg::Time map_load_time;
  float resolution = 0;
  uint32_t width = 0, height = 0;
  geometry_msgs::msg::Pose origin;
};
struct OccupancyGrid
{
  std_msgs::msg::Header header;
  MapMetaData info;
  std::vector<int8_t> data;
  NDT_STUB_PTRS(OccupancyGrid)
};
} }
