// Drives the real ndt_2d code with the stand-in ROS headers in /verif/stubs.
#pragma once
#include <angles/angles.h>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <ndt_2d/conversions.hpp>
#include <ndt_2d/ndt_mapper.hpp>
#include <ndt_2d/particle_filter.hpp>
#include <ndt_2d/scan_matcher_ndt.hpp>
#include <ndt_2d/ceres_solver_pose.hpp>
#include <ndt_2d/occupancy_grid.hpp>
namespace rig
{
using namespace ndt_2d;  // NOLINT
inline Pose2d & odom() { static Pose2d p; return p; }
inline Pose2d & odom_rate() { static Pose2d p; return p; }  // per second
inline double & laser_roll() { static double v = 0; return v; }
inline Pose2d & laser() { static Pose2d p; return p; }
inline geometry_msgs::msg::TransformStamped tfMsg(double x, double y, double yaw)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = x; t.transform.translation.y = y;
  t.transform.rotation.z = sin(yaw / 2); t.transform.rotation.w = cos(yaw / 2);
  return t;
}
inline void installTf()
{
  tf2_ros::stub_tf() = [](const std::string & target, const std::string & source,
                          const builtin_interfaces::msg::Time & stamp) {
    (void)source;
    if (target == "odom") {
      double dt = rclcpp::Time(stamp).seconds();
      return tfMsg(odom().x + odom_rate().x * dt, odom().y + odom_rate().y * dt,
                   odom().theta + odom_rate().theta * dt);
    }
    auto t = tfMsg(laser().x, laser().y, laser().theta);
    if (laser_roll() != 0) { t.transform.rotation.x = 1.0; t.transform.rotation.w = 0.0; }
    return t;
  };
}
struct M : public Mapper
{
  explicit M(const rclcpp::NodeOptions & o) : Mapper(o) {}
  using Mapper::configure; using Mapper::poseCallback; using Mapper::laserCallback;
  using Mapper::graph_; using Mapper::prev_robot_pose_; using Mapper::prev_odom_pose_;
  using Mapper::enable_mapping_; using Mapper::typical_matcher_response_; using Mapper::filter_;
  using Mapper::prev_odom_pose_is_initialized_; using Mapper::global_scan_matcher_;
  using Mapper::map_update_available_; using Mapper::graph_mutex_; using Mapper::solver_; using Mapper::range_max_;
};
inline std::shared_ptr<sensor_msgs::msg::LaserScan> laserMsg(size_t n = 360, float range = 3.0)
{
  auto m = std::make_shared<sensor_msgs::msg::LaserScan>();
  m->header.frame_id = "laser";
  m->angle_min = -M_PI; m->angle_increment = 2 * M_PI / (n ? n : 1); m->range_max = 10.0;
  m->ranges.assign(n, range);
  for (size_t i = 0; i < n; ++i) m->ranges[i] = range + 0.3 * sin(7.0 * i * m->angle_increment);
  return m;
}
inline rclcpp::NodeOptions quick()
{
  rclcpp::NodeOptions o;
  for (std::string p : {"local_scan_matcher", "global_scan_matcher"}) {
    o.append_parameter_override(p + ".search_angular_resolution", 0.05);
    o.append_parameter_override(p + ".search_linear_resolution", 0.025);
  }
  o.append_parameter_override("minimum_travel_distance", 0.0);
  return o;
}
inline void stop() { rclcpp::shutdown(); }
}  // namespace rig
