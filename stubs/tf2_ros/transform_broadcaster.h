#pragma once
#include <mutex>
#include <tf2_ros/buffer.h>
namespace tf2_ros {
inline std::vector<geometry_msgs::msg::TransformStamped> & stub_sent()
{ static std::vector<geometry_msgs::msg::TransformStamped> v; return v; }
inline std::mutex & stub_sent_mutex() { static std::mutex m; return m; }
class TransformBroadcaster {
public:
  explicit TransformBroadcaster(rclcpp::Node *) {}
  explicit TransformBroadcaster(rclcpp::Node &) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t)
  { std::lock_guard<std::mutex> l(stub_sent_mutex()); stub_sent().push_back(t); }
}; }
