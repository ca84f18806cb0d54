// Model: keeps the last transform sent.
#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  explicit TransformBroadcaster(rclcpp::Node *) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) {last = t; ++count;}
  geometry_msgs::msg::TransformStamped last;
  int count = 0;
};
}
