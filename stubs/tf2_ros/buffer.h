#pragma once
#include <functional>
#include <memory>
#include <string>
#include <rclcpp/rclcpp.hpp>
#include <tf2/utils.h>
#include <geometry_msgs/msg/all.hpp>
namespace tf2_ros
{
// target, source, stamp -> pose of source in target. Throws to signal "not available".
using StubTf = std::function<geometry_msgs::msg::TransformStamped(
  const std::string &, const std::string &, const builtin_interfaces::msg::Time &)>;
inline StubTf & stub_tf() { static StubTf f; return f; }
class Buffer
{
public:
  explicit Buffer(rclcpp::Clock::SharedPtr) {}
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const tf2::TimePoint &)  const
  { return get(target, source, builtin_interfaces::msg::Time()); }
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const rclcpp::Time & t) const
  { return get(target, source, t); }
  // Only ever used with identity input poses here
  template <typename T> T & transform(const T & in, T & out, const std::string & target,
                                      tf2::Duration = tf2::Duration(0)) const
  {
    auto t = get(target, in.header.frame_id, in.header.stamp);
    T r = in;
    r.header.frame_id = target;
    r.pose.position.x = t.transform.translation.x;
    r.pose.position.y = t.transform.translation.y;
    r.pose.position.z = t.transform.translation.z;
    r.pose.orientation = t.transform.rotation;
    out = r;
    return out;
  }
  template <typename T> T transform(const T & in, const std::string & target,
                                    tf2::Duration d = tf2::Duration(0)) const
  { T out; transform(in, out, target, d); return out; }
  bool canTransform(const std::string &, const std::string &, const tf2::TimePoint &) const { return true; }
private:
  static geometry_msgs::msg::TransformStamped get(
    const std::string & target, const std::string & source, const builtin_interfaces::msg::Time & t)
  {
    if (!stub_tf()) throw tf2::LookupException("no tf");
    return stub_tf()(target, source, t);
  }
};
}
