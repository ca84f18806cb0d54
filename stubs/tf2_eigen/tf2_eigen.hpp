#pragma once
#include <Eigen/Geometry>
#include <geometry_msgs/msg/all.hpp>
namespace tf2
{
inline geometry_msgs::msg::TransformStamped eigenToTransform(const Eigen::Isometry3d & T)
{
  geometry_msgs::msg::TransformStamped t;
  t.transform.translation.x = T.translation().x();
  t.transform.translation.y = T.translation().y();
  t.transform.translation.z = T.translation().z();
  Eigen::Quaterniond q(T.rotation());
  t.transform.rotation.x = q.x(); t.transform.rotation.y = q.y();
  t.transform.rotation.z = q.z(); t.transform.rotation.w = q.w();
  return t;
}
}
