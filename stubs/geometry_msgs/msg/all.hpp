#pragma once
#include <array>
#include <memory>
#include <string>
#include <vector>
#include <std_msgs/msg/header.hpp>
#define NDT_STUB_PTRS(T) \
  using SharedPtr = std::shared_ptr<T>; \
  using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>;
namespace geometry_msgs { namespace msg {
struct Point { double x = 0, y = 0, z = 0; NDT_STUB_PTRS(Point) };
struct Point32 { float x = 0, y = 0, z = 0; NDT_STUB_PTRS(Point32) };
struct Vector3 { double x = 0, y = 0, z = 0; NDT_STUB_PTRS(Vector3) };
struct Quaternion { double x = 0, y = 0, z = 0, w = 1; NDT_STUB_PTRS(Quaternion) };
struct Pose { Point position; Quaternion orientation; NDT_STUB_PTRS(Pose) };
struct Pose2D { double x = 0, y = 0, theta = 0; NDT_STUB_PTRS(Pose2D) };
struct PoseStamped { std_msgs::msg::Header header; Pose pose; NDT_STUB_PTRS(PoseStamped) };
struct PoseArray { std_msgs::msg::Header header; std::vector<Pose> poses; NDT_STUB_PTRS(PoseArray) };
struct PoseWithCovariance { Pose pose; std::array<double, 36> covariance{}; NDT_STUB_PTRS(PoseWithCovariance) };
struct PoseWithCovarianceStamped
{ std_msgs::msg::Header header; PoseWithCovariance pose; NDT_STUB_PTRS(PoseWithCovarianceStamped) };
struct Transform { Vector3 translation; Quaternion rotation; NDT_STUB_PTRS(Transform) };
struct TransformStamped
{ std_msgs::msg::Header header; std::string child_frame_id; Transform transform; NDT_STUB_PTRS(TransformStamped) };
} }
