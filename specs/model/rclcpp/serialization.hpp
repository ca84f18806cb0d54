// Model of serialization: the bytes of a message are the message.
#pragma once
#include <memory>
#include <ndt_2d/msg/constraint.hpp>
#include <ndt_2d/msg/scan.hpp>
#include <rclcpp/rclcpp.hpp>
struct rcutils_uint8_array_t
{
  int kind = 0;
  ndt_2d::msg::Scan scan;
  ndt_2d::msg::Constraint constraint;
};
namespace rclcpp
{
class SerializedMessage
{
public:
  SerializedMessage() {}
  explicit SerializedMessage(const rcutils_uint8_array_t & a) : data(a) {}
  rcutils_uint8_array_t data;
};
template <typename T> class Serialization;
template <> class Serialization<ndt_2d::msg::Scan>
{
public:
  void serialize_message(const ndt_2d::msg::Scan * m, SerializedMessage * out) const {out->data.kind = 1; out->data.scan = *m;}
  void deserialize_message(const SerializedMessage * in, ndt_2d::msg::Scan * m) const {*m = in->data.scan;}
};
template <> class Serialization<ndt_2d::msg::Constraint>
{
public:
  void serialize_message(const ndt_2d::msg::Constraint * m, SerializedMessage * out) const
  {
    out->data.kind = 2;
    out->data.constraint = *m;
  }
  void deserialize_message(const SerializedMessage * in, ndt_2d::msg::Constraint * m) const {*m = in->data.constraint;}
};
}
