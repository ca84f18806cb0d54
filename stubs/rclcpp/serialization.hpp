#pragma once
#include <memory>
#include <rclcpp/rclcpp.hpp>
struct rcutils_uint8_array_t { std::shared_ptr<void> payload; };
namespace rclcpp
{
class SerializedMessage
{
public:
  SerializedMessage() = default;
  explicit SerializedMessage(const rcutils_uint8_array_t & a) : data(a) {}
  rcutils_uint8_array_t data;
};
template <typename T> class Serialization
{
public:
  void serialize_message(const void * ros_message, SerializedMessage * out) const
  { out->data.payload = std::make_shared<T>(*static_cast<const T *>(ros_message)); }
  void deserialize_message(const SerializedMessage * in, void * ros_message) const
  { *static_cast<T *>(ros_message) = *std::static_pointer_cast<T>(in->data.payload); }
};
}
