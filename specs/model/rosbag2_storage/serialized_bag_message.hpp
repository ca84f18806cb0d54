#pragma once
#include <memory>
#include <string>
#include <rclcpp/serialization.hpp>
namespace rosbag2_storage
{
struct SerializedBagMessage
{
  std::shared_ptr<rcutils_uint8_array_t> serialized_data;
  int64_t time_stamp;
  std::string topic_name;
};
using SerializedBagMessageSharedPtr = std::shared_ptr<SerializedBagMessage>;
using SerializedBagMessageConstSharedPtr = std::shared_ptr<const SerializedBagMessage>;
}
