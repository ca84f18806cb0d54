// Model of a bag: the messages written, in order, with their topics.
#pragma once
#include <string>
#include <vector>
#include <rosbag2_storage/serialized_bag_message.hpp>
namespace spec
{
struct BagEntry
{
  std::string topic, type;
  rcutils_uint8_array_t data;
};
inline std::vector<BagEntry> bag;
inline std::string bag_name;
inline int bag_opened = 0;
}
namespace rosbag2_cpp
{
class Writer
{
public:
  void open(const std::string & uri) {spec::bag_name = uri; ++spec::bag_opened;}
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic, const std::string & type, const rclcpp::Time &)
  {
    spec::BagEntry e;
    e.topic = topic;
    e.type = type;
    e.data = m->data;
    spec::bag.push_back(e);
  }
  void close() {}
};
}
