#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <rosbag2_storage/serialized_bag_message.hpp>
namespace rosbag2_cpp
{
using StubBag = std::vector<rosbag2_storage::SerializedBagMessageSharedPtr>;
inline std::map<std::string, StubBag> & stub_bags() { static std::map<std::string, StubBag> b; return b; }
class Writer
{
public:
  void open(const std::string & uri)
  {
    if (stub_bags().count(uri)) throw std::runtime_error("bag exists: " + uri);
    uri_ = uri; stub_bags()[uri];
  }
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic,
             const std::string &, const rclcpp::Time &)
  {
    auto s = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    s->serialized_data = std::make_shared<rcutils_uint8_array_t>(m->data);
    s->topic_name = topic;
    stub_bags()[uri_].push_back(s);
  }
  void close() {}
private:
  std::string uri_;
};
}
