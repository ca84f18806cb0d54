#pragma once
#include <rosbag2_cpp/writer.hpp>
namespace rosbag2_cpp
{
class Reader
{
public:
  void open(const std::string & uri) {spec::bag_name = uri; ++spec::bag_opened; next_ = 0;}
  bool has_next() {return next_ < spec::bag.size();}
  rosbag2_storage::SerializedBagMessageSharedPtr read_next()
  {
    auto m = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    m->topic_name = spec::bag[next_].topic;
    m->serialized_data = std::make_shared<rcutils_uint8_array_t>(spec::bag[next_].data);
    ++next_;
    return m;
  }
  void close() {}
private:
  size_t next_ = 0;
};
}
