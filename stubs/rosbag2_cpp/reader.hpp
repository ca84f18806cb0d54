#pragma once
#include <rosbag2_cpp/writer.hpp>
namespace rosbag2_cpp
{
class Reader
{
public:
  void open(const std::string & uri)
  {
    if (!stub_bags().count(uri)) throw std::runtime_error("no bag: " + uri);
    bag_ = stub_bags()[uri]; next_ = 0;
  }
  bool has_next() { return next_ < bag_.size(); }
  rosbag2_storage::SerializedBagMessageSharedPtr read_next() { return bag_.at(next_++); }
  void close() {}
private:
  StubBag bag_;
  size_t next_ = 0;
};
}
