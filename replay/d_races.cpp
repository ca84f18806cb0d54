#include "rig.hpp"
// ThreadSanitizer: mapping with loop closure and publishing while poses are set and maps are saved
int main() {
  rig::installTf();
  auto o = rig::quick(); o.append_parameter_override("rolling_depth", 3); o.append_parameter_override("optimization_node_limit", 2);
  o.append_parameter_override("global_search_size", 5.0); o.append_parameter_override("laser_max_beams", 20);
  rig::M m(o); m.typical_matcher_response_ = 0.0;
  for (int i = 0; i < 40; ++i) { rig::odom().x = 0.05 * i; m.laserCallback(rig::laserMsg(90)); std::this_thread::sleep_for(std::chrono::milliseconds(60)); }
  auto req = std::make_shared<ndt_2d::srv::Configure::Request>(); req->action = ndt_2d::srv::Configure::Request::DISABLE_MAPPING;
  m.configure(req, nullptr);
  auto p = std::make_shared<geometry_msgs::msg::PoseWithCovarianceStamped>(); p->header.frame_id = "map";
  p->pose.covariance[0] = p->pose.covariance[7] = p->pose.covariance[35] = 0.1;
  for (int i = 0; i < 10; ++i) { m.poseCallback(p); m.laserCallback(rig::laserMsg(90)); std::this_thread::sleep_for(std::chrono::milliseconds(200)); }
  rig::stop();
}
