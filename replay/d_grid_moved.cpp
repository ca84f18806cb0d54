#include "rig.hpp"
// Optimization moves a scan, the number of scans stays: the bounds are out of date
int main() {
  ndt_2d::OccupancyGrid g(0.05, 0.25); nav_msgs::msg::OccupancyGrid m;
  auto s = std::make_shared<ndt_2d::Scan>(0); s->setPoints({{3, 1}, {2, -2}});
  std::vector<ndt_2d::ScanPtr> v{s}; g.getMsg(v, m);
  s->setPose({25, 0, 0}); g.getMsg(v, m);
}
