#include "rig.hpp"
// The robot stands where no point is: the ray starts outside of the grid
int main() {
  ndt_2d::OccupancyGrid g(0.05, 0.25); nav_msgs::msg::OccupancyGrid m;
  auto s = std::make_shared<ndt_2d::Scan>(0); s->setPose({-20, -20, 0}); s->setPoints({{23, 23}, {22.5, 23}});
  std::vector<ndt_2d::ScanPtr> v{s}; g.getMsg(v, m);
}
