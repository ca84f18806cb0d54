#include "rig.hpp"
// Localization without a map: the matcher is given an empty range of scans
int main() {
  rclcpp::Node node("n"); ndt_2d::ScanMatcherNDT m; m.initialize("m", &node, 10.0);
  std::vector<ndt_2d::ScanPtr> none;
  m.addScans(none.begin(), none.end());
  auto s = std::make_shared<ndt_2d::Scan>(0); s->setPoints({{1, 1}});
  double r = m.scoreScan(s);
  if (r != 0.0) { printf("BAD score %f\n", r); return 1; }
}
