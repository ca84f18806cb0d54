#include "rig.hpp"
// A scan without usable points, or without overlap: score and covariance are NaN
int main() {
  rclcpp::Node node("n"); ndt_2d::ScanMatcherNDT m; m.initialize("m", &node, 10.0);
  auto s = std::make_shared<ndt_2d::Scan>(0); s->setPoints({{1, 1}});
  std::vector<ndt_2d::ScanPtr> v{s}; m.addScans(v.begin(), v.end());
  auto e = std::make_shared<ndt_2d::Scan>(1);
  ndt_2d::Pose2d p; Eigen::Matrix3d c; int bad = 0;
  double r = m.matchScan(e, p, c);
  if (!std::isfinite(r)) { printf("BAD matchScan(empty) = %f\n", r); bad = 1; }
  r = m.scoreScan(e);
  if (!std::isfinite(r)) { printf("BAD scoreScan(empty) = %f\n", r); bad = 1; }
  e->setPoints({{5, 5}});
  m.matchScan(e, p, c);
  if (!c.allFinite()) { printf("BAD covariance without overlap is not finite\n"); bad = 1; }
  return bad;
}
