#include "rig.hpp"
// Covariance of the match: E[x x'] - E[x] E[x]' (Olson 2009); the code adds the second term
struct Open : ndt_2d::ScanMatcherNDT { using ScanMatcherNDT::angular_res_; using ScanMatcherNDT::angular_size_;
  using ScanMatcherNDT::linear_res_; using ScanMatcherNDT::linear_size_; };
int main() {
  rclcpp::Node node("n"); Open m; m.initialize("m", &node, 10.0);
  std::vector<ndt_2d::Point> pts;
  for (int i = 0; i < 60; ++i) pts.push_back({2.0 + 0.01 * (i % 7), -1.5 + 0.05 * i});
  auto s = std::make_shared<ndt_2d::Scan>(0); s->setPoints(pts);
  std::vector<ndt_2d::ScanPtr> v{s}; m.addScans(v.begin(), v.end());
  auto q = std::make_shared<ndt_2d::Scan>(1); q->setPoints(pts); q->setPose({0.03, 0.0, 0.0});
  ndt_2d::Pose2d p; Eigen::Matrix3d c; m.matchScan(q, p, c);
  Eigen::Matrix3d k = Eigen::Matrix3d::Zero(); Eigen::Vector3d u = Eigen::Vector3d::Zero(); double w = 0;
  for (double dth = -m.angular_size_; dth < m.angular_size_; dth += m.angular_res_)
    for (double dx = -m.linear_size_; dx < m.linear_size_; dx += m.linear_res_)
      for (double dy = -m.linear_size_; dy < m.linear_size_; dy += m.linear_res_) {
        double sc = m.scorePoints(pts, {0.03 + dx, dy, dth}); Eigen::Vector3d x(dx, dy, dth);
        k += x * x.transpose() * sc; u += x * sc; w += sc; }
  Eigen::Matrix3d e = k / w - (u / w) * (u / w).transpose();
  double rel = (c - e).norm() / e.norm();
  printf("relative difference %f\n", rel);
  if (rel > 1e-6) { printf("BAD covariance differs from the variance of the score surface by %g\n", rel); return 1; }
}
