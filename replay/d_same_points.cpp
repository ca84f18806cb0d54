#include "rig.hpp"
// Five equal points in a cell: singular covariance, score is NaN
int main() {
  ndt_2d::NDT n(1, 10, 10, -5, -5); auto s = std::make_shared<ndt_2d::Scan>(0);
  s->setPoints(std::vector<ndt_2d::Point>(6, ndt_2d::Point(1.25, 1.5))); n.addScan(s); n.compute();
  double r = n.likelihood(Eigen::Vector2d(1.25, 1.5)), q = n.likelihood(Eigen::Vector2d(1.75, 1.5));
  if (!std::isfinite(r) || !std::isfinite(q)) { printf("BAD likelihood %f %f\n", r, q); return 1; }
}
