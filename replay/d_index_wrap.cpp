#include "rig.hpp"
// Far away point: the cell number wraps around in 32 bits
int main() {
  ndt_2d::NDT n(1, 10, 10, 0, 0); auto s = std::make_shared<ndt_2d::Scan>(0); std::vector<ndt_2d::Point> p;
  for (int i = 0; i < 8; ++i) p.push_back({3.1 + 0.1 * i, 3.1 + 0.05 * (i % 3)});
  s->setPoints(p); n.addScan(s); n.compute();
  double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
  for (double x : {4294967296.0 + 3.5, inf, nan, 1e300}) {
    double r = n.likelihood(Eigen::Vector2d(x, 3.15));
    if (r != 0.0) { printf("BAD likelihood of (%g, 3.15) is %f\n", x, r); return 1; } }
}
