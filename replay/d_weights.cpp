#include "rig.hpp"
// Particles that all score zero: weights become 0/0
struct Z : ndt_2d::ScanMatcherNDT { double scorePoints(const std::vector<ndt_2d::Point> &, const ndt_2d::Pose2d &) const { return 0.0; } };
int main() {
  auto mm = std::make_shared<ndt_2d::MotionModel>(0.1, 0.1, 0.1, 0.1, 0.1);
  ndt_2d::ParticleFilter f(50, 100, mm); f.init(1, 2, 0.5, 0.1, 0.1, 0.1);
  f.measure(std::make_shared<Z>(), std::make_shared<ndt_2d::Scan>(0));
  if (!f.getMean().allFinite()) { printf("BAD mean is NaN after a measurement without overlap\n"); return 1; }
  f.resample(0.01, 2.3);
  if (!f.getMean().allFinite()) { printf("BAD mean is NaN\n"); return 1; }
}
