#include "rig.hpp"
// No constraint touches the first scan
int main() {
  ndt_2d::CeresSolver s; std::vector<ndt_2d::ScanPtr> v{std::make_shared<ndt_2d::Scan>(0)};
  std::vector<ndt_2d::ConstraintPtr> c;
  s.optimize(c, v);
}
