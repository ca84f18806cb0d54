#include "rig.hpp"
// rolling_depth below 10: "size - 10" wraps around as soon as more than rolling_depth scans exist
int main() {
  rig::installTf();
  auto o = rig::quick(); o.append_parameter_override("rolling_depth", 3);
  rig::M m(o);
  for (int i = 0; i < 6; ++i) { rig::odom().x = 0.2 * i; m.laserCallback(rig::laserMsg()); }
  printf("scans %zu\n", m.graph_->scans.size());
  rig::stop();
}
