#include "rig.hpp"
// Upside-down laser: beam 0 is never used, and a scan without beams reads out of bounds
int main() {
  rig::installTf(); rig::laser_roll() = 3.14; rig::M m(rig::quick());
  m.laserCallback(rig::laserMsg(100));
  size_t n = m.graph_->scans[0]->getPoints().size();
  if (n != 100) { printf("BAD %zu of 100 beams used\n", n); fflush(stdout); _exit(1); }
  rig::stop();
}
