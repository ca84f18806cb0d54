#include "rig.hpp"
// REP 117: -inf means "too close to measure". It passes the range filter and reaches the map
int main() {
  rig::installTf(); rig::M m(rig::quick());
  auto l = rig::laserMsg(); l->ranges[5] = -std::numeric_limits<float>::infinity();
  m.laserCallback(l);
  for (auto & p : m.graph_->scans[0]->getPoints())
    if (!std::isfinite(p.x) || !std::isfinite(p.y)) { printf("BAD infinite point in the map\n"); fflush(stdout); _exit(1); }
  rig::stop();
}
