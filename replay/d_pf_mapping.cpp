#include "rig.hpp"
// use_particle_filter disables mapping (README); here the default enable_mapping keeps loop closure running,
// which empties the global model that the filter scores against
int main() {
  rig::installTf();
  { ndt_2d::Graph g(true);
    for (int i = 0; i < 14; ++i) { auto s = std::make_shared<ndt_2d::Scan>(i); std::vector<ndt_2d::Point> p;
      for (int k = 0; k < 40; ++k) p.push_back({1 + 0.01 * (k % 5), 0.05 * k}); s->setPoints(p); s->setPose({i < 4 ? 0.0 : 5.0, 0, 0}); g.scans.push_back(s); }
    g.save("bag"); }
  auto o = rig::quick(); o.append_parameter_override("map_file", std::string("bag")); o.append_parameter_override("use_particle_filter", true);
  rig::M m(o);
  m.laserCallback(rig::laserMsg());   // sets up the matchers, not localized yet
  auto probe = std::make_shared<ndt_2d::Scan>(99); probe->setPoints(m.graph_->scans[0]->getPoints());
  double before = m.global_scan_matcher_->scorePoints(probe->getPoints(), {0, 0, 0});
  std::this_thread::sleep_for(std::chrono::milliseconds(3500));
  double after = m.global_scan_matcher_->scorePoints(probe->getPoints(), {0, 0, 0});
  rig::stop();
  printf("%f %f\n", before, after);
  if (before != after) { printf("BAD the filter's model changed while localizing: %f -> %f\n", before, after); return 1; }
}
