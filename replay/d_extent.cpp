#include "rig.hpp"
// All scans in the negative quadrant: the model reaches up to the map origin
#include <sys/resource.h>
int main() {
  rclcpp::Node node("n"); ndt_2d::ScanMatcherNDT m; m.initialize("m", &node, 10.0);
  auto s = std::make_shared<ndt_2d::Scan>(0); s->setPoints({{1, 1}});
  s->setPose(ndt_2d::Pose2d(-400.0, -400.0, 0.0));
  std::vector<ndt_2d::ScanPtr> v{s};
  m.addScans(v.begin(), v.end());
  struct rusage u; getrusage(RUSAGE_SELF, &u);
  printf("maxrss %ld kB\n", u.ru_maxrss);   // 81 x 81 cells need about 1 MB
  if (u.ru_maxrss > 300000) { printf("BAD one scan of 10 m range took %ld kB\n", u.ru_maxrss); return 1; }
}
