#include "spec.hpp"
#include <ndt_2d/constraint.hpp>
#include <ndt_2d/scan.hpp>
using namespace ndt_2d;
typedef std::vector<Point> Points;

static Pose2d barycenter_(const Pose2d & p, const Points & pts)
{
  if (pts.empty()) {return p;}
  double mx = 0.0, my = 0.0;
  for (size_t i = 0; i < pts.size(); ++i)
  {
    mx += pts[i].x;
    my += pts[i].y;
  }
  mx /= pts.size();
  my /= pts.size();
  return Pose2d(p.x + cos(p.theta) * mx - sin(p.theta) * my, p.y + sin(p.theta) * mx + cos(p.theta) * my, p.theta);
}

namespace spec
{
// a scan with any history before, then a change, then a question
void C01_after_setPose(Scan & s, Pose2d p)
{
  Points before = s.getPoints();
  size_t id = s.getId();
  s.setPose(p);
  same("barycenter", s.getBarycenterPose(), barycenter_(p, before));
  same("pose", s.getPose(), p);
  same("points", s.getPoints(), before);
  same("id", s.getId(), id);
}

void C01_after_setPoints(Scan & s, Points pts)
{
  Pose2d p = s.getPose();
  size_t id = s.getId();
  s.setPoints(pts);
  same("barycenter", s.getBarycenterPose(), barycenter_(p, pts));
  same("pose", s.getPose(), p);
  same("points", s.getPoints(), pts);
  same("id", s.getId(), id);
}

void C01_sequence(size_t id, Pose2d p1, Points q1, Pose2d p2, Points q2, bool ask1, bool ask2, bool ask3, bool ask4)
{
  Scan s(id);
  same("id", s.getId(), id);
  Pose2d zero;
  if (ask1) {s.getBarycenterPose();}
  s.setPoints(q1);
  if (ask2) {s.getBarycenterPose();}
  s.setPose(p1);
  if (ask3) {s.getBarycenterPose();}
  s.setPose(p2);
  same("barycenter 1", s.getBarycenterPose(), barycenter_(p2, q1));
  s.setPoints(q2);
  if (ask4) {s.getPose(); s.getPoints(); s.getBarycenterPose();}
  same("barycenter 2", s.getBarycenterPose(), barycenter_(p2, q2));
  same("barycenter asked again", s.getBarycenterPose(), barycenter_(p2, q2));
  same("id kept", s.getId(), id);
  same("pose", s.getPose(), p2);
  same("points", s.getPoints(), q2);
  s.setPose(p1);
  same("barycenter 3", s.getBarycenterPose(), barycenter_(p1, q2));
}

void C01_new(size_t id, Points q, Pose2d p)
{
  Scan s(id);
  s.setPose(p);
  s.setPoints(q);
  same("barycenter", s.getBarycenterPose(), barycenter_(p, q));
  Scan e(id);
  e.setPose(p);
  same("no points", e.getBarycenterPose(), p);
  Scan f(id);
  f.setPoints(q);
  Scan g(f);
  g.setPose(p);
  same("copy", g.getBarycenterPose(), barycenter_(p, q));
}

void C01_pure(Scan & s)
{
  Pose2d p = s.getPose();
  Points q = s.getPoints();
  size_t id = s.getId();
  Pose2d b1 = s.getBarycenterPose();
  same("pose kept", s.getPose(), p);
  same("points kept", s.getPoints(), q);
  same("id kept", s.getId(), id);
  same("same answer", s.getBarycenterPose(), b1);
}

void C02_constraint(size_t ida, size_t idb, Pose2d a, Pose2d b, Points pa, Points pb, Eigen::Matrix3d & cov)
{
  ScanPtr from = std::make_shared<Scan>(ida), to = std::make_shared<Scan>(idb);
  from->setPose(a);
  to->setPose(b);
  from->setPoints(pa);
  to->setPoints(pb);
  Eigen::Matrix3d given = cov;
  ConstraintPtr c = makeConstraint(from, to, cov);
  same("begin", c->begin, ida);
  same("end", c->end, idb);
  double dx = b.x - a.x, dy = b.y - a.y;
  same("dx", c->transform(0), cos(-a.theta) * dx - sin(-a.theta) * dy);
  same("dy", c->transform(1), sin(-a.theta) * dx + cos(-a.theta) * dy);
  same("dtheta", c->transform(2), b.theta - a.theta);
  Eigen::Matrix3d inv = given.inverse();
  same("information", c->information, inv);
  same("switchable", c->switchable, false);
  same("covariance unchanged", cov, given);
  same("from pose", from->getPose(), a);
  same("to pose", to->getPose(), b);
}
}
