#include "spec.hpp"
#include <cmath>
#include <ndt_2d/ceres_solver.hpp>
#include <ndt_2d/ceres_solver_pose.hpp>
using namespace ndt_2d;

namespace spec
{
// ---------------------------------------------------------------- C11
void C11_residual(PoseGraph2dErrorTerm & e, double xa, double ya, double ta, double xb, double yb, double tb)
{
  double r[3] = {0.0, 0.0, 0.0};
  holds("succeeds", e(&xa, &ya, &ta, &xb, &yb, &tb, r));
  double dx = xb - xa, dy = yb - ya;
  double v[3];
  v[0] = cos(ta) * dx + sin(ta) * dy - e.p_ab_(0);
  v[1] = -sin(ta) * dx + cos(ta) * dy - e.p_ab_(1);
  double d = tb - ta - e.yaw_ab_radians_;
  v[2] = d - 2.0 * M_PI * std::floor((d + M_PI) / (2.0 * M_PI));
  for (int i = 0; i < 3; ++i)
  {
    double w = e.sqrt_information_(i, 0) * v[0] + e.sqrt_information_(i, 1) * v[1] + e.sqrt_information_(i, 2) * v[2];
    same("residual", r[i], w);
  }
}

void C11_new(double x, double y, double t, Eigen::Matrix3d & u)
{
  PoseGraph2dErrorTerm e(x, y, t, u);
  same("x", e.p_ab_(0), x);
  same("y", e.p_ab_(1), y);
  same("heading", e.yaw_ab_radians_, t);
  same("square root", e.sqrt_information_, u);
}

// ---------------------------------------------------------------- C12, C13
std::unordered_map<int, Eigen::Vector3d> started;   // the node storage as the solver finds it

bool usable;                                        // what the solver reports

static Pose2d at_(std::unordered_map<int, Eigen::Vector3d> & nodes, const ScanPtr & s)
{
  Eigen::Vector3d & v = nodes.find(s->getId())->second;
  return Pose2d(v(0), v(1), v(2));
}

static Eigen::Matrix3d root_(const Eigen::Matrix3d & information)
{
  return information.llt().matrixU();
}

static void block_(ceres::Problem & p, CeresSolver & m, const Constraint & c, const ScanPtr & begin, const ScanPtr & end)
{
  Eigen::Vector3d & a = m.nodes_.find(begin->getId())->second;
  Eigen::Vector3d & b = m.nodes_.find(end->getId())->second;
  p.AddResidualBlock(PoseGraph2dErrorTerm::Create(c.transform(0), c.transform(1), c.transform(2), root_(c.information)), NULL,
                     &a(0), &a(1), &a(2), &b(0), &b(1), &b(2));
}

void C11_from_constraint(Constraint & c, Scan & a, Scan & b)
{
  assume(a.id_ != b.id_);
  CeresSolver m;
  ceres::Problem r;
  std::vector<ScanPtr> scans;
  scans.push_back(std::make_shared<Scan>(a));
  scans.push_back(std::make_shared<Scan>(b));
  c.begin = 0;
  c.end = 1;
  std::vector<ConstraintPtr> cs;
  cs.push_back(std::make_shared<Constraint>(c));
  m.optimize(cs, scans);
  block_(r, m, c, scans[0], scans[1]);
  same("error term", *m.problem_, r);
}

void C12_no_scans(CeresSolver & m, std::vector<ConstraintPtr> & cs)
{
  std::vector<ScanPtr> none;
  holds("nothing to do", !m.optimize(cs, none));
}

void C12_three(CeresSolver & m, std::vector<ConstraintPtr> & cs, Scan & a, Scan & b, Scan & c)
{
  started.clear();
  assume(a.id_ != b.id_);
  assume(a.id_ != c.id_);
  assume(b.id_ != c.id_);
  assume(m.num_constraints_ == cs.size());
  std::vector<ScanPtr> scans;
  scans.push_back(std::make_shared<Scan>(a));
  scans.push_back(std::make_shared<Scan>(b));
  scans.push_back(std::make_shared<Scan>(c));
  usable = false;
  bool ok = m.optimize(cs, scans);
  same("reports success", ok, usable);
  same("first starts at", at_(started, scans[0]), a.pose_);
  same("second starts at", at_(started, scans[1]), b.pose_);
  same("third starts at", at_(started, scans[2]), c.pose_);
  same("first stays", scans[0]->getPose(), a.pose_);
  same("second", scans[1]->getPose(), ok ? at_(m.nodes_, scans[1]) : b.pose_);
  same("third", scans[2]->getPose(), ok ? at_(m.nodes_, scans[2]) : c.pose_);
}

void C12_alone(Scan & a)
{
  CeresSolver m;
  std::vector<ConstraintPtr> none;
  std::vector<ScanPtr> scans;
  scans.push_back(std::make_shared<Scan>(a));
  no_throw("one scan without constraints");
  m.optimize(none, scans);
  same("stays", scans[0]->getPose(), a.pose_);
}

void C13_new()
{
  CeresSolver m;
  ceres::Problem r;
  same("nothing added yet", m.num_constraints_, size_t(0));
  same("no residuals yet", *m.problem_, r);
}

void C13_many(CeresSolver & m, std::vector<ConstraintPtr> & cs, std::vector<ScanPtr> & scans)
{
  assume(!scans.empty());
  assume(m.num_constraints_ < cs.size());
  ceres::Problem & r = snapshot(*m.problem_);
  size_t n = m.num_constraints_;
  m.optimize(cs, scans);
  same("count", m.num_constraints_, cs.size());
  for (size_t i = n; i < cs.size(); ++i) {block_(r, m, *cs[i], scans[cs[i]->begin], scans[cs[i]->end]);}
  same("residuals", *m.problem_, r);
}

void C13_again(CeresSolver & m, std::vector<ConstraintPtr> & cs, std::vector<ScanPtr> & scans)
{
  assume(!scans.empty());
  assume(m.num_constraints_ == cs.size());
  ceres::Problem & r = snapshot(*m.problem_);
  m.optimize(cs, scans);
  same("count", m.num_constraints_, cs.size());
  same("residuals", *m.problem_, r);
}

void C13_grows(Constraint & a, Constraint & b, Constraint & c, std::vector<ScanPtr> & scans)
{
  assume(!scans.empty());
  CeresSolver m;
  ceres::Problem r;
  std::vector<ConstraintPtr> cs;
  cs.push_back(std::make_shared<Constraint>(a));
  m.optimize(cs, scans);
  block_(r, m, a, scans[a.begin], scans[a.end]);
  same("first", *m.problem_, r);
  cs.push_back(std::make_shared<Constraint>(b));
  cs.push_back(std::make_shared<Constraint>(c));
  m.optimize(cs, scans);
  block_(r, m, b, scans[b.begin], scans[b.end]);
  block_(r, m, c, scans[c.begin], scans[c.end]);
  same("all", *m.problem_, r);
  m.optimize(cs, scans);
  same("once", *m.problem_, r);
}
}
