#include "spec.hpp"
#include <algorithm>
#include <ndt_2d/scan_matcher_ndt.hpp>
using namespace ndt_2d;
typedef std::vector<Point> Points;

static void signs_(ScanMatcherNDT & m)
{
  positive(m.linear_res_);
  positive(m.angular_res_);
  positive(m.linear_size_);
  positive(m.angular_size_);
  positive(m.resolution_);
  positive(m.laser_max_beams_);
}

struct Match
{
  double score;
  Pose2d pose;
  Eigen::Matrix3d covariance;
};

// the whole search window, written down as a reference
static Match search_(NDT & ndt, const Points & pts, const Pose2d & at, const Pose2d & given, const Eigen::Matrix3d & cov,
                     double lin, double lin_res, double ang, double ang_res, size_t beams)
{
  size_t n = std::min(beams, pts.size());
  double step = static_cast<double>(pts.size()) / n;
  Match r;
  r.pose = given;
  double best = 0.0, s = 0.0;
  Eigen::Matrix3d k = Eigen::Matrix3d::Zero();
  Eigen::Vector3d u = Eigen::Vector3d::Zero();
  for (double th = -ang; th < ang; th += ang_res)
  {
    for (double x = -lin; x < lin; x += lin_res)
    {
      for (double y = -lin; y < lin; y += lin_res)
      {
        double total = 0.0;
        for (size_t i = 0; i < n; ++i)
        {
          const Point & p = pts[static_cast<size_t>(i * step)];
          Eigen::Vector2d q(at.x + cos(at.theta + th) * p.x - sin(at.theta + th) * p.y + x,
                            at.y + sin(at.theta + th) * p.x + cos(at.theta + th) * p.y + y);
          total += ndt.likelihood(q);
        }
        if (-total < best)
        {
          best = -total;
          r.pose = Pose2d(x, y, th);
        }
        Eigen::Vector3d d(x, y, th);
        for (int i = 0; i < 3; ++i)
        {
          u(i) += -total * d(i);
          for (int j = 0; j < 3; ++j) {k(i, j) += -total * d(i) * d(j);}
        }
        s += -total;
      }
    }
  }
  if (s == 0.0)
  {
    r.score = 0.0;
    r.covariance = Eigen::Matrix3d::Zero();
    r.covariance(0, 0) = lin * lin;
    r.covariance(1, 1) = lin * lin;
    r.covariance(2, 2) = ang * ang;
  }
  else
  {
    r.score = best / n;
    for (int i = 0; i < 3; ++i)
    {
      for (int j = 0; j < 3; ++j) {r.covariance(i, j) = k(i, j) / s - (u(i) / s) * (u(j) / s);}
    }
  }
  return r;
}


// bounding box of all positions plus and minus the range
static NDT map_(const std::vector<ScanPtr> & scans, size_t from, size_t to, double cell, double range)
{
  double x0 = scans[from]->getPose().x, x1 = x0, y0 = scans[from]->getPose().y, y1 = y0;
  for (size_t i = from; i < to; ++i)
  {
    Pose2d p = scans[i]->getPose();
    x0 = std::min(x0, p.x);
    x1 = std::max(x1, p.x);
    y0 = std::min(y0, p.y);
    y1 = std::max(y1, p.y);
  }
  NDT n(cell, x1 - x0 + 2 * range, y1 - y0 + 2 * range, x0 - range, y0 - range);
  for (size_t i = from; i < to; ++i) {n.addScan(scans[i]);}
  n.compute();
  return n;
}

namespace spec
{
// ---------------------------------------------------------------- C07
void C07_none(ScanMatcherNDT & m, std::vector<ScanPtr> & scans, size_t i)
{
  assume(i <= scans.size());
  m.addScans(scans.begin() + i, scans.begin() + i);
  holds("an empty range leaves no map", m.ndt_ == nullptr);
}

void C07_reset(ScanMatcherNDT & m, Scan & scan, Points & pts, Pose2d p, Pose2d given, Eigen::Matrix3d & cov)
{
  m.reset();
  holds("no map after reset", m.ndt_ == nullptr);
  ScanPtr s = std::make_shared<Scan>(scan);
  Pose2d pose = given;
  Eigen::Matrix3d c = cov;
  same("match", m.matchScan(s, pose, c), 0.0);
  same("offset untouched", pose, given);
  same("covariance untouched", c, cov);
  same("score", m.scoreScan(s), 0.0);
  same("score of points", m.scorePoints(pts, p), 0.0);
}

static void one_(ScanMatcherNDT & m, Scan & a)
{
  std::vector<ScanPtr> v;
  v.push_back(std::make_shared<Scan>(a));
  m.addScans(v.begin(), v.end());
  NDT r = map_(v, 0, 1, m.resolution_, m.range_max_);
  holds("there is a map", m.ndt_ != nullptr);
  same("cell size", m.ndt_->cell_size_, r.cell_size_);
  same("cells in x", m.ndt_->size_x_, r.size_x_);
  same("cells in y", m.ndt_->size_y_, r.size_y_);
  same("origin x", m.ndt_->origin_x_, r.origin_x_);
  same("origin y", m.ndt_->origin_y_, r.origin_y_);
  same("cells", m.ndt_->cells_, r.cells_);
}

void C07_one_scan(ScanMatcherNDT & m, Scan & a)
{
  signs_(m);
  positive(m.range_max_);
  one_(m, a);
}

void C07_two_scans(ScanMatcherNDT & m, Scan & a, Scan & b)
{
  signs_(m);
  positive(m.range_max_);
  std::vector<ScanPtr> v;
  v.push_back(std::make_shared<Scan>(a));
  v.push_back(std::make_shared<Scan>(b));
  m.addScans(v.begin(), v.end());
  NDT r = map_(v, 0, 2, m.resolution_, m.range_max_);
  same("cells in x", m.ndt_->size_x_, r.size_x_);
  same("cells in y", m.ndt_->size_y_, r.size_y_);
  same("origin x", m.ndt_->origin_x_, r.origin_x_);
  same("origin y", m.ndt_->origin_y_, r.origin_y_);
}

void C07_both_used(ScanMatcherNDT & m, Point p, Point q)
{
  signs_(m);
  positive(m.range_max_);
  Scan a(1), b(2);
  a.setPose(Pose2d(0.0, 0.0, 0.0));
  b.setPose(Pose2d(2.0, 1.0, 0.0));
  a.setPoints(Points(1, p));
  b.setPoints(Points(1, q));
  std::vector<ScanPtr> v;
  v.push_back(std::make_shared<Scan>(a));
  v.push_back(std::make_shared<Scan>(b));
  m.addScans(v.begin(), v.end());
  NDT r = map_(v, 0, 2, m.resolution_, m.range_max_);
  same("cells of both", m.ndt_->cells_, r.cells_);
}

// ---------------------------------------------------------------- C08, C09
static Match match_(ScanMatcherNDT & m, Scan & scan, Pose2d given, Eigen::Matrix3d & cov)
{
  signs_(m);
  assume(m.ndt_ != nullptr);
  ScanPtr s = std::make_shared<Scan>(scan);
  Match r;
  r.pose = given;
  r.covariance = cov;
  r.score = m.matchScan(s, r.pose, r.covariance);
  same("scan pose", s->getPose(), scan.getPose());
  same("scan points", s->getPoints(), scan.getPoints());
  return r;
}

static Match want_(ScanMatcherNDT & m, Scan & scan, Pose2d given, Eigen::Matrix3d & cov)
{
  return search_(*m.ndt_, scan.getPoints(), scan.getPose(), given, cov, m.linear_size_, m.linear_res_, m.angular_size_,
                 m.angular_res_, m.laser_max_beams_);
}

void C08_few_points(ScanMatcherNDT & m, Scan & scan, Pose2d given, Eigen::Matrix3d & cov)
{
  assume(scan.points_.size() < m.laser_max_beams_);
  assume(!scan.points_.empty());
  Match r = match_(m, scan, given, cov), w = want_(m, scan, given, cov);
  same("score", r.score, w.score);
  same("offset", r.pose, w.pose);
}

void C08_many_points(ScanMatcherNDT & m, Scan & scan, Pose2d given, Eigen::Matrix3d & cov)
{
  assume(m.laser_max_beams_ < scan.points_.size());
  Match r = match_(m, scan, given, cov), w = want_(m, scan, given, cov);
  same("score", r.score, w.score);
  same("offset", r.pose, w.pose);
}

void C08_no_points(ScanMatcherNDT & m, size_t id, Pose2d at, Pose2d given, Eigen::Matrix3d & cov)
{
  Scan scan(id);
  scan.setPose(at);
  Match r = match_(m, scan, given, cov);
  same("score", r.score, 0.0);
  same("offset", r.pose, given);
}

void C09_few_points(ScanMatcherNDT & m, Scan & scan, Pose2d given, Eigen::Matrix3d & cov)
{
  assume(scan.points_.size() < m.laser_max_beams_);
  assume(!scan.points_.empty());
  Match r = match_(m, scan, given, cov), w = want_(m, scan, given, cov);
  same("covariance", r.covariance, w.covariance);
}

void C09_many_points(ScanMatcherNDT & m, Scan & scan, Pose2d given, Eigen::Matrix3d & cov)
{
  assume(m.laser_max_beams_ < scan.points_.size());
  Match r = match_(m, scan, given, cov), w = want_(m, scan, given, cov);
  same("covariance", r.covariance, w.covariance);
}

void C09_no_points(ScanMatcherNDT & m, size_t id, Pose2d at, Pose2d given, Eigen::Matrix3d & cov)
{
  Scan scan(id);
  scan.setPose(at);
  Match r = match_(m, scan, given, cov);
  Eigen::Matrix3d w = Eigen::Matrix3d::Zero();
  w(0, 0) = m.linear_size_ * m.linear_size_;
  w(1, 1) = m.linear_size_ * m.linear_size_;
  w(2, 2) = m.angular_size_ * m.angular_size_;
  same("covariance", r.covariance, w);
}

// ---------------------------------------------------------------- C10
static double points_(NDT & ndt, const Points & pts, const Pose2d & at, size_t beams)
{
  if (pts.empty()) {return 0.0;}
  size_t n = std::min(beams, pts.size());
  double step = static_cast<double>(pts.size()) / n;
  double total = 0.0;
  for (size_t i = 0; i < n; ++i)
  {
    const Point & p = pts[static_cast<size_t>(i * step)];
    Eigen::Vector2d q(at.x + cos(at.theta) * p.x - sin(at.theta) * p.y, at.y + sin(at.theta) * p.x + cos(at.theta) * p.y);
    total -= ndt.likelihood(q);
  }
  return total / n;
}

void C10_score_points(ScanMatcherNDT & m, Points & pts, Pose2d at)
{
  signs_(m);
  assume(m.ndt_ != nullptr);
  same("score", m.scorePoints(pts, at), points_(*m.ndt_, pts, at, m.laser_max_beams_));
}

void C10_score_scan(ScanMatcherNDT & m, Scan & scan)
{
  signs_(m);
  assume(m.ndt_ != nullptr);
  ScanPtr s = std::make_shared<Scan>(scan);
  double r = m.scoreScan(s);
  same("score", r, points_(*m.ndt_, scan.getPoints(), scan.getPose(), m.laser_max_beams_));
  same("same as its points at its pose", r, m.scorePoints(scan.getPoints(), scan.getPose()));
  same("scan pose", s->getPose(), scan.getPose());
  same("scan points", s->getPoints(), scan.getPoints());
}

void C10_no_points(ScanMatcherNDT & m, Pose2d at, size_t id)
{
  signs_(m);
  Points none;
  same("points", m.scorePoints(none, at), 0.0);
  ScanPtr s = std::make_shared<Scan>(id);
  same("scan", m.scoreScan(s), 0.0);
}

void C10_match(ScanMatcherNDT & m, Scan & scan, Pose2d given, Eigen::Matrix3d & cov)
{
  assume(m.laser_max_beams_ < scan.points_.size());
  Match r = match_(m, scan, given, cov), w = want_(m, scan, given, cov);
  same("score", r.score, w.score);
}

void C41_matcher(ScanMatcherNDT & m, rclcpp::Node * node, double range)
{
  m.initialize("some_matcher", node, range);
  same("ndt_resolution", m.resolution_, parameter<double>("some_matcher.ndt_resolution"));
  same("search_angular_resolution", m.angular_res_, parameter<double>("some_matcher.search_angular_resolution"));
  same("search_angular_size", m.angular_size_, parameter<double>("some_matcher.search_angular_size"));
  same("search_linear_resolution", m.linear_res_, parameter<double>("some_matcher.search_linear_resolution"));
  same("search_linear_size", m.linear_size_, parameter<double>("some_matcher.search_linear_size"));
  same("laser_max_beams", m.laser_max_beams_, static_cast<size_t>(parameter<int>("some_matcher.laser_max_beams")));
  same("range", m.range_max_, range);
}
}
