#include "spec.hpp"
#include <ndt_2d/ndt_model.hpp>
#include <ndt_2d/scan.hpp>
using namespace ndt_2d;
typedef std::vector<Point> Points;

static Eigen::Vector2d mean_(const std::vector<Eigen::Vector2d> & p, int n)
{
  Eigen::Vector2d m(0.0, 0.0);
  for (int i = 0; i < n; ++i) {m += p[i];}
  return m / n;
}

// unbiased sample covariance
static Eigen::Matrix2d cov_(const std::vector<Eigen::Vector2d> & p, int n)
{
  Eigen::Vector2d m = mean_(p, n);
  Eigen::Matrix2d c = Eigen::Matrix2d::Zero();
  for (int i = 0; i < n; ++i)
  {
    double dx = p[i](0) - m(0), dy = p[i](1) - m(1);
    c(0, 0) += dx * dx;
    c(0, 1) += dx * dy;
    c(1, 0) += dx * dy;
    c(1, 1) += dy * dy;
  }
  return c / (n - 1);
}

static Eigen::Matrix2d information_(const Eigen::Matrix2d & c)
{
  double half = (c(0, 0) + c(1, 1)) / 2.0;
  double root = sqrt(half * half - (c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0)));
  double large = half + root, small = half - root;
  double det = (small < 0.001 * large) ? 0.001 * large * large : small * large;
  Eigen::Matrix2d i;
  i(0, 0) = c(1, 1) / det;
  i(1, 1) = c(0, 0) / det;
  i(0, 1) = -c(0, 1) / det;
  i(1, 0) = -c(1, 0) / det;
  return i;
}

namespace spec
{
template <int N>
static void stats_(const std::vector<Eigen::Vector2d> & p)
{
  Cell c;
  for (int i = 0; i < N; ++i) {c.addPoint(p[i]);}
  same("count", c.n, N);
  same("mean", c.mean, mean_(p, N));
  holds("not valid before compute", !c.valid);
  c.compute();
  if (N >= 3)
  {
    same("covariance", c.covariance, cov_(p, N));
  }
  same("count kept", c.n, N);
  same("mean kept", c.mean, mean_(p, N));
}

void C03_one(Eigen::Vector2d a) {std::vector<Eigen::Vector2d> p{a}; stats_<1>(p);}
void C03_two(Eigen::Vector2d a, Eigen::Vector2d b) {std::vector<Eigen::Vector2d> p{a, b}; stats_<2>(p);}
void C03_three(Eigen::Vector2d a, Eigen::Vector2d b, Eigen::Vector2d c) {std::vector<Eigen::Vector2d> p{a, b, c}; stats_<3>(p);}
void C03_four(Eigen::Vector2d a, Eigen::Vector2d b, Eigen::Vector2d c, Eigen::Vector2d d)
{
  std::vector<Eigen::Vector2d> p{a, b, c, d};
  stats_<4>(p);
}

void C03_five(Eigen::Vector2d a, Eigen::Vector2d b, Eigen::Vector2d c, Eigen::Vector2d d, Eigen::Vector2d e)
{
  std::vector<Eigen::Vector2d> p{a, b, c, d, e};
  stats_<5>(p);
}

// points added after the statistics were computed count as well
void C03_again(Eigen::Vector2d a, Eigen::Vector2d b, Eigen::Vector2d c, Eigen::Vector2d d, bool early)
{
  Cell x;
  x.addPoint(a);
  if (early) {x.compute();}
  x.addPoint(b);
  x.addPoint(c);
  x.compute();
  x.addPoint(d);
  holds("stale after another point", !x.valid);
  x.compute();
  std::vector<Eigen::Vector2d> p{a, b, c, d};
  same("mean", x.mean, mean_(p, 4));
  same("covariance", x.covariance, cov_(p, 4));
}

// a cell holding any number of points with any statistics
void C03_step(unsigned long n, Eigen::Vector2d m, Eigen::Matrix2d second, Eigen::Vector2d p, bool v)
{
  positive(n);
  Cell c;
  c.n = n;
  c.mean = m;
  c.correlation = second;
  c.valid = v;
  c.addPoint(p);
  same("count", c.n, n + 1.0);
  same("sum of points x", c.mean(0) * (n + 1.0), m(0) * n + p(0));
  same("sum of points y", c.mean(1) * (n + 1.0), m(1) * n + p(1));
  same("sum of xx", c.correlation(0, 0) * (n + 1.0), second(0, 0) * n + p(0) * p(0));
  same("sum of xy", c.correlation(0, 1) * (n + 1.0), second(0, 1) * n + p(0) * p(1));
  same("sum of yy", c.correlation(1, 1) * (n + 1.0), second(1, 1) * n + p(1) * p(1));
  holds("stale", !c.valid);
}

// covariance from mean and second moments for any number of points
void C03_moments(unsigned long n, Eigen::Vector2d m, Eigen::Matrix2d second)
{
  assume(n >= 3);
  Cell c;
  c.n = n;
  c.mean = m;
  c.correlation = second;
  c.valid = false;
  c.compute();
  double f = n / (n - 1.0);
  same("xx", c.covariance(0, 0), f * (second(0, 0) - m(0) * m(0)));
  same("xy", c.covariance(0, 1), f * (second(0, 1) - m(0) * m(1)));
  same("yx", c.covariance(1, 0), f * (second(0, 1) - m(0) * m(1)));
  same("yy", c.covariance(1, 1), f * (second(1, 1) - m(1) * m(1)));
}

// the information matrix of a covariance (second moments of points with zero mean)
void C03_information(double xx, double xy, double yy)
{
  positive(xx);
  positive(yy);
  Cell c;
  c.n = 5;
  c.mean = Eigen::Vector2d(0.0, 0.0);
  c.correlation(0, 0) = xx;
  c.correlation(0, 1) = xy;
  c.correlation(1, 1) = yy;
  c.valid = false;
  c.compute();
  Eigen::Matrix2d k;
  k(0, 0) = xx * 1.25;
  k(0, 1) = xy * 1.25;
  k(1, 0) = xy * 1.25;
  k(1, 1) = yy * 1.25;
  assume(xx * yy > xy * xy);
  Eigen::Matrix2d i = information_(k);
  same("information", c.information, i);
  holds("valid", c.valid);
}

// nothing changes when there is nothing new
void C03_compute_again(Cell & c)
{
  assume(c.valid);
  Cell d(c);
  c.compute();
  same("mean", c.mean, d.mean);
  same("covariance", c.covariance, d.covariance);
  same("information", c.information, d.information);
  same("count", c.n, d.n);
  holds("valid", c.valid);
}

static bool inside_(double x, double y, double cell, unsigned long w, unsigned long h, double ox, double oy)
{
  return x >= ox && y >= oy && (x - ox) / cell < w && (y - oy) / cell < h;
}

// any coordinates: the index is that of the square they lie in
void C04_index(double cell, double sx, double sy, double ox, double oy, double x, double y)
{
  positive(cell);
  positive(sx);
  positive(sy);
  NDT ndt(cell, sx, sy, ox, oy);
  unsigned long w = static_cast<unsigned long>(sx / cell + 1), h = static_cast<unsigned long>(sy / cell + 1);
  same("cells", ndt.cells_.size(), w * h);
  int i = ndt.getIndex(x, y);
  int r = -1;
  if (inside_(x, y, cell, w, h, ox, oy))
  {
    r = static_cast<long>(floor((y - oy) / cell)) * w + static_cast<long>(floor((x - ox) / cell));
  }
  same("outside", i < 0, r < 0);
  same("index", i < 0 ? -1 : i, r < 0 ? -1 : r);
}

// the same with coordinates that may be NaN; conversions to integers must be of values within range
void C04_index_nan(double cell, unsigned long w, unsigned long h, double ox, double oy, double x, double y, NDT & ndt)
{
  positive(cell);
  ndt.cell_size_ = cell;
  ndt.size_x_ = w;
  ndt.size_y_ = h;
  ndt.origin_x_ = ox;
  ndt.origin_y_ = oy;
  int i = ndt.getIndex(x, y);
  int r = -1;
  double gx = (x - ox) / cell, gy = (y - oy) / cell;
  if (x >= ox && y >= oy && gx < w && gy < h)
  {
    unsigned int ix = gx, iy = gy;
    r = iy * w + ix;
  }
  same("index", i, r);
}

// only the cell of a point changes
void C04_add(NDT & ndt, double x, double y)
{
  ScanPtr s = std::make_shared<Scan>(0);
  Points p;
  Point q;
  q.x = x;
  q.y = y;
  p.push_back(q);
  s->setPoints(p);
  NDT before(ndt);
  int i = ndt.getIndex(x, y);
  if (i >= 0) {before.cells_[i].addPoint(Eigen::Vector2d(x, y));}
  ndt.addScan(s);
  same("cells", ndt.cells_, before.cells_);
}

void C04_query(NDT & ndt, Eigen::Vector2d & p)
{
  NDT before(ndt);
  int i = ndt.getIndex(p(0), p(1));
  double expected = 0.0;
  if (i >= 0) {expected = before.cells_[i].score(p);}
  same("score", ndt.likelihood(p), expected);
  same("cells", ndt.cells_, before.cells_);
}

void C05_add(NDT & ndt, Scan & scan)
{
  ScanPtr s = std::make_shared<Scan>(scan);
  NDT ref(ndt);
  Pose2d pose = s->getPose();
  Points pts = s->getPoints();
  ndt.addScan(s);
  for (size_t i = 0; i < pts.size(); ++i)
  {
    Eigen::Vector2d p(pose.x + cos(pose.theta) * pts[i].x - sin(pose.theta) * pts[i].y,
                      pose.y + sin(pose.theta) * pts[i].x + cos(pose.theta) * pts[i].y);
    int k = ref.getIndex(p(0), p(1));
    if (k >= 0) {ref.cells_[k].addPoint(p);}
  }
  same("cells", ndt.cells_, ref.cells_);
  same("scan pose", s->getPose(), pose);
  same("scan points", s->getPoints(), pts);
}

void C05_add_one(NDT & ndt, Pose2d pose, double x, double y)
{
  ScanPtr s = std::make_shared<Scan>(0);
  Points p;
  Point q;
  q.x = x;
  q.y = y;
  p.push_back(q);
  s->setPoints(p);
  s->setPose(pose);
  NDT ref(ndt);
  Eigen::Vector2d t(pose.x + cos(pose.theta) * x - sin(pose.theta) * y, pose.y + sin(pose.theta) * x + cos(pose.theta) * y);
  int k = ref.getIndex(t(0), t(1));
  if (k >= 0) {ref.cells_[k].addPoint(t);}
  ndt.addScan(s);
  same("cells", ndt.cells_, ref.cells_);
}

void C05_query_scan(NDT & ndt, Scan & scan)
{
  ScanPtr s = std::make_shared<Scan>(scan);
  Pose2d pose = s->getPose();
  Points pts = s->getPoints();
  double expected = 0.0;
  for (size_t i = 0; i < pts.size(); ++i)
  {
    Eigen::Vector2d p(pose.x + cos(pose.theta) * pts[i].x - sin(pose.theta) * pts[i].y,
                      pose.y + sin(pose.theta) * pts[i].x + cos(pose.theta) * pts[i].y);
    expected += ndt.likelihood(p);
  }
  same("score", ndt.likelihood(s), expected);
  same("scan pose", s->getPose(), pose);
  same("scan points", s->getPoints(), pts);
}

void C05_query_points(NDT & ndt, Points & pts)
{
  double expected = 0.0;
  for (size_t i = 0; i < pts.size(); ++i)
  {
    expected += ndt.likelihood(Eigen::Vector2d(pts[i].x, pts[i].y));
  }
  same("score", ndt.likelihood(pts), expected);
}

void C05_query_3d(NDT & ndt, Eigen::Vector3d p)
{
  Eigen::Vector2d q(p(0), p(1));
  double expected = ndt.likelihood(q);
  same("score", ndt.likelihood(p), expected);
}

void C06_score(Cell & c, Eigen::Vector2d p)
{
  assume(c.valid);
  double dx = p(0) - c.mean(0), dy = p(1) - c.mean(1);
  double e = dx * dx * c.information(0, 0) + dx * dy * (c.information(0, 1) + c.information(1, 0)) + dy * dy * c.information(1, 1);
  double expected = 0.0;
  if (c.n >= 5) {expected = exp(-0.5 * e);}
  same("score", c.score(p), expected);
}

void C06_not_computed(Cell & c, Eigen::Vector2d p, Eigen::Vector2d q)
{
  c.addPoint(p);
  same("after a new point", c.score(q), 0.0);
}

void C06_few(Eigen::Vector2d a, Eigen::Vector2d b, Eigen::Vector2d c, Eigen::Vector2d d, Eigen::Vector2d q)
{
  Cell x;
  same("no points", x.score(q), 0.0);
  x.compute();
  same("no points, computed", x.score(q), 0.0);
  x.addPoint(a);
  x.compute();
  same("one point", x.score(q), 0.0);
  x.addPoint(b);
  x.compute();
  same("two points", x.score(q), 0.0);
  x.addPoint(c);
  x.compute();
  same("three points", x.score(q), 0.0);
  x.addPoint(d);
  x.compute();
  same("four points", x.score(q), 0.0);
}

void C06_no_spread(Eigen::Vector2d a, Eigen::Vector2d q)
{
  Cell x;
  for (int i = 0; i < 5; ++i) {x.addPoint(a);}
  x.compute();
  same("five times the same point", x.score(q), 0.0);
  x.addPoint(a);
  x.compute();
  same("six times the same point", x.score(q), 0.0);
}

void C06_map(NDT & ndt, Eigen::Vector2d p)
{
  NDT ref(ndt);
  ndt.compute();
  for (size_t i = 0; i < ref.cells_.size(); ++i) {ref.cells_[i].compute();}
  same("all cells computed", ndt.cells_, ref.cells_);
}
}
