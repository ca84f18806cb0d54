#include "spec.hpp"
#include <cmath>
#include <random>
#include <angles/angles.h>
#include <ndt_2d/particle_filter.hpp>
using namespace ndt_2d;

typedef Eigen::Vector3d Particle;

namespace spec
{
// ---------------------------------------------------------------- C15
static double turn_(double a, double b)
{
  return angles::normalize_angle(b - a);
}

void C15_sample(MotionModel & m, double dx, double dy, double dth, std::vector<Particle> & poses)
{
  std::vector<Particle> before = poses, want;
  m.sample(dx, dy, dth, poses);
  double trans = std::hypot(dx, dy);
  double rot1 = trans > 0.01 ? std::atan2(dy, dx) : 0.0;
  double rot2 = turn_(rot1, dth);
  double r1 = std::min(std::fabs(turn_(0.0, rot1)), std::fabs(turn_(rot1, M_PI)));
  double r2 = std::min(std::fabs(turn_(0.0, rot2)), std::fabs(turn_(rot2, M_PI)));
  std::normal_distribution<double> first(rot1, std::sqrt(m.a1_ * r1 * r1 + m.a2_ * trans * trans));
  std::normal_distribution<double> move(trans, std::sqrt(m.a3_ * trans * trans + m.a4_ * (r1 * r1 + r2 * r2)));
  std::normal_distribution<double> last(rot2, std::sqrt(m.a1_ * r2 * r2 + m.a2_ * trans * trans));
  std::mt19937 gen;
  for (size_t i = 0; i < before.size(); ++i)
  {
    double a = first(gen), t = move(gen), b = last(gen);
    double heading = before[i](2) + a;
    want.push_back(Particle(before[i](0) + t * std::cos(heading), before[i](1) + t * std::sin(heading), angles::normalize_angle(heading + b)));
  }
  same("poses", poses, want);
}

void C15_new(double a1, double a2, double a3, double a4, double a5)
{
  MotionModel m(a1, a2, a3, a4, a5);
  same("alpha 1", m.a1_, a1);
  same("alpha 2", m.a2_, a2);
  same("alpha 3", m.a3_, a3);
  same("alpha 4", m.a4_, a4);
}

// ---------------------------------------------------------------- C14
static int bin_(double x, double size)
{
  return static_cast<int>(std::floor(x / size));
}

static bool same_bin_(const KDTree<double> & t, const Eigen::Vector3d & a, const Eigen::Vector3d & b)
{
  return bin_(a(0), t.cell_size_(0)) == bin_(b(0), t.cell_size_(0)) && bin_(a(1), t.cell_size_(1)) == bin_(b(1), t.cell_size_(1)) &&
         bin_(a(2), t.cell_size_(2)) == bin_(b(2), t.cell_size_(2));
}

void C14_new(double x, double y, double th, size_t n)
{
  KDTree<double> t(x, y, th, n);
  same("empty", t.getLeafCount(), size_t(0));
  same("size x", t.cell_size_(0), x);
  same("size y", t.cell_size_(1), y);
  same("size th", t.cell_size_(2), th);
}

void C14_clear(KDTree<double> & t, Eigen::Vector3d p, double w)
{
  t.clear();
  same("cleared", t.getLeafCount(), size_t(0));
  t.insert(p, w);
  same("one after clear", t.getLeafCount(), size_t(1));
}

static void sizes_(KDTree<double> & t)
{
  positive(t.cell_size_(0));
  positive(t.cell_size_(1));
  positive(t.cell_size_(2));
}

void C14_two(KDTree<double> & t, Eigen::Vector3d p, Eigen::Vector3d q, double w, double v)
{
  sizes_(t);
  t.clear();
  t.insert(p, w);
  Eigen::Vector3d q0 = q;
  double v0 = v;
  t.insert(q, v);
  same("particle untouched", q, q0);
  same("weight untouched", v, v0);
  same("leaves", t.getLeafCount(), same_bin_(t, p, q) ? size_t(1) : size_t(2));
}


static Eigen::Vector3d on_(KDTree<double> & t, int axis, int bin)
{
  Eigen::Vector3d p(0.0, 0.0, 0.0);
  p(axis) = t.cell_size_(axis) * (bin + 0.25);
  return p;
}

// insertions that differ along one axis: the second is in a higher bin
template <int axis>
static void line_(KDTree<double> & t, int lo, int d, bool down, double w)
{
  sizes_(t);
  positive(d);
  t.clear();
  Eigen::Vector3d p = on_(t, axis, lo), q = on_(t, axis, lo + d);
  t.insert(down ? q : p, w);
  t.insert(down ? p : q, w);
}

template <int axis>
static void again_(KDTree<double> & t, int lo, int d, bool down, double w)
{
  line_<axis>(t, lo, d, down, w);
  same("two", t.getLeafCount(), size_t(2));
  Eigen::Vector3d p = on_(t, axis, lo), q = on_(t, axis, lo + d);
  t.insert(p, w);
  same("still two", t.getLeafCount(), size_t(2));
  t.insert(q, w);
  same("and still", t.getLeafCount(), size_t(2));
}

// three different bins a < a + d < a + d + e in some order, then all of them again
template <int axis>
static void third_(KDTree<double> & t, int a, int d, int e, int first, int second, int third, double w)
{
  sizes_(t);
  positive(d);
  positive(e);
  t.clear();
  Eigen::Vector3d p[3] = {on_(t, axis, a), on_(t, axis, a + d), on_(t, axis, a + d + e)};
  t.insert(p[first], w);
  t.insert(p[second], w);
  t.insert(p[third], w);
  same("three", t.getLeafCount(), size_t(3));
  t.insert(p[0], w);
  same("low again", t.getLeafCount(), size_t(3));
  t.insert(p[1], w);
  same("middle again", t.getLeafCount(), size_t(3));
  t.insert(p[2], w);
  same("high again", t.getLeafCount(), size_t(3));
}

void C14_again_x(KDTree<double> & t, int lo, int d, double w) {again_<0>(t, lo, d, false, w);}
void C14_again_y(KDTree<double> & t, int lo, int d, double w) {again_<1>(t, lo, d, false, w);}
void C14_again_th(KDTree<double> & t, int lo, int d, double w) {again_<2>(t, lo, d, false, w);}
void C14_again_down(KDTree<double> & t, int lo, int d, double w) {again_<0>(t, lo, d, true, w);}
void C14_three_x(KDTree<double> & t, int a, int d, int e, double w) {third_<0>(t, a, d, e, 0, 1, 2, w);}
void C14_three_y(KDTree<double> & t, int a, int d, int e, double w) {third_<1>(t, a, d, e, 2, 1, 0, w);}
void C14_three_th(KDTree<double> & t, int a, int d, int e, double w) {third_<2>(t, a, d, e, 0, 2, 1, w);}
void C14_three_mid(KDTree<double> & t, int a, int d, int e, double w) {third_<0>(t, a, d, e, 1, 0, 2, w);}

// bins that differ in the first axis only by less than in the second
void C14_two_axes(KDTree<double> & t, int d, int e, double w)
{
  sizes_(t);
  positive(d);
  positive(e);
  t.clear();
  double sx = t.cell_size_(0), sy = t.cell_size_(1);
  Eigen::Vector3d p(0.25 * sx, 0.25 * sy, 0.0), q((d + 0.25) * sx, (d + e + 0.25) * sy, 0.0), r((d + 0.25) * sx, 0.25 * sy, 0.0);
  t.insert(p, w);
  t.insert(q, w);
  t.insert(r, w);
  same("three", t.getLeafCount(), size_t(3));
  t.insert(r, w);
  t.insert(q, w);
  t.insert(p, w);
  same("still three", t.getLeafCount(), size_t(3));
}

// ---------------------------------------------------------------- C16, C17, C18
struct Stats
{
  std::vector<double> weights;
  Eigen::Vector3d mean;
  Eigen::Matrix3d cov;
};

// statistics of particles and weights, written down as a reference
static Stats stats_(const std::vector<Particle> & p, const std::vector<double> & w)
{
  Stats r;
  double sum = 0.0;
  for (size_t i = 0; i < w.size(); ++i) {sum += w[i];}
  for (size_t i = 0; i < w.size(); ++i) {r.weights.push_back(sum == 0.0 ? 1.0 / w.size() : w[i] / sum);}
  double x = 0.0, y = 0.0, c = 0.0, s = 0.0, xx = 0.0, xy = 0.0, yy = 0.0;
  for (size_t i = 0; i < p.size(); ++i)
  {
    x += r.weights[i] * p[i](0);
    y += r.weights[i] * p[i](1);
    c += r.weights[i] * std::cos(p[i](2));
    s += r.weights[i] * std::sin(p[i](2));
    xx += r.weights[i] * p[i](0) * p[i](0);
    xy += r.weights[i] * p[i](0) * p[i](1);
    yy += r.weights[i] * p[i](1) * p[i](1);
  }
  double th = std::atan2(s, c), tt = 0.0;
  for (size_t i = 0; i < p.size(); ++i)
  {
    double d = turn_(p[i](2), th);
    tt += r.weights[i] * d * d;
  }
  r.mean = Eigen::Vector3d(x, y, th);
  r.cov << xx - x * x, xy - x * y, 0.0, xy - x * y, yy - y * y, 0.0, 0.0, 0.0, tt;
  return r;
}

// what every filter keeps between operations
static void filter_(ParticleFilter & f)
{
  positive(f.min_particles_);
  assume(f.particles_.size() == f.weights_.size());
  positive(f.particles_.size());
  f.cov_(0, 2) = 0.0;
  f.cov_(2, 0) = 0.0;
  f.cov_(1, 2) = 0.0;
  f.cov_(2, 1) = 0.0;
}

static void check_(ParticleFilter & f, const Stats & want)
{
  same("one weight per particle", f.weights_.size(), f.particles_.size());
  same("weights", f.weights_, want.weights);
  same("mean", f.getMean(), want.mean);
  same("covariance", f.getCovariance(), want.cov);
}

void C17_new(size_t lo, size_t hi, MotionModelPtr & model)
{
  positive(lo);
  ParticleFilter f(lo, hi, model);
  check_(f, stats_(std::vector<Particle>(lo, Particle(0.0, 0.0, 0.0)), std::vector<double>(lo, 1.0 / lo)));
}

void C17_measure(ParticleFilter & f, ScanMatcherPtr & matcher, ScanPtr & scan)
{
  filter_(f);
  std::vector<double> w;
  for (size_t i = 0; i < f.particles_.size(); ++i)
  {
    w.push_back(matcher->scorePoints(scan->getPoints(), Pose2d(f.particles_[i](0), f.particles_[i](1), f.particles_[i](2))));
  }
  std::vector<Particle> before = f.particles_;
  f.measure(matcher, scan);
  check_(f, stats_(before, w));
}

void C17_update(ParticleFilter & f, double dx, double dy, double dth)
{
  filter_(f);
  std::vector<double> w = f.weights_;
  f.update(dx, dy, dth);
  check_(f, stats_(f.particles_, w));
}

void C17_init(ParticleFilter & f, double x, double y, double th, double sx, double sy, double st)
{
  filter_(f);
  f.init(x, y, th, sx, sy, st);
  check_(f, stats_(f.particles_, std::vector<double>(f.particles_.size(), 1.0)));
}

struct Drawn
{
  std::vector<Particle> particles;
  std::vector<double> weights;
};

// KLD sampling (Probabilistic Robotics, table 8.4)
static Drawn draw_(ParticleFilter & f, double err, double z)
{
  Drawn r;
  std::discrete_distribution<size_t> pick(f.weights_.begin(), f.weights_.end());
  std::mt19937 gen;
  KDTree<double> bins = f.kd_tree_;
  bins.clear();
  size_t bound = f.max_particles_;
  while (r.particles.size() < std::max(f.min_particles_, bound))
  {
    size_t i = pick(gen);
    r.particles.push_back(f.particles_[i]);
    r.weights.push_back(f.weights_[i]);
    bins.insert(f.particles_[i], f.weights_[i]);
    size_t k = bins.getLeafCount();
    if (k > 1)
    {
      double b = 2.0 / (9.0 * (k - 1));
      double c = 1.0 - b + std::sqrt(b) * z;
      bound = static_cast<size_t>((k - 1) / (2.0 * err) * c * c * c);
    }
    if (r.particles.size() >= f.max_particles_) {break;}
  }
  return r;
}

static void limits_(ParticleFilter & f, size_t d)
{
  positive(f.min_particles_);
  positive(d);
  assume(f.max_particles_ == f.min_particles_ + d);
}

void C16_resample(ParticleFilter & f, size_t d, double err, double z)
{
  filter_(f);
  limits_(f, d);
  Drawn want = draw_(f, err, z);
  f.resample(err, z);
  same("number of particles", f.particles_.size(), want.particles.size());
  same("number of weights", f.weights_.size(), want.particles.size());
  same("particles", f.particles_, want.particles);
  same("weights", f.weights_, stats_(want.particles, want.weights).weights);
}

// limits that leave the bound room to decide
void C16_bound(ParticleFilter & f, double z)
{
  filter_(f);
  f.min_particles_ = 1;
  f.max_particles_ = 10;
  Drawn want = draw_(f, 0.05, z);
  f.resample(0.05, z);
  same("number of particles", f.particles_.size(), want.particles.size());
}

void C17_resample(ParticleFilter & f, size_t d, double err, double z)
{
  filter_(f);
  limits_(f, d);
  Drawn want = draw_(f, err, z);
  f.resample(err, z);
  check_(f, stats_(want.particles, want.weights));
}

void C16_new(size_t lo, size_t hi, MotionModelPtr & model)
{
  ParticleFilter f(lo, hi, model);
  same("particles", f.particles_.size(), lo);
  same("weights", f.weights_.size(), lo);
  same("minimum", f.min_particles_, lo);
  same("maximum", f.max_particles_, hi);
}

void C16_init(ParticleFilter & f, double x, double y, double th, double sx, double sy, double st)
{
  size_t n = f.particles_.size();
  filter_(f);
  f.init(x, y, th, sx, sy, st);
  same("particles", f.particles_.size(), n);
  same("weights", f.weights_.size(), n);
}

void C16_update(ParticleFilter & f, double dx, double dy, double dth)
{
  size_t n = f.particles_.size();
  filter_(f);
  f.update(dx, dy, dth);
  same("particles", f.particles_.size(), n);
  same("weights", f.weights_.size(), n);
}

void C16_measure(ParticleFilter & f, ScanMatcherPtr & matcher, ScanPtr & scan)
{
  size_t n = f.particles_.size();
  filter_(f);
  f.measure(matcher, scan);
  same("particles", f.particles_.size(), n);
  same("weights", f.weights_.size(), n);
}

// ---------------------------------------------------------------- C18
void C18_update(ParticleFilter & f, double dx, double dy, double dth)
{
  filter_(f);
  std::vector<Particle> want = f.particles_;
  std::vector<double> w = f.weights_;
  MotionModel & m = snapshot(*f.motion_model_);
  m.sample(dx, dy, dth, want);
  f.update(dx, dy, dth);
  same("particles", f.particles_, want);
  double sum = 0.0;
  for (size_t i = 0; i < w.size(); ++i) {sum += w[i];}
  assume(sum != 0.0);
  std::vector<double> v;
  for (size_t i = 0; i < w.size(); ++i) {v.push_back(w[i] / sum);}
  same("weights", f.weights_, v);
}

void C18_measure(ParticleFilter & f, ScanMatcherPtr & matcher, Scan & scan)
{
  filter_(f);
  ScanPtr s = std::make_shared<Scan>(scan);
  std::vector<Particle> before = f.particles_;
  std::vector<double> w;
  double sum = 0.0;
  for (size_t i = 0; i < before.size(); ++i)
  {
    w.push_back(matcher->scorePoints(scan.points_, Pose2d(before[i](0), before[i](1), before[i](2))));
    sum += w.back();
  }
  f.measure(matcher, s);
  same("particles stay", f.particles_, before);
  same("scan stays", *s, scan);
  std::vector<double> v;
  for (size_t i = 0; i < w.size(); ++i) {v.push_back(sum == 0.0 ? 1.0 / w.size() : w[i] / sum);}
  same("weights", f.weights_, v);
}

void C18_init(ParticleFilter & f, double x, double y, double th, double sx, double sy, double st)
{
  filter_(f);
  size_t n = f.particles_.size();
  f.init(x, y, th, sx, sy, st);
  std::normal_distribution<double> at_x(x, sx), at_y(y, sy), at_th(th, st);
  std::mt19937 gen;
  std::vector<Particle> want;
  std::vector<double> w;
  for (size_t i = 0; i < n; ++i)
  {
    double a = at_x(gen), b = at_y(gen), c = at_th(gen);
    want.push_back(Particle(a, b, angles::normalize_angle(c)));
    w.push_back(1.0 / n);
  }
  same("particles", f.particles_, want);
  same("weights", f.weights_, w);
}

void C18_message(ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray msg;
  f.getMsg(msg);
  std::vector<geometry_msgs::msg::Pose> want;
  for (size_t i = 0; i < f.particles_.size(); ++i)
  {
    geometry_msgs::msg::Pose p;
    p.position.x = f.particles_[i](0);
    p.position.y = f.particles_[i](1);
    p.orientation.z = std::sin(f.particles_[i](2) / 2.0);
    p.orientation.w = std::cos(f.particles_[i](2) / 2.0);
    want.push_back(p);
  }
  same("poses", msg.poses, want);
}
}
