#include "spec.hpp"
#include <algorithm>
#include <cmath>
#include <ndt_2d/occupancy_grid.hpp>
using namespace ndt_2d;
typedef nav_msgs::msg::OccupancyGrid Map;
typedef std::vector<ScanPtr> Scans;

struct Box
{
  double x0, x1, y0, y1;
};

// every pose and every transformed point of the current scans, grown to multiples of the resolution
static Box cover_(const Scans & scans, double res)
{
  Box b = {0.0, 0.0, 0.0, 0.0};
  for (size_t i = 0; i < scans.size(); ++i)
  {
    const Pose2d & o = scans[i]->getPose();
    b.x0 = std::min(o.x, b.x0);
    b.x1 = std::max(o.x, b.x1);
    b.y0 = std::min(o.y, b.y0);
    b.y1 = std::max(o.y, b.y1);
    const std::vector<Point> & pts = scans[i]->getPoints();
    for (size_t j = 0; j < pts.size(); ++j)
    {
      double x = o.x + (pts[j].x * cos(o.theta) - pts[j].y * sin(o.theta));
      double y = o.y + (pts[j].x * sin(o.theta) + pts[j].y * cos(o.theta));
      b.x0 = std::min(x, b.x0);
      b.x1 = std::max(x, b.x1);
      b.y0 = std::min(y, b.y0);
      b.y1 = std::max(y, b.y1);
    }
  }
  b.x0 = std::floor(b.x0 / res) * res;
  b.x1 = std::ceil(b.x1 / res) * res;
  b.y0 = std::floor(b.y0 / res) * res;
  b.y1 = std::ceil(b.y1 / res) * res;
  return b;
}

// one ray, cell by cell
static void ray_(std::vector<int> & ends, std::vector<int> & passed, uint32_t width, int x0, int y0, int x1, int y1)
{
  int dx = abs(x1 - x0), dy = -abs(y1 - y0);
  int sx = (x0 < x1) ? 1 : -1, sy = (y0 < y1) ? 1 : -1;
  int error = dx + dy;
  int x = x0, y = y0;
  while (true)
  {
    int cell = x + y * width;
    if (x == x1 && y == y1) {++ends[cell]; break;}
    ++passed[cell];
    if (2 * error >= dy)
    {
      if (x == x1) {++ends[cell]; break;}
      error += dy;
      x += sx;
    }
    if (2 * error <= dx)
    {
      if (y == y1) {++ends[cell]; break;}
      error += dx;
      y += sy;
    }
  }
}

// the cell a ray is in after k moves (its last cell when it has fewer)
static int cell_(uint32_t width, int k, int x0, int y0, int x1, int y1)
{
  int dx = abs(x1 - x0), dy = -abs(y1 - y0);
  int sx = (x0 < x1) ? 1 : -1, sy = (y0 < y1) ? 1 : -1;
  int error = dx + dy;
  int x = x0, y = y0;
  while (true)
  {
    if (k <= 0 || (x == x1 && y == y1)) {break;}
    --k;
    int e = error;
    if (2 * e >= dy)
    {
      error += dy;
      x += sx;
    }
    if (2 * e <= dx)
    {
      error += dx;
      y += sy;
    }
  }
  return x + y * width;
}

namespace spec
{
void C19_bounds(OccupancyGrid & g, Scans & scans)
{
  positive(g.resolution_);
  g.updateBounds(scans);
  Box b = cover_(scans, g.resolution_);
  same("lowest x covers every pose and point", g.min_x_, b.x0);
  same("highest x covers every pose and point", g.max_x_, b.x1);
  same("lowest y covers every pose and point", g.min_y_, b.y0);
  same("highest y covers every pose and point", g.max_y_, b.y1);
}
void C19_meta(OccupancyGrid & g, Scans & scans, Map & m)
{
  positive(g.resolution_);
  const double res = g.resolution_;
  Map before = m;
  g.getMsg(scans, m);
  Box b = cover_(scans, res);
  same("resolution", m.info.resolution, static_cast<float>(res));
  same("width has five cells margin on both sides", m.info.width, static_cast<uint32_t>((b.x1 - b.x0 + 10 * res) / res));
  same("height has five cells margin on both sides", m.info.height, static_cast<uint32_t>((b.y1 - b.y0 + 10 * res) / res));
  same("origin x", m.info.origin.position.x, b.x0 - 5 * res);
  same("origin y", m.info.origin.position.y, b.y0 - 5 * res);
  same("not rotated", m.info.origin.orientation.w, 1.0);
  same("not rotated x", m.info.origin.orientation.x, before.info.origin.orientation.x);
  same("not rotated y", m.info.origin.orientation.y, before.info.origin.orientation.y);
  same("not rotated z", m.info.origin.orientation.z, before.info.origin.orientation.z);
  same("one value per cell", m.data.size(), static_cast<size_t>(m.info.width * m.info.height));
}
void C19_again(OccupancyGrid & g, Scans & one, Scans & two, Map & m)
{
  positive(g.resolution_);
  g.updateBounds(one);
  g.updateBounds(two);
  Box b = cover_(two, g.resolution_);
  same("bounds of the current scans only", g.min_x_, b.x0);
  same("bounds of the current scans only (max x)", g.max_x_, b.x1);
  same("bounds of the current scans only (y)", g.min_y_, b.y0);
  same("bounds of the current scans only (max y)", g.max_y_, b.y1);
}
void C19_construct(double res, double occ)
{
  OccupancyGrid g(res, occ);
  same("resolution is the given one", g.resolution_, res);
  same("threshold is the given one", g.occ_thresh_, occ);
}
void C20_empty(OccupancyGrid & g, Map & m, int i)
{
  positive(g.resolution_);
  Scans none;
  g.getMsg(none, m);
  same("size of a map without scans", m.data.size(), static_cast<size_t>(m.info.width * m.info.height));
  assume(i >= 0);
  assume(i < static_cast<int>(m.data.size()));
  same("unknown without scans", static_cast<int>(m.data[i]), -1);
}
// the whole map against the reference
static void render_(OccupancyGrid & g, Scans & scans, Map & m)
{
  Box b = cover_(scans, g.resolution_);
  const double res = g.resolution_, x0 = b.x0 - 5 * res, y0 = b.y0 - 5 * res;
  const uint32_t width = static_cast<uint32_t>((b.x1 - b.x0 + 10 * res) / res);
  const uint32_t height = static_cast<uint32_t>((b.y1 - b.y0 + 10 * res) / res);
  std::vector<int> ends(width * height, 0), passed(width * height, 0);
  for (size_t i = 0; i < scans.size(); ++i)
  {
    const Pose2d & o = scans[i]->getPose();
    const std::vector<Point> & pts = scans[i]->getPoints();
    const double c = cos(o.theta), s = sin(o.theta);
    for (size_t j = 0; j < pts.size(); ++j)
    {
      double x = o.x + pts[j].x * c - pts[j].y * s, y = o.y + pts[j].x * s + pts[j].y * c;
      ray_(ends, passed, width, static_cast<int>((o.x - x0) / res), static_cast<int>((o.y - y0) / res),
           static_cast<int>((x - x0) / res), static_cast<int>((y - y0) / res));
    }
  }
  m.data.assign(width * height, -1);
  for (size_t k = 0; k < m.data.size(); ++k)
  {
    if (ends[k] + passed[k] > 0)
    {
      m.data[k] = static_cast<double>(ends[k]) / (ends[k] + passed[k]) > g.occ_thresh_ ? 100 : 0;
    }
  }
}
// cell number k of one ray, and the cells beside it
static int on_ray_(OccupancyGrid & g, const Scans & scans, const ScanPtr & scan, const Point & p, int k)
{
  Box b = cover_(scans, g.resolution_);
  const double res = g.resolution_, x0 = b.x0 - 5 * res, y0 = b.y0 - 5 * res;
  const Pose2d & o = scan->getPose();
  double x = o.x + p.x * cos(o.theta) - p.y * sin(o.theta), y = o.y + p.x * sin(o.theta) + p.y * cos(o.theta);
  return cell_(static_cast<uint32_t>((b.x1 - b.x0 + 10 * res) / res), k, static_cast<int>((o.x - x0) / res),
               static_cast<int>((o.y - y0) / res), static_cast<int>((x - x0) / res), static_cast<int>((y - y0) / res));
}
// cells touched by rays
void C20_touched(OccupancyGrid & g, const ScanPtr & scan, size_t j, Map & m, Map & r, int k)
{
  positive(g.resolution_);
  positive(k);
  assume(j < scan->getPoints().size());
  Scans scans(1, scan);
  int at = on_ray_(g, scans, scan, scan->getPoints()[j], k - 1);
  g.getMsg(scans, m);
  render_(g, scans, r);
  same("size", m.data.size(), r.data.size());
  same("touched cell", m.data[at], r.data[at]);
  same("first cell", m.data[0], r.data[0]);
}
void C20_cells(OccupancyGrid & g, Scans & scans, Map & m, Map & r)
{
  positive(g.resolution_);
  g.getMsg(scans, m);
  render_(g, scans, r);
  same("size", m.data.size(), r.data.size());
  same("cells", m.data, r.data);
}
void C21_along_ray(OccupancyGrid & g, const ScanPtr & scan, const Point & p, Map & m, Map & r, int k)
{
  positive(g.resolution_);
  positive(k);
  std::vector<Point> pts(1, p);
  scan->setPoints(pts);
  Scans scans(1, scan);
  int at = on_ray_(g, scans, scan, p, k - 1);
  g.getMsg(scans, m);
  render_(g, scans, r);
  same("size", m.data.size(), r.data.size());
  same("cell along a ray", m.data[at], r.data[at]);
  same("cell right of the ray", m.data[at + 1], r.data[at + 1]);
  same("cell left of the ray", m.data[at - 1], r.data[at - 1]);
}
void C21_end(OccupancyGrid & g, const ScanPtr & scan, const Point & p, Map & m, Map & r)
{
  positive(g.resolution_);
  std::vector<Point> pts(1, p);
  scan->setPoints(pts);
  Scans scans(1, scan);
  int at = on_ray_(g, scans, scan, p, 1000);
  g.getMsg(scans, m);
  render_(g, scans, r);
  same("cell the ray ends in", m.data[at], r.data[at]);
}
void C21_many(OccupancyGrid & g, const ScanPtr & scan, size_t j, Map & m, Map & r, int k)
{
  positive(g.resolution_);
  positive(k);
  assume(j < scan->getPoints().size());
  Scans scans(1, scan);
  int at = on_ray_(g, scans, scan, scan->getPoints()[j], k - 1);
  g.getMsg(scans, m);
  render_(g, scans, r);
  same("cell along one of many rays", m.data[at], r.data[at]);
}
void C21_other_scan(OccupancyGrid & g, Scans & scans, size_t s, size_t j, Map & m, Map & r, int k)
{
  positive(g.resolution_);
  positive(k);
  assume(s < scans.size());
  assume(j < scans[s]->getPoints().size());
  int at = on_ray_(g, scans, scans[s], scans[s]->getPoints()[j], k - 1);
  g.getMsg(scans, m);
  render_(g, scans, r);
  same("cell along a ray of any scan", m.data[at], r.data[at]);
}
void C21_one_ray(OccupancyGrid & g, const ScanPtr & scan, const Point & p, Map & m, Map & r)
{
  positive(g.resolution_);
  std::vector<Point> pts(1, p);
  scan->setPoints(pts);
  Scans scans(1, scan);
  g.getMsg(scans, m);
  render_(g, scans, r);
  same("cells of one ray", m.data, r.data);
}
void C21_rays(OccupancyGrid & g, Scans & scans, Map & m, Map & r)
{
  positive(g.resolution_);
  g.getMsg(scans, m);
  render_(g, scans, r);
  same("cells of all rays", m.data, r.data);
}
}
