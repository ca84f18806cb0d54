// Conversions between planar poses, messages and 3D transforms.
#include "spec.hpp"
#include <cmath>
#include <tf2/utils.h>
#include <ndt_2d/conversions.hpp>
namespace spec
{
using namespace ndt_2d;
static void is_(const Pose2d & p, double x, double y, double theta)
{
  same("x", p.x, x);
  same("y", p.y, y);
  same("heading", p.theta, theta);
}
void C47_pose(const geometry_msgs::msg::Pose & m) {is_(fromMsg(m), m.position.x, m.position.y, tf2::getYaw(m.orientation));}
void C47_pose_stamped(const geometry_msgs::msg::PoseStamped & m)
{
  is_(fromMsg(m), m.pose.position.x, m.pose.position.y, tf2::getYaw(m.pose.orientation));
}
void C47_transform(const geometry_msgs::msg::Transform & m) {is_(fromMsg(m), m.translation.x, m.translation.y, tf2::getYaw(m.rotation));}
void C47_transform_stamped(const geometry_msgs::msg::TransformStamped & m)
{
  is_(fromMsg(m), m.transform.translation.x, m.transform.translation.y, tf2::getYaw(m.transform.rotation));
}
void C47_eigen(const Pose2d & p, double x, double y, double z)
{
  const Eigen::Isometry3d t = toEigen(p);
  const Eigen::Vector3d q = t * Eigen::Vector3d(x, y, z);
  same("moved x", q(0), cos(p.theta) * x - sin(p.theta) * y + p.x);
  same("moved y", q(1), sin(p.theta) * x + cos(p.theta) * y + p.y);
  same("height kept", q(2), z);
}
void C47_composed(const Pose2d & a, const Pose2d & b, double x, double y, double z)
{
  const Eigen::Vector3d q = toEigen(a).inverse() * (toEigen(b) * Eigen::Vector3d(x, y, z));
  const double c = cos(b.theta - a.theta), s = sin(b.theta - a.theta);
  const double dx = b.x - a.x, dy = b.y - a.y;
  same("x", q(0), c * x - s * y + cos(a.theta) * dx + sin(a.theta) * dy);
  same("y", q(1), s * x + c * y - sin(a.theta) * dx + cos(a.theta) * dy);
  same("z", q(2), z);
}
void C47_planar(double x, double y, double theta)
{
  is_(Pose2d(x, y, theta), x, y, theta);
  is_(Pose2d(), 0.0, 0.0, 0.0);
  const Point p(x, y);
  same("point x", p.x, x);
  same("point y", p.y, y);
}
}
