#pragma once
#include <chrono>
#include <cmath>
#include <stdexcept>
#include <string>
#include <geometry_msgs/msg/all.hpp>
namespace tf2
{
inline double getYaw(const geometry_msgs::msg::Quaternion & q)
{
  return std::atan2(2.0 * (q.w * q.z + q.x * q.y), 1.0 - 2.0 * (q.y * q.y + q.z * q.z));
}
class TransformException : public std::runtime_error
{ public: explicit TransformException(const std::string & s) : std::runtime_error(s) {} };
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
class ConnectivityException : public TransformException { public: using TransformException::TransformException; };
using Duration = std::chrono::nanoseconds;
using TimePoint = std::chrono::time_point<std::chrono::system_clock, Duration>;
static const TimePoint TimePointZero = TimePoint(Duration(0));
inline Duration durationFromSec(double s)
{ return std::chrono::duration_cast<Duration>(std::chrono::duration<double>(s)); }
}
