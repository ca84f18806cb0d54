#pragma once
#include <cstdint>
namespace builtin_interfaces { namespace msg {
struct Time { int64_t sec = 0; int64_t nanosec = 0; };
struct Duration { int32_t sec = 0; int64_t nanosec = 0; };
} }
