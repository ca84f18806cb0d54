#pragma once
#include <geometry_msgs/msg/all.hpp>
