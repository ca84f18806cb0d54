#pragma once
#include <tf2/utils.h>
#include <geometry_msgs/msg/all.hpp>
