#pragma once
#include <visualization_msgs/msg/marker_array.hpp>
