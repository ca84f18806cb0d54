#pragma once
#define RCLCPP_COMPONENTS_REGISTER_NODE(T) static_assert(sizeof(T) > 0, "component");
