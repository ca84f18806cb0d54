#pragma once
#include <pluginlib/class_loader.hpp>
#define NDT_STUB_CAT2(a, b) a ## b
#define NDT_STUB_CAT(a, b) NDT_STUB_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(Derived, Base) \
  static const bool NDT_STUB_CAT(ndt_stub_plugin_, __LINE__) = []() { \
    pluginlib::stub_registry<Base>()[#Derived] = []() -> std::shared_ptr<Base> { \
      return std::make_shared<Derived>(); }; return true; }();
