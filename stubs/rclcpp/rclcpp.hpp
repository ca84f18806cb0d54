// Stand-in for rclcpp: enough to type-check ndt_2d and to run its callbacks in-process.
#pragma once
#include <any>
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <builtin_interfaces/msg/time.hpp>
#define RCLCPP_SHARED_PTR_DEFINITIONS(T) \
  using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>; using WeakPtr = std::weak_ptr<T>;
namespace rclcpp
{
struct Logger { std::string name; };
inline Logger get_logger(const std::string & name) { return Logger{name}; }
template <typename ... Args> inline void stub_log(const Logger &, Args && ...) {}

inline std::atomic<bool> & stub_ok() { static std::atomic<bool> ok{true}; return ok; }
inline bool ok() { return stub_ok().load(); }
inline bool shutdown() { stub_ok() = false; return true; }

class Duration
{
public:
  Duration() = default;
  explicit Duration(int64_t ns) : ns_(ns) {}
  Duration(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000LL + ns) {}
  static Duration from_seconds(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
private:
  int64_t ns_ = 0;
};
class Time
{
public:
  Time() = default;
  explicit Time(int64_t ns) : ns_(ns) {}
  Time(const builtin_interfaces::msg::Time & t)  // NOLINT
  : ns_(int64_t(t.sec) * 1000000000LL + t.nanosec) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    t.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    t.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return t;
  }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds()); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds()); }
  Duration operator-(const Time & o) const { return Duration(ns_ - o.ns_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
private:
  int64_t ns_ = 0;
};
class Clock { public: RCLCPP_SHARED_PTR_DEFINITIONS(Clock) Time now() { return Time(); } };

struct KeepLast { explicit KeepLast(size_t d) : depth(d) {} size_t depth; };
struct QoS
{
  QoS(size_t) {}  // NOLINT
  QoS(KeepLast) {}  // NOLINT
  QoS & transient_local() { latched = true; return *this; }
  bool latched = false;
  QoS & reliable() { return *this; }
  QoS & best_effort() { return *this; }
  QoS & durability_volatile() { return *this; }
};
struct SystemDefaultsQoS : public QoS { SystemDefaultsQoS() : QoS(1) {} };
struct SensorDataQoS : public QoS { SensorDataQoS() : QoS(5) {} };

class NodeOptions
{
public:
  template <typename T> NodeOptions & append_parameter_override(const std::string & n, const T & v)
  { overrides[n] = std::any(v); return *this; }
  std::map<std::string, std::any> overrides;
};

template <typename MsgT> class Publisher
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Publisher<MsgT>)
  void publish(const MsgT & m) { std::lock_guard<std::mutex> l(mutex); messages.push_back(m); }
  size_t get_subscription_count() const { return 1; }
  std::mutex mutex;
  std::vector<MsgT> messages;
  bool latched = false;
};
template <typename MsgT> class Subscription
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Subscription<MsgT>)
  std::string topic;
  std::function<void(const typename MsgT::ConstSharedPtr &)> callback;
};
template <typename SrvT> class Service
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Service<SrvT>)
  std::function<void(const std::shared_ptr<typename SrvT::Request>,
                     std::shared_ptr<typename SrvT::Response>)> callback;
};
namespace node_interfaces {}
class Node
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Node)
  explicit Node(const std::string & name, const NodeOptions & options = NodeOptions())
  : name_(name), options_(options) {}
  virtual ~Node() = default;
  template <typename T> T declare_parameter(const std::string & name, const T & def)
  {
    if (declared_.count(name)) throw std::runtime_error("parameter already declared: " + name);
    T value = def;
    auto it = options_.overrides.find(name);
    if (it != options_.overrides.end()) value = std::any_cast<T>(it->second);
    declared_[name] = std::any(value);
    return value;
  }
  template <typename T> T declare_parameter(const std::string & name)
  { return declare_parameter<T>(name, T()); }
  bool has_parameter(const std::string & name) const { return declared_.count(name) > 0; }
  template <typename T> bool get_parameter(const std::string & name, T & value) const
  {
    auto it = declared_.find(name);
    if (it == declared_.end()) return false;
    value = std::any_cast<T>(it->second);
    return true;
  }
  Logger get_logger() const { return Logger{name_}; }
  std::shared_ptr<Clock> get_clock() { return std::make_shared<Clock>(); }
  Time now() { return Time(); }
  template <typename MsgT> std::shared_ptr<Publisher<MsgT>>
  create_publisher(const std::string & topic, const QoS & q)
  { auto p = std::make_shared<Publisher<MsgT>>(); p->latched = q.latched; entities_[topic] = p; return p; }
  template <typename MsgT, typename CbT> std::shared_ptr<Subscription<MsgT>>
  create_subscription(const std::string & topic, const QoS &, CbT && cb)
  {
    auto s = std::make_shared<Subscription<MsgT>>();
    s->topic = topic; s->callback = cb; entities_[topic] = s; return s;
  }
  template <typename SrvT, typename CbT> std::shared_ptr<Service<SrvT>>
  create_service(const std::string & name, CbT && cb)
  { auto s = std::make_shared<Service<SrvT>>(); s->callback = cb; entities_[name] = s; return s; }
  template <typename T> std::shared_ptr<T> stub_entity(const std::string & name)
  { return std::static_pointer_cast<T>(entities_.at(name)); }
private:
  std::string name_;
  NodeOptions options_;
  std::map<std::string, std::any> declared_;
  std::map<std::string, std::shared_ptr<void>> entities_;
};
}  // namespace rclcpp
#define RCLCPP_DEBUG(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) ((void)(clock), rclcpp::stub_log(logger, __VA_ARGS__))
#define RCLCPP_INFO_THROTTLE(logger, clock, ms, ...) ((void)(clock), rclcpp::stub_log(logger, __VA_ARGS__))
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) ((void)(clock), rclcpp::stub_log(logger, __VA_ARGS__))
