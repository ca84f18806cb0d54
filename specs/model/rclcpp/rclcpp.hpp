// Model of rclcpp for the analysis: publishers keep what is sent, parameters are unknown functions of name and default,
// ok() counts rounds down.
#pragma once
#include <any>
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <builtin_interfaces/msg/time.hpp>
#define RCLCPP_SHARED_PTR_DEFINITIONS(T) \
  using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>; using WeakPtr = std::weak_ptr<T>;
namespace spec
{
inline int nows = 0;                     // how often the clock was read
unsigned long any_index(const char * name, ...);
inline int rounds = 0;                   // how often a thread may still go round
template <class T> T parameter(const std::string & name);     // value of a parameter
// documented defaults that were declared
inline double default_max_range = 0.0;
inline std::string default_matcher;
template <class T> void declared(const std::string & name, const T & def) {}
inline void declared(const std::string & name, const double & def) {if (name == "max_range") {default_max_range = def;}}
inline void declared(const std::string & name, const std::string & def) {if (name == "scan_matcher_type") {default_matcher = def;}}
}
namespace rclcpp
{
struct Logger { std::string name; };
inline Logger get_logger(const std::string & name) { return Logger{name}; }
template <typename ... Args> inline void stub_log(const Logger &, Args && ...) {}

inline bool ok()
{
  if (spec::rounds == 0) return false;
  --spec::rounds;
  return true;
}
inline bool shutdown() {return true;}

class Duration
{
public:
  Duration() = default;
  explicit Duration(int64_t ns) : ns_(ns) {}
  Duration(int32_t s, uint32_t ns) : ns_(int64_t(s) * 1000000000LL + ns) {}
  static Duration from_seconds(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
private:
  int64_t ns_ = 0;
};
class Time
{
public:
  Time() = default;
  explicit Time(int64_t ns) : ns_(ns) {}
  Time(const builtin_interfaces::msg::Time & t)  // NOLINT
  : ns_(int64_t(t.sec) * 1000000000LL + t.nanosec) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    t.sec = ns_ / 1000000000LL;
    t.nanosec = ns_ % 1000000000LL;
    return t;
  }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds()); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds()); }
  Duration operator-(const Time & o) const { return Duration(ns_ - o.ns_); }
  bool operator<(const Time & o) const { return ns_ < o.ns_; }
  bool operator>(const Time & o) const { return ns_ > o.ns_; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return ns_ * 1e-9; }
private:
  int64_t ns_ = 0;
};
class Clock { public: RCLCPP_SHARED_PTR_DEFINITIONS(Clock) Time now() {++spec::nows; return Time(static_cast<int64_t>(spec::any_index("time", spec::nows)));} };

struct KeepLast { explicit KeepLast(size_t d) : depth(d) {} size_t depth; };
struct QoS
{
  QoS(size_t d) : depth(d) {}  // NOLINT
  QoS(KeepLast k) : depth(k.depth) {}  // NOLINT
  QoS & transient_local() { keeps = true; return *this; }
  QoS & reliable() { sure = true; return *this; }
  QoS & best_effort() { sure = false; return *this; }
  QoS & durability_volatile() { keeps = false; return *this; }
  QoS & keep_last(size_t d) { depth = d; return *this; }
  size_t depth = 0;
  bool keeps = false, sure = true;
};
struct SystemDefaultsQoS : public QoS { SystemDefaultsQoS() : QoS(1) {} };
struct SensorDataQoS : public QoS { SensorDataQoS() : QoS(5) { sure = false; } };

class NodeOptions
{
public:
  template <typename T> NodeOptions & append_parameter_override(const std::string & n, const T & v)
  { overrides[n] = std::any(v); return *this; }
  std::map<std::string, std::any> overrides;
};

template <typename MsgT> class Publisher
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Publisher<MsgT>)
  void publish(const MsgT & m) {last = m; ++count;}
  size_t get_subscription_count() const { return 1; }
  MsgT last;
  int count = 0;
  std::string topic;
  size_t depth = 0;
  bool keeps = false, sure = false;
};
template <typename MsgT> class Subscription
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Subscription<MsgT>)
  std::string topic;
};
template <typename SrvT> class Service
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Service<SrvT>)
  std::string name;
};
namespace node_interfaces {}
class Node
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Node)
  explicit Node(const std::string & name, const NodeOptions & options = NodeOptions()) {}
  virtual ~Node() = default;
  template <typename T> T declare_parameter(const std::string & name, const T & def) 
  {
    const T d = def;
    spec::declared(name, d);
    return spec::parameter<T>(name);
  }
  template <typename T> T declare_parameter(const std::string & name) {return spec::parameter<T>(name);}
  bool has_parameter(const std::string & name) const;
  template <typename T> bool get_parameter(const std::string & name, T & value) const;
  Logger get_logger() const {return Logger{""};}
  std::shared_ptr<Clock> get_clock() {return std::shared_ptr<Clock>();}
  Time now() {++spec::nows; return Time(static_cast<int64_t>(spec::any_index("time", spec::nows)));}
  template <typename MsgT> std::shared_ptr<Publisher<MsgT>> create_publisher(const std::string & topic, const QoS & qos)
  
  {
    std::shared_ptr<Publisher<MsgT>> r = std::make_shared<Publisher<MsgT>>();
    r->topic = topic;
    r->depth = qos.depth;
    r->keeps = qos.keeps;
    r->sure = qos.sure;
    return r;
  }
  template <typename MsgT, typename CbT> std::shared_ptr<Subscription<MsgT>>
  create_subscription(const std::string & topic, const QoS &, CbT && cb) 
  {
    std::shared_ptr<Subscription<MsgT>> r = std::make_shared<Subscription<MsgT>>();
    r->topic = topic;
    return r;
  }
  template <typename SrvT, typename CbT> std::shared_ptr<Service<SrvT>>
  create_service(const std::string & name, CbT && cb) 
  {
    std::shared_ptr<Service<SrvT>> r = std::make_shared<Service<SrvT>>();
    r->name = name;
    return r;
  }
};
}  // namespace rclcpp
#define RCLCPP_DEBUG(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(logger, ...) rclcpp::stub_log(logger, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, ms, ...) ((void)(clock), rclcpp::stub_log(logger, __VA_ARGS__))
#define RCLCPP_INFO_THROTTLE(logger, clock, ms, ...) ((void)(clock), rclcpp::stub_log(logger, __VA_ARGS__))
#define RCLCPP_ERROR_THROTTLE(logger, clock, ms, ...) ((void)(clock), rclcpp::stub_log(logger, __VA_ARGS__))
