#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
namespace pluginlib
{
template <typename Base> std::map<std::string, std::function<std::shared_ptr<Base>()>> & stub_registry()
{ static std::map<std::string, std::function<std::shared_ptr<Base>()>> r; return r; }
template <typename Base> class ClassLoader
{
public:
  ClassLoader(const std::string & package, const std::string & base_class)
  : package_(package), base_(base_class) {}
  std::shared_ptr<Base> createSharedInstance(const std::string & name)
  {
    auto it = stub_registry<Base>().find(name);
    if (it == stub_registry<Base>().end()) throw std::runtime_error("no plugin " + name);
    return it->second();
  }
private:
  std::string package_, base_;
};
}
