#pragma once
#include <memory>
#include <string>
#include <vector>
struct Adapter
{
  virtual ~Adapter() = default;
  /// 0: added, 1: the documented overflow exception, else something different
  virtual int add(double x, double w, long n) = 0;
  virtual std::vector<double> query() const = 0;
  virtual std::vector<double> moments() const { return {}; }
  virtual unsigned long count() const = 0;
  virtual void reset() = 0;
  virtual std::string save() const = 0;
  virtual void load(std::string const& t) = 0;
};
std::unique_ptr<Adapter> make_plain(int kind);
std::unique_ptr<Adapter> make_checked(int kind);
