// Compiled twice, with and without BWSL_ACCUMULATORS_CHECKS (and with the
// library's namespace renamed in one of them, so that both can be linked).
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <sstream>

#include "A05_adapter.hpp"

namespace {
using namespace bwsl::accumulators;

template<class A>
struct Base : Adapter
{
  A a;
  std::string save() const override
  {
    std::ostringstream o;
    {
      boost::archive::text_oarchive ar(o);
      ar << static_cast<A const&>(a);
    }
    return o.str();
  }
  void load(std::string const& t) override
  {
    std::istringstream i(t);
    boost::archive::text_iarchive ar(i);
    ar >> a;
  }
  void reset() override { a.Reset(); }
  unsigned long count() const override { return a.Count(); }
  template<class F>
  static int guard(F f)
  {
    try {
      f();
      return 0;
    } catch (bwsl::exception::AccumulatorOverflow const& e) {
      return static_cast<std::exception const&>(e).what() && *static_cast<std::exception const&>(e).what() ? 1 : 3;
    } catch (...) {
      return 2;
    }
  }
};
template<class A>
struct Sum : Base<A>
{
  int add(double x, double, long) override { return this->guard([&] { this->a.Add(x); }); }
  std::vector<double> query() const override { return { this->a.Sum(), this->a.Mean() }; }
};
struct Welford : Base<KnuthWelfordAccumulator>
{
  int add(double x, double, long) override { return guard([&] { a.Add(x); }); }
  std::vector<double> query() const override
  {
    return { a.Sum(), a.Mean(), a.Variance(true), a.Variance(false), a.ScaledVariance(), a.StandardDeviation(true), a.StandardDeviation(false), a.Error(true), a.Error(false) };
  }
};
struct West : Base<WestAccumulator>
{
  int add(double x, double w, long) override { return guard([&] { a.Add(x, w); }); }
  std::vector<double> query() const override { return { a.Sum(), a.Mean(), a.PopulationVariance(), a.SampleFrequencyVariance(), a.SampleReliabilityVariance() }; }
};
struct Naive : Base<bwsl::NaiveInteger>
{
  int add(double, double, long n) override { return guard([&] { a.Add(n); }); }
  std::vector<double> query() const override
  {
    return { static_cast<double>(a.Sum() >> 32), static_cast<double>(a.Sum() & 0xffffffff) };
  }
  std::vector<double> moments() const override
  {
    return { a.Mean(), a.Variance(true), a.Variance(false), a.ScaledVariance(), a.StandardDeviation(true) };
  }
};
} // namespace

std::unique_ptr<Adapter>
ADAPTER_NAME(int kind)
{
  switch (kind) {
    case 0: return std::make_unique<Sum<KahanAccumulator>>();
    case 1: return std::make_unique<Sum<NeumaierAccumulator>>();
    case 2: return std::make_unique<Welford>();
    case 3: return std::make_unique<West>();
    default: return std::make_unique<Naive>();
  }
}
