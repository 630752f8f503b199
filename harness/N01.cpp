// Linear ranges produce evenly spaced values from first to last.
#include "vf_range.hpp"
#include <algorithm>
#include <bwsl/LinSpace.hpp>
using namespace vf;

template<class F>
static void
floating(Ctx& c, const char* tn)
{
  F a = static_cast<F>(c.real()), b;
  switch (c.below(4)) {
    case 0: b = a + static_cast<F>(c.below(1000) + 1); break;
    case 1: b = static_cast<F>(c.real()); break;
    case 2: b = a + static_cast<F>(c.unit()) * std::fabs(a) * F(1e-3); break;
    default: b = a + static_cast<F>(std::ldexp(1 + c.unit(), static_cast<int>(c.in(-30, 30)))); break;
  }
  if (a > b) std::swap(a, b);
  if (!(a < b)) b = a + (a == 0 ? F(1) : std::fabs(a));
  unsigned long n = 1 + (c.coin(1, 25) ? c.below(c.fuzzing() ? 500 : 20000) : c.below(60));
  c.sigd(static_cast<double>(a));
  c.sigd(static_cast<double>(b));
  c.sig(n);
  c.note("%s %.9g..%.9g in %lu", tn, static_cast<double>(a), static_cast<double>(b), n);
  bwsl::LinSpace<F> r(a, b, n);
  f128 u = static_cast<f128>(std::numeric_limits<F>::epsilon()) / 2;
  range_history(c, r, b, n, [&](unsigned long i) {
    f128 h = (static_cast<f128>(b) - a) / static_cast<f128>(n) * static_cast<f128>(i);
    return std::make_pair(static_cast<f128>(a) + h, 5 * u * (fabsq_(a) + fabsq_(h)) + static_cast<f128>(i + 1) * static_cast<f128>(std::numeric_limits<F>::denorm_min()));
  }, n > 2000);
  if (n > 500) VF_EV("long_range");
}
/// more steps than a short counter can hold
template<class T>
static void
endless(Ctx& c)
{
  unsigned long n = 65530 + c.below(c.coin() ? 20 : 300000);
  T a = static_cast<T>(c.in(-1000, 1000)), h = static_cast<T>(1 + c.below(4));
  T b = static_cast<T>(a + h * static_cast<T>(n));
  c.sig(n);
  c.note("%lld..%lld in %lu", (long long)a, (long long)b, n);
  bwsl::LinSpace<T> r(a, b, n);
  unsigned long i = 0;
  for (T x : r) {
    if (i > n) break;
    VF_CHECK(fabsq_(static_cast<f128>(x) - (static_cast<f128>(a) + static_cast<f128>(h) * static_cast<f128>(i))) <= (std::is_integral<T>::value ? static_cast<f128>(0) : 8 * U * (fabsq_(a) + fabsq_(b))), "value", "value %lu of %lu is %.17g", i, n, static_cast<double>(x));
    i++;
  }
  VF_CHECK(i == n, "visits", "%lu values are visited, should be %lu", i, n);
  auto v = r.Collect(n);
  VF_CHECK(v.size() == n, "collect.size", "%zu values collected, should be %lu", v.size(), n);
  VF_CHECK(fabsq_(static_cast<f128>(v.back()) - (static_cast<f128>(b) - h)) <= (std::is_integral<T>::value ? static_cast<f128>(0) : 8 * U * (fabsq_(a) + fabsq_(b))), "value", "the last of %lu is %.17g", n, static_cast<double>(v.back()));
  for (i = 0; i < n; i++) ++r;
  VF_CHECK(r == r.end() && r != r.begin(), "arrives", "%lu steps do not arrive at the end", n);
  VF_EV("very_long_range");
}
template<class I>
static void
integer(Ctx& c, const char* tn)
{
  unsigned long n = 1 + c.below(c.coin(1, 10) ? 3000 : 40);
  I h = static_cast<I>(1 + c.below(c.coin() ? 5 : 100000));
  bool sg = std::is_signed<I>::value;
  I a = static_cast<I>(c.in(sg ? -100000 : 0, 100000));
  I b = static_cast<I>(a + h * static_cast<I>(n));
  c.sig(static_cast<u64>(a));
  c.sig(static_cast<u64>(b));
  c.sig(n);
  c.note("%s %lld..%lld in %lu", tn, (long long)a, (long long)b, n);
  bwsl::LinSpace<I> r(a, b, n);
  range_history(c, r, b, n, [&](unsigned long i) { return std::make_pair(static_cast<f128>(a) + static_cast<f128>(h) * static_cast<f128>(i), static_cast<f128>(0)); }, false);
  VF_EV("integer");
}

void
run_case(Ctx& c)
{
  c.nontrivial = true;
  if (!c.fuzzing() && c.coin(1, 250)) {
    switch (c.below(3)) {
      case 0: return endless<int>(c);
      case 1: return endless<long>(c);
      default: return endless<double>(c);
    }
  }
  switch (c.below(6)) {
    case 0: floating<float>(c, "float"); break;
    case 1: integer<int>(c, "int"); break;
    case 2: integer<long>(c, "long"); break;
    default: floating<double>(c, "double"); break;
  }
}
