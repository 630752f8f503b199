// Logarithmic ranges produce geometrically spaced values.
#include "vf_range.hpp"
#include <algorithm>
#include <bwsl/LogSpace.hpp>
using namespace vf;

/// q with q^n = b / a, by Newton iteration in quad precision
static f128
root(f128 a, f128 b, unsigned long n)
{
  f128 x = b / a, q = std::exp((std::log(static_cast<double>(b)) - std::log(static_cast<double>(a))) / static_cast<double>(n));
  for (int k = 0; k < 6; k++) {
    f128 p = 1, b = q;
    for (unsigned long e = n; e; e >>= 1) {
      if (e & 1) p *= b;
      b *= b;
    }
    q -= q * (p - x) / (static_cast<f128>(n) * p);
  }
  return q;
}
static f128
power(f128 q, unsigned long i)
{
  f128 p = 1;
  for (; i; i >>= 1) {
    if (i & 1) p *= q;
    q *= q;
  }
  return p;
}

template<class F>
static void
history(Ctx& c, bwsl::LogSpace<F>& r, f128 a, f128 b, f128 slack, unsigned long n)
{
  f128 q = root(a, b, n);
  f128 u = static_cast<f128>(std::numeric_limits<F>::epsilon()) / 2;
  f128 la = std::fabs(std::log(static_cast<double>(a))), lb = std::fabs(std::log(static_cast<double>(b)));
  // each factor carries the rounding of the two logarithms over the steps
  f128 per = 4 * u * (3 + (sizeof(F) == 4 ? 0 : 1) * 2 * (la + lb) / static_cast<f128>(n)) + (sizeof(F) == 4 ? 4 * U * 2 * (la + lb) / static_cast<f128>(n) : static_cast<f128>(0));
  range_history(c, r, static_cast<F>(b), n, [&](unsigned long i) {
    f128 e = a * power(q, i);
    // (beyond the end the values may leave the range of F)
    f128 t = e * (static_cast<f128>(i + 1) * per + slack);
    if (i > n && e < (sizeof(F) == 4 ? 1e-36 : 1e-300)) t += e + static_cast<f128>(std::numeric_limits<F>::min());
    if (i > n && e > (sizeof(F) == 4 ? 1e36 : 1e300)) t = HUGE_VAL;
    return std::make_pair(e, t);
  }, n > 2000);
  if (n > 300) VF_EV("long_range");
}

/// more steps than a short counter can hold
static void
endless(Ctx& c)
{
  unsigned long n = 65530 + c.below(c.coin() ? 20 : 200000);
  double a = 1 + c.unit(), b = a * std::ldexp(1 + c.unit(), static_cast<int>(c.below(30)));
  c.sig(n);
  c.note("%.9g..%.9g in %lu", a, b, n);
  bwsl::LogSpace<double> r(a, b, n);
  unsigned long i = 0;
  double last = 0;
  const double step = std::exp((std::log(b) - std::log(a)) / static_cast<double>(n));
  for (double x : r) {
    if (i > n) break;
    double want = a * std::pow(step, static_cast<double>(i)); // coarse: positions, not digits
    VF_CHECK(std::fabs(x - want) <= 1e-7 * want, "value", "value %lu of %lu is %.17g, should be %.17g", i, n, x, want);
    last = x;
    i++;
  }
  VF_CHECK(i == n, "visits", "%lu values are visited, should be %lu", i, n);
  auto v = r.Collect(n);
  VF_CHECK(v.size() == n && v.back() == last, "collect.size", "%zu values collected, the last %.17g, should be %lu and %.17g", v.size(), v.back(), n, last);
  for (i = 0; i < n; i++) ++r;
  VF_CHECK(r == r.end() && r != r.begin(), "arrives", "%lu steps do not arrive at the end", n);
  VF_EV("very_long_range");
}

template<class F>
static void
run(Ctx& c, const char* tn)
{
  int m = sizeof(F) == 4 ? 20 : 200;
  unsigned long n = 1 + (c.coin(1, 25) ? c.below(c.fuzzing() ? 500 : 10000) : c.below(60));
  if (sizeof(F) == 4) n = 1 + n % 1500;
  c.sig(n);
  if (c.coin(1, 3)) {
    double bases[] = { 2, 10, 1.5, 2.718281828459045, 3, 1.01, 100, 0.5, 0.1, 0.97 };
    double base = c.pick(bases);
    long lim = base > 50 ? 5 : 10;
    if (base < 1) VF_EV("decreasing");
    if (sizeof(F) == 8 && c.coin(1, 3)) {
      lim *= 14; // from 10^-140 to 10^140
      VF_EV("wide_exponents");
    }
    long s = static_cast<long>(c.in(-lim, lim - 1)), e = s + 1 + static_cast<long>(c.below(static_cast<u64>(lim)));
    c.sig(static_cast<u64>(s));
    c.sig(static_cast<u64>(e));
    c.sigd(base);
    c.note("%s %g^%ld..%g^%ld in %lu", tn, base, s, base, e, n);
    auto pw = [&](long k) { return k >= 0 ? power(base, static_cast<unsigned long>(k)) : 1 / power(base, static_cast<unsigned long>(-k)); };
    bwsl::LogSpace<F> r(s, e, n, base);
    F last = *r.end();
    f128 u = static_cast<f128>(std::numeric_limits<F>::epsilon()) / 2;
    VF_CHECK(fabsq_(static_cast<f128>(last) - pw(e)) <= 4 * u * pw(e), "exponents.last", "%g to the power %ld ends at %.17g", base, e, (double)last);
    VF_CHECK(fabsq_(static_cast<f128>(*r) - pw(s)) <= 4 * u * pw(s), "exponents.first", "%g to the power %ld starts at %.17g", base, s, (double)*r);
    VF_EV("exponents");
    history<F>(c, r, *r, last, 0, n);
    return;
  }
  if (sizeof(F) == 8 && c.coin(1, 4)) {
    m = 1900;
    VF_EV("wide_interval");
  }
  F a = static_cast<F>(std::ldexp(1 + c.unit(), static_cast<int>(c.in(-m / 4, m / 4)))), b;
  switch (c.below(4)) {
    case 0: b = a * static_cast<F>(1 + c.below(1000)); break;
    case 1: b = a * static_cast<F>(1 + c.unit() * 1e-2); break;
    case 2: b = a * static_cast<F>(std::ldexp(1 + c.unit(), static_cast<int>(c.below(static_cast<u64>(m) / 4)))); break;
    default: b = a + 1; break;
  }
  if (c.coin(1, 10)) a = 1;
  if (!(a < b)) b = 2 * a;
  c.sigd(static_cast<double>(a));
  c.sigd(static_cast<double>(b));
  c.note("%s %.9g..%.9g in %lu", tn, static_cast<double>(a), static_cast<double>(b), n);
  bwsl::LogSpace<F> r(a, b, n);
  VF_EV("interval");
  history<F>(c, r, a, b, 0, n);
}

void
run_case(Ctx& c)
{
  c.nontrivial = true;
  if (!c.fuzzing() && c.coin(1, 250)) return endless(c);
  if (c.coin(1, 3)) run<float>(c, "float");
  else run<double>(c, "double");
}
