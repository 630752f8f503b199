// Integer accumulation is exact and its variance is the true variance.
#include "vf.hpp"
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
using namespace vf;
using Acc = bwsl::NaiveInteger;

struct Ref
{
  i128 s = 0, s2 = 0;
  u64 n = 0;
};

static void
observe(Acc const& a, Ref const& r)
{
  VF_CHECK(a.Count() == r.n && static_cast<i128>(a.Sum()) == r.s, "sum", "sum %ld of %lu values, exactly %lld of %llu", a.Sum(), a.Count(), static_cast<long long>(r.s), (unsigned long long)r.n);
  if (r.n > 0) {
    f128 m = static_cast<f128>(r.s) / static_cast<f128>(r.n);
    VF_CHECK(near(a.Mean(), m, 4 * U * fabsq_(m)), "mean", "mean %.17g, exactly %.17g", a.Mean(), static_cast<double>(m));
  }
  if (r.n < 2) {
    VF_CHECK(std::isnan(a.Variance(true)) && std::isnan(a.Variance(false)) && std::isnan(a.ScaledVariance()) && std::isnan(a.StandardDeviation(true)) && std::isnan(a.StandardDeviation(false)), "undefined", "the variance of %llu values is a number", (unsigned long long)r.n);
    return;
  }
  i128 num = static_cast<i128>(r.n) * r.s2 - r.s * r.s;
  f128 m2 = static_cast<f128>(num) / static_cast<f128>(r.n);
  VF_CHECK(near(a.ScaledVariance(), m2, 8 * U * m2), "scaled_variance", "sum of squared deviations %.17g, exactly %.17g (n=%llu sum=%lld)", a.ScaledVariance(), static_cast<double>(m2), (unsigned long long)r.n, static_cast<long long>(r.s));
  VF_CHECK(a.ScaledVariance() >= 0, "non_negative", "negative %.17g", a.ScaledVariance());
  for (bool corr : { false, true }) {
    f128 v = m2 / static_cast<f128>(corr ? r.n - 1 : r.n);
    VF_CHECK(near(a.Variance(corr), v, 10 * U * v), "variance", "variance(%d) %.17g, exactly %.17g (n=%llu)", (int)corr, a.Variance(corr), static_cast<double>(v), (unsigned long long)r.n);
    VF_CHECK(near(a.StandardDeviation(corr), sqrtq_(v), 12 * U * sqrtq_(v)), "deviation", "deviation(%d) %.17g, exactly %.17g", (int)corr, a.StandardDeviation(corr), static_cast<double>(sqrtq_(v)));
  }
}

/// a long history: mostly zeros, so that the squares stay in the domain
static void
far(Ctx& c)
{
  Acc acc;
  Ref r;
  const u64 stops[] = { (1ULL << 24) + 1, (1ULL << 24) + 6, (1ULL << 31) + 1, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 32) + 2, (1ULL << 32) + 7 };
  for (u64 stop : stops) {
    for (; r.n < stop; r.n++) {
      long x = (r.n & 15) == 3;
      acc.Add(x);
      r.s += x;
      r.s2 += x;
    }
    VF_EV("far");
    observe(acc, r);
  }
  c.note("%llu values", (unsigned long long)r.n);
  c.nontrivial = true;
}

void
run_case(Ctx& c)
{
  if (c.marathon()) return far(c);
  Acc acc;
  Ref r;
  int rounds = 1 + static_cast<int>(c.below(4));
  if (!c.fuzzing() && c.coin(1, VF_SAN ? 4000 : 2000)) { // more values than a float can count
    u64 n = (1ULL << 24) + 1 + c.below(100);
    long v = c.coin() ? static_cast<long>(c.in(-2, 2)) : static_cast<long>(c.in(-500000, 500000));
    for (; r.n < n; r.n++) {
      long x = (r.n & 7) == 1 ? v > 2 ? v - 3 : 1 : v;
      acc.Add(x);
      r.s += x;
      r.s2 += x * x;
    }
    VF_EV("millions");
    observe(acc, r);
  }
  for (int k = 0; k < rounds; k++) {
    int bits = static_cast<int>(c.below(32));
    size_t n = c.coin(1, 5) ? c.below(4) : c.below(c.fuzzing() ? 40 : c.coin(1, 30) ? 3000 : 60);
    long off = c.coin(1, 3) ? static_cast<long>(c.spread(bits)) : 0;
    int style = static_cast<int>(c.below(4));
    c.note("%zu values of %d bits around %ld; ", n, bits, off);
    for (size_t i = 0; i < n; i++) {
      long x;
      switch (style) {
        case 0: x = static_cast<long>(c.spread(bits)); break;
        case 1: x = off; break;
        case 2: x = off + static_cast<long>(c.in(-3, 3)); break;
        default: x = i % 2 ? off : -off; break;
      }
      // inside the domain: the sum of squares fits a long
      i128 s2 = r.s2 + static_cast<i128>(x) * x;
      if (s2 > (static_cast<i128>(1) << 63) - 1)
        continue;
      if (s2 * static_cast<i128>(r.n + 1) > (static_cast<i128>(1) << 63) - 1) VF_EV("product_beyond_long");
      acc.Add(x);
      r.s += x;
      r.s2 = s2;
      r.n++;
      c.sig(static_cast<u64>(x));
      if (r.s2 > (static_cast<i128>(1) << 50)) VF_EV("large_values");
      if (r.n < 5 || c.coin(1, r.n > 100 ? 50 : 4)) observe(acc, r);
    }
    if (c.coin(1, 6) && r.n < 3) { // right at the limit
      i128 room = (static_cast<i128>(1) << 63) - 1 - r.s2;
      if (room > 0) {
        long x = static_cast<long>(sqrtq_(static_cast<f128>(room)));
        while (static_cast<i128>(x) * x > room) x--;
        if (c.coin()) x = -x;
        acc.Add(x);
        r.s += x;
        r.s2 += static_cast<i128>(x) * x;
        r.n++;
        VF_EV("at_the_limit");
      }
    }
    observe(acc, r);
    if (r.n > 1) c.nontrivial = true;
    if (c.coin()) {
      acc.Reset();
      r = Ref{};
      VF_EV("resets");
      observe(acc, r);
    }
  }
}
