// Running mean and variance match the exact moments of the data.
#include "vf_num.hpp"
#include <bwsl/Accumulators.hpp>
using namespace vf;
using Acc = bwsl::accumulators::KnuthWelfordAccumulator;

static bool
rel(double a, f128 b, double k = 8)
{
  return near(a, b, k * U * fabsq_(b) + 1e-322);
}

static void
observe(Acc const& a, std::vector<double> const& x)
{
  size_t n = x.size();
  VF_CHECK(a.Count() == n, "count", "count %lu of %zu values", a.Count(), n);
  if (n == 0) {
    VF_CHECK(std::isnan(a.Variance(true)) && std::isnan(a.Variance(false)) && std::isnan(a.ScaledVariance()) && std::isnan(a.StandardDeviation(true)), "undefined", "variance of nothing is a number");
    VF_CHECK(a.Sum() == 0, "sum.empty", "sum %.17g of nothing", a.Sum());
    return;
  }
  f128 s = 0, big = 0;
  for (double v : x) { s += v; big = std::max<f128>(big, fabsq_(v)); }
  f128 mean = s / static_cast<f128>(n);
  f128 m2 = 0, comp = 0;
  for (double v : x) { m2 += (v - mean) * (v - mean); comp += v - mean; }
  m2 -= comp * comp / static_cast<f128>(n);
  double N = static_cast<double>(n);
  f128 mtol = 6 * static_cast<f128>(N + 4) * U * big + 1e-320;
  VF_CHECK(near(a.Mean(), mean, mtol), "mean", "mean %.17g of %zu values, exactly %.17g", a.Mean(), n, static_cast<double>(mean));
  VF_CHECK(near(a.Sum(), s, mtol * N + 4 * U * fabsq_(s)), "sum", "sum %.17g of %zu values, exactly %.17g", a.Sum(), n, static_cast<double>(s));
  if (n < 2) {
    VF_CHECK(std::isnan(a.Variance(true)) && std::isnan(a.Variance(false)) && std::isnan(a.ScaledVariance()) && std::isnan(a.StandardDeviation(true)) && std::isnan(a.StandardDeviation(false)) && std::isnan(a.Error(true)) && std::isnan(a.Error(false)),
             "undefined", "the variance of one value is a number: %.17g %.17g", a.Variance(true), a.Variance(false));
    VF_CHECK(a.Mean() == x[0], "mean.one", "mean %.17g of the single value %.17g", a.Mean(), x[0]);
    return;
  }
  f128 E = 10 * static_cast<f128>(N) * U;
  f128 vtol = E * sqrtq_(m2 * (m2 + N * big * big)) + E * E * N * big * big + 1e-320 + N * 1e-322;
  double sv = a.ScaledVariance();
  VF_CHECK(near(sv, m2, vtol), "scaled_variance", "sum of squared deviations %.17g of %zu values, exactly %.17g (tolerance %.3g)", sv, n, static_cast<double>(m2), static_cast<double>(vtol));
  VF_CHECK(sv >= 0, "non_negative", "sum of squared deviations %.17g", sv);
  for (bool corr : { false, true }) {
    f128 d = corr ? N - 1 : N;
    double v = a.Variance(corr);
    VF_CHECK(near(v, m2 / d, vtol / d), "variance", "variance(%d) %.17g of %zu values, exactly %.17g", (int)corr, v, n, static_cast<double>(m2 / d));
    VF_CHECK(rel(v, sv / d), "variance.consistent", "variance(%d) %.17g, scaled %.17g over %g", (int)corr, v, sv, static_cast<double>(d));
    VF_CHECK(rel(a.StandardDeviation(corr), sqrtq_(v)), "deviation", "deviation(%d) %.17g of variance %.17g", (int)corr, a.StandardDeviation(corr), v);
    f128 q = static_cast<f128>(v) / N; // (the quotient may be subnormal)
    VF_CHECK(near(a.Error(corr), sqrtq_(q), 12 * U * sqrtq_(q) + (q < 1e-290 ? 1e-161 : 0)), "error", "error(%d) %.17g of variance %.17g over %zu", (int)corr, a.Error(corr), v, n);
  }
}

/// a billion values: alternately one of two
static void
far(Ctx& c)
{
  Acc acc;
  const double v[2] = { 1.0 + c.unit(), -3.0 + c.unit() };
  const u64 stops[] = { (1ULL << 24) + 1, (1ULL << 24) + 6, (1ULL << 31) + 1, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 32) + 2, (1ULL << 32) + 7 };
  u64 n = 0;
  for (u64 stop : stops) {
    for (; n < stop; n++) acc.Add(v[n & 1]);
    f128 N = static_cast<f128>(n), k1 = static_cast<f128>(n / 2), k0 = N - k1;
    f128 s = k0 * v[0] + k1 * v[1], mean = s / N, m2 = k0 * (v[0] - mean) * (v[0] - mean) + k1 * (v[1] - mean) * (v[1] - mean);
    f128 t = 20 * N * U; // far below one part in a thousand
    VF_CHECK(acc.Count() == n, "far.count", "count %lu of %llu values", acc.Count(), (unsigned long long)n);
    VF_CHECK(near(acc.Mean(), mean, 3 * t), "far.mean", "mean %.17g of %llu values, exactly %.17g", acc.Mean(), (unsigned long long)n, static_cast<double>(mean));
    VF_CHECK(near(acc.Sum(), s, 3 * t * N), "far.sum", "sum %.17g of %llu values, exactly %.17g", acc.Sum(), (unsigned long long)n, static_cast<double>(s));
    VF_CHECK(near(acc.ScaledVariance(), m2, t * m2 * 20), "far.scaled_variance", "sum of squared deviations %.17g of %llu values, exactly %.17g", acc.ScaledVariance(), (unsigned long long)n, static_cast<double>(m2));
    for (bool corr : { false, true }) {
      f128 d = corr ? N - 1 : N;
      VF_CHECK(near(acc.Variance(corr), acc.ScaledVariance() / d, 8 * U * acc.ScaledVariance() / d), "far.variance", "variance(%d) %.17g of %llu values", (int)corr, acc.Variance(corr), (unsigned long long)n);
      VF_CHECK(rel(acc.StandardDeviation(corr), sqrtq_(acc.Variance(corr))), "far.deviation", "deviation(%d) %.17g", (int)corr, acc.StandardDeviation(corr));
      VF_CHECK(rel(acc.Error(corr), sqrtq_(static_cast<f128>(acc.Variance(corr)) / N), 12), "far.error", "error(%d) %.17g of %llu values", (int)corr, acc.Error(corr), (unsigned long long)n);
    }
  }
  c.note("%llu values", (unsigned long long)n);
  c.nontrivial = true;
}

void
run_case(Ctx& c)
{
  if (c.marathon()) return far(c);
  Acc acc, quiet;
  std::vector<double> all;
  int rounds = 1 + static_cast<int>(c.below(4));
  size_t maxlen = c.fuzzing() ? 50 : c.coin(1, 40) ? 5000 : 120;
  for (int k = 0; k < rounds; k++) {
    size_t n;
    switch (c.below(5)) {
      case 0: n = c.below(4); break;
      case 1: n = maxlen / 2 + c.below(maxlen / 2); break;
      default: n = c.below(60); break;
    }
    int style = static_cast<int>(c.below(8));
    double scale = c.coin(1, 5) ? std::ldexp(1.0, static_cast<int>(c.coin() ? c.in(-300, 300) : c.coin() ? c.in(-500, -300) : c.in(300, 460))) : 1.0;
    if (scale < 1e-140) VF_EV("tiny_data");
    double mean = c.coin() ? std::ldexp(1.0 + c.unit(), static_cast<int>(c.in(0, 34))) * (c.coin() ? 1 : -1) : 0.0;
    c.note("%zu values of style %d around %g; ", n, style, mean * scale);
    if (mean != 0 && std::fabs(mean) > 1e6 && n > 2) VF_EV("large_mean");
    for (size_t i = 0; i < n; i++) {
      double v;
      switch (style) {
        case 0: v = mean + c.unit(); break;
        case 1: v = c.real(); break;
        case 2: v = mean; break; // all equal: no variance
        case 3: v = mean + static_cast<double>(c.below(10)); break;
        case 4: v = i % 2 ? mean : -mean; break;
        case 5: v = static_cast<double>(i); break;
        case 6: v = c.real(1, 100); break;
        default: v = mean + c.unit() - 0.5; break;
      }
      if (style != 6) v *= scale;
      acc.Add(v);
      quiet.Add(v);
      all.push_back(v);
      c.sigd(v);
      if (all.size() < 6 || c.coin(1, all.size() > 200 ? 400 : 10)) observe(acc, all);
    }
    observe(acc, all);
    if (all.size() > 1) c.nontrivial = true;
    VF_CHECK(same_bits(acc.ScaledVariance(), quiet.ScaledVariance()) && same_bits(acc.Mean(), quiet.Mean()), "queries_are_pure", "results depend on earlier queries");
    if (c.coin()) {
      if (c.coin(1, 3)) { // a reset also forgets what has overflowed
        const double wild[] = { 1e200, -1e200, 1e308, -1e308, std::numeric_limits<double>::infinity(), std::nan("") };
        int m = 1 + static_cast<int>(c.below(4));
        for (int i = 0; i < m; i++) {
          double v = c.pick(wild);
          acc.Add(v);
          quiet.Add(v);
        }
        VF_EV("reset_after_overflow");
      }
      acc.Reset();
      quiet.Reset();
      all.clear();
      VF_EV("resets");
      observe(acc, all);
      VF_CHECK(acc.Mean() == 0, "reset", "mean %.17g after reset", acc.Mean());
    }
  }
}
