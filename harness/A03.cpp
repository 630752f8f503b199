// Weighted mean and variances match the exact weighted moments.
#include "vf_num.hpp"
#include <bwsl/Accumulators.hpp>
using namespace vf;
using Acc = bwsl::accumulators::WestAccumulator;

static void
observe(Acc const& a, std::vector<std::pair<double, double>> const& x)
{
  size_t n = x.size();
  VF_CHECK(a.Count() == n, "count", "count %lu of %zu pairs", a.Count(), n);
  if (n < 2)
    VF_CHECK(std::isnan(a.PopulationVariance()) && std::isnan(a.SampleFrequencyVariance()) && std::isnan(a.SampleReliabilityVariance()), "undefined", "the variances of %zu pairs are numbers", n);
  if (n == 0) {
    VF_CHECK(a.Sum() == 0 && a.Mean() == 0, "empty", "sum %.17g mean %.17g of nothing", a.Sum(), a.Mean());
    return;
  }
  f128 W = 0, W2 = 0, s = 0, big = 0;
  for (auto const& p : x) {
    W += p.second;
    W2 += static_cast<f128>(p.second) * p.second;
    s += static_cast<f128>(p.first) * p.second;
    big = std::max<f128>(big, fabsq_(p.first));
  }
  f128 mean = s / W, m2 = 0;
  for (auto const& p : x) m2 += p.second * (p.first - mean) * (p.first - mean);
  double N = static_cast<double>(n);
  f128 mtol = 12 * static_cast<f128>(N + 4) * U * big + 1e-310;
  VF_CHECK(near(a.Mean(), mean, mtol), "mean", "mean %.17g of %zu pairs, exactly %.17g", a.Mean(), n, static_cast<double>(mean));
  VF_CHECK(near(a.Sum(), s, mtol * W + 1e-310), "sum", "weighted sum %.17g of %zu pairs, exactly %.17g", a.Sum(), n, static_cast<double>(s));
  if (n < 2) return;
  f128 E = 20 * static_cast<f128>(N) * U;
  // the update multiplies w (x - old mean) by (x - new mean), whose error is a
  // few ulps of the mean: with very unequal weights this is the largest term
  f128 pm = x[0].first, pw = x[0].second, unequal = 0;
  for (size_t i = 1; i < n; i++) {
    f128 d = x[i].first - pm;
    unequal += x[i].second * fabsq_(d);
    pw += x[i].second;
    pm += x[i].second / pw * d;
  }
  f128 vtol = E * sqrtq_(m2 * (m2 + W * big * big)) + E * E * W * big * big + 12 * U * static_cast<f128>(N + 4) * big * unequal + 1e-310;
  VF_CHECK(near(a.PopulationVariance(), m2 / W, vtol / W * 1.01 + 1e-310), "population", "population variance %.17g of %zu pairs, exactly %.17g", a.PopulationVariance(), n, static_cast<double>(m2 / W));
  // a difference of nearly equal numbers is not determined by the data
  f128 d = W - 1;
  if (fabsq_(d) > 1e-3 * W && fabsq_(d) > 1e-3) {
    f128 t = vtol / fabsq_(d) * 1.01 + fabsq_(m2 / d) * (8 * (N + 4) * U * W / fabsq_(d)) + 1e-310;
    VF_CHECK(near(a.SampleFrequencyVariance(), m2 / d, t), "frequency", "frequency variance %.17g of %zu pairs, exactly %.17g", a.SampleFrequencyVariance(), n, static_cast<double>(m2 / d));
  }
  d = W - W2 / W;
  // (the squares of the weights overflow or vanish)
  if (d > 1e-6 * W && W2 < 1e307 && W2 > 1e-280) {
    f128 t = vtol / d * 1.01 + m2 / d * (16 * (N + 4) * U * W / d) + 1e-310;
    VF_CHECK(near(a.SampleReliabilityVariance(), m2 / d, t), "reliability", "reliability variance %.17g of %zu pairs, exactly %.17g", a.SampleReliabilityVariance(), n, static_cast<double>(m2 / d));
  }
}

/// billions of pairs: alternately one of two
static void
far(Ctx& c)
{
  Acc acc;
  const double v[2] = { 1.0 + c.unit(), -3.0 + c.unit() }, w[2] = { 0.5, 0.25 };
  const u64 stops[] = { (1ULL << 24) + 1, (1ULL << 24) + 6, (1ULL << 31) + 1, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 32) + 2, (1ULL << 32) + 7 };
  u64 n = 0;
  for (u64 stop : stops) {
    for (; n < stop; n++) acc.Add(v[n & 1], w[n & 1]);
    f128 N = static_cast<f128>(n), k1 = static_cast<f128>(n / 2), k0 = N - k1;
    f128 W = k0 * w[0] + k1 * w[1], W2 = k0 * w[0] * w[0] + k1 * w[1] * w[1], s = k0 * v[0] * w[0] + k1 * v[1] * w[1], mean = s / W;
    f128 m2 = k0 * w[0] * (v[0] - mean) * (v[0] - mean) + k1 * w[1] * (v[1] - mean) * (v[1] - mean);
    f128 t = 60 * N * U;
    VF_CHECK(acc.Count() == n, "far.count", "count %lu of %llu pairs", acc.Count(), (unsigned long long)n);
    VF_CHECK(near(acc.Mean(), mean, 3 * t), "far.mean", "mean %.17g of %llu pairs, exactly %.17g", acc.Mean(), (unsigned long long)n, static_cast<double>(mean));
    VF_CHECK(near(acc.Sum(), s, 3 * t * W), "far.sum", "sum %.17g of %llu pairs, exactly %.17g", acc.Sum(), (unsigned long long)n, static_cast<double>(s));
    VF_CHECK(near(acc.PopulationVariance(), m2 / W, t * m2 / W * 20), "far.population", "population variance %.17g of %llu pairs, exactly %.17g", acc.PopulationVariance(), (unsigned long long)n, static_cast<double>(m2 / W));
    f128 d = W - 1;
    VF_CHECK(near(acc.SampleFrequencyVariance(), m2 / d, t * m2 / d * 20), "far.frequency", "frequency variance %.17g of %llu pairs, exactly %.17g", acc.SampleFrequencyVariance(), (unsigned long long)n, static_cast<double>(m2 / d));
    d = W - W2 / W;
    VF_CHECK(near(acc.SampleReliabilityVariance(), m2 / d, t * m2 / d * 20), "far.reliability", "reliability variance %.17g of %llu pairs, exactly %.17g", acc.SampleReliabilityVariance(), (unsigned long long)n, static_cast<double>(m2 / d));
  }
  c.note("%llu pairs", (unsigned long long)n);
  c.nontrivial = true;
}

void
run_case(Ctx& c)
{
  if (c.marathon()) return far(c);
  Acc acc, only; // only receives just the pairs that count
  std::vector<std::pair<double, double>> all;
  int rounds = 1 + static_cast<int>(c.below(4));
  for (int k = 0; k < rounds; k++) {
    size_t n = c.coin(1, 6) ? c.below(4) : c.below(c.fuzzing() ? 40 : c.coin(1, 30) ? 2000 : 80);
    int vs = static_cast<int>(c.below(6)), ws = static_cast<int>(c.below(8));
    double mean = c.coin() ? std::ldexp(1.0 + c.unit(), static_cast<int>(c.in(0, 30))) : 0.0;
    double wscale = c.coin(1, 4) ? std::ldexp(1.0, static_cast<int>(c.coin() ? c.in(-400, 400) : c.coin() ? c.in(-900, -400) : c.in(400, 900))) : 1.0;
    if (wscale > 0x1p750 && (all.empty() || std::all_of(all.begin(), all.end(), [](auto const& p) { return std::fabs(p.first) < 4; }))) {
      // the largest weights the sums of ordinary values can hold
      vs = c.coin() ? 5 : 0;
      mean = 0;
      wscale = std::ldexp(1.0, static_cast<int>(c.in(900, 1005)));
    }
    c.note("%zu pairs, values %d around %g, weights %d; ", n, vs, mean, ws);
    for (size_t i = 0; i < n; i++) {
      double v, w;
      switch (vs) {
        case 0: v = mean + c.unit(); break;
        case 1: v = c.real(); break;
        case 2: v = mean; break;
        case 3: v = mean + static_cast<double>(c.below(10)); break;
        case 4: v = c.real(1, 60); break;
        default: v = c.unit() - 0.5; break;
      }
      switch (ws) {
        case 0: w = 1; break;
        case 1: w = static_cast<double>(c.below(5)); break;
        case 2: w = c.unit(); break;
        case 3: w = std::ldexp(1.0 + c.unit(), static_cast<int>(c.in(-40, 40))); break;
        case 4: w = c.unit() - 0.3; break;
        case 5: w = static_cast<double>(c.in(-2, 4)) / 2; break;
        case 6: w = i == n / 2 ? 1e12 : c.unit(); break;
        default:
          w = wscale * (1 + c.unit());
          if (w > 1e150) VF_EV("enormous_weights");
          break;
      }
      if (c.coin(1, 12)) {
        const double none[] = { 0.0, -0.0, -1.0, -1e-300, -1e300, -5e-324, -std::numeric_limits<double>::infinity() };
        w = c.pick(none);
      }
      acc.Add(v, w);
      if (w > 0) {
        only.Add(v, w);
        all.emplace_back(v, w);
      } else
        VF_EV("ignored_pairs");
      c.sigd(v);
      c.sigd(w);
      if (all.size() < 5 || c.coin(1, all.size() > 100 ? 200 : 8)) observe(acc, all);
    }
    observe(acc, all);
    if (all.size() > 1) c.nontrivial = true;
    VF_CHECK(acc.Count() == only.Count() && same_bits(acc.Mean(), only.Mean()) && same_bits(acc.Sum(), only.Sum()) && same_bits(acc.PopulationVariance(), only.PopulationVariance()) && same_bits(acc.SampleReliabilityVariance(), only.SampleReliabilityVariance()) && same_bits(acc.SampleFrequencyVariance(), only.SampleFrequencyVariance()),
             "ignored", "pairs without positive weight change the results");
    if (c.coin()) {
      if (c.coin(1, 3)) { // a reset also forgets what has overflowed
        const double wild[] = { 1e200, -1e200, 1e308, -1e308, std::numeric_limits<double>::infinity(), std::nan("") };
        const double heavy[] = { 1.0, 1e-300, 1e300, 1.7e308, std::numeric_limits<double>::infinity() };
        int m = 1 + static_cast<int>(c.below(4));
        for (int i = 0; i < m; i++) {
          double v = c.pick(wild), w = c.pick(heavy);
          acc.Add(v, w);
          only.Add(v, w);
        }
        VF_EV("reset_after_overflow");
      }
      acc.Reset();
      only.Reset();
      all.clear();
      VF_EV("resets");
      observe(acc, all);
    }
  }
}
