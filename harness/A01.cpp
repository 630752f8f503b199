// Compensated sums stay within their error bound for every sequence.
#include "vf_num.hpp"
#include <bwsl/Accumulators.hpp>
#include <deque>
#include <list>
using namespace vf;
using Kahan = bwsl::accumulators::KahanAccumulator;
using Neumaier = bwsl::accumulators::NeumaierAccumulator;

struct Ref
{
  ExactSum s, a;
  u64 n = 0;
  void add(double x) { s.add(x); a.add(std::fabs(x)); n++; }
  void clear() { s.clear(); a.clear(); n = 0; }
};

template<class A>
static f128
bound(Ref const& r);
template<>
f128
bound<Kahan>(Ref const& r)
{
  f128 S = r.a.value(), n = static_cast<f128>(r.n);
  return S * (4 * static_cast<f128>(U) + 8 * n * U * U) + 1e-320;
}
template<>
f128
bound<Neumaier>(Ref const& r)
{
  f128 S = r.a.value(), s = fabsq_(r.s.value()), n = static_cast<f128>(r.n);
  return 4 * static_cast<f128>(U) * s + 4 * n * n * U * U * S + 1e-320;
}

template<class A>
static void
observe(A const& acc, Ref const& r, const char* name)
{
  double s = acc.Sum();
  f128 err = fabsq_(r.s.minus(s)), b = bound<A>(r);
  VF_CHECK(err <= b, "error_bound", "%s: sum %.17g of %llu values is off by %.3g, bound %.3g", name, s, (unsigned long long)r.n, static_cast<double>(err), static_cast<double>(b));
  VF_CHECK(acc.Count() == r.n, "count", "%s: count %lu of %llu values", name, acc.Count(), (unsigned long long)r.n);
  if (r.n > 0) {
    double m = acc.Mean(), q = s / static_cast<double>(r.n);
    VF_CHECK(m == q || std::fabs(m - q) <= 2 * U * std::fabs(q) + 5e-324, "mean", "%s: mean %.17g of sum %.17g over %llu", name, m, s, (unsigned long long)r.n);
  }
}

template<class A>
static void
history(Ctx& c, const char* name, size_t maxlen)
{
  A acc, quiet; // quiet receives the same additions but is never queried
  Ref r;
  int rounds = 1 + static_cast<int>(c.below(4));
  for (int k = 0; k < rounds; k++) {
    int style;
    auto x = real_sequence(c, maxlen, style);
    if (maxlen > 60 && c.coin(1, 12)) { // the value is hidden in the compensation while small values come and go
      double big = std::ldexp(1.0, static_cast<int>(c.in(60, 300))), hidden = c.real(1.0, 3), little = c.real(hidden * std::ldexp(1.0, -static_cast<int>(c.in(10, 60))), 1), mid = hidden * c.unit();
      x = { big, hidden, -big, little };
      if (c.coin()) std::swap(x[0], x[1]);
      while (x.size() < maxlen) {
        x.push_back(mid);
        x.push_back(-mid);
      }
      VF_EV("hidden_values");
    }
    if (!x.empty() && c.coin(1, 6)) { // values too small to matter between the others
      const double none[] = { 0.0, -0.0, 5e-324, -5e-324, 1e-310, -3e-301, 1e-290 };
      bool same = c.coin();
      double t = c.pick(none);
      std::vector<double> y;
      for (double v : x) {
        if (y.size() >= 2 * maxlen) break;
        y.push_back(v);
        for (u64 k = 1 + c.below(2); k-- > 0;) y.push_back(same ? t : c.pick(none));
      }
      x.swap(y);
      VF_EV("interleaved");
    }
    c.sig(static_cast<u64>(style));
    c.sig(x.size());
    c.note("%s: %zu values of style %d; ", name, x.size(), style);
    size_t every = x.size() > 300 ? x.size() / 20 : 1 + c.below(4);
    if (x.size() > 1) c.nontrivial = true;
    if (x.size() > 3000) VF_EV("long_sequences");
    if (c.coin(1, 3)) { // through the range function
      A* back = nullptr;
      switch (c.below(4)) {
        case 0: back = &bwsl::apply_accumulator(x.begin(), x.end(), acc); break;
        case 1: back = &bwsl::apply_accumulator(x.data(), x.data() + x.size(), acc); break;
        case 2: {
          std::list<double> l(x.begin(), x.end());
          back = &bwsl::apply_accumulator(l.cbegin(), l.cend(), acc);
          break;
        }
        default: {
          std::deque<double> d(x.begin(), x.end());
          back = &bwsl::apply_accumulator(d.begin(), d.end(), acc);
          break;
        }
      }
      VF_CHECK(back == &acc, "apply.same_object", "%s: apply_accumulator returns another object", name);
      for (double v : x) { r.add(v); quiet.Add(v); c.sigd(v); }
    } else {
      for (size_t i = 0; i < x.size(); i++) {
        acc.Add(x[i]);
        quiet.Add(x[i]);
        r.add(x[i]);
        c.sigd(x[i]);
        if (i % every == 0) observe(acc, r, name);
      }
    }
    observe(acc, r, name);
    VF_CHECK(same_bits(quiet.Sum(), acc.Sum()) && quiet.Count() == acc.Count(), "queries_are_pure", "%s: sum %.17g when queried, %.17g when not", name, acc.Sum(), quiet.Sum());
    if (c.coin()) {
      if (c.coin(1, 3)) { // a reset also forgets what has overflowed
        const double wild[] = { 1e308, -1e308, 1.7e308, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan("") };
        int m = 1 + static_cast<int>(c.below(4));
        for (int i = 0; i < m; i++) {
          double v = c.pick(wild);
          acc.Add(v);
          quiet.Add(v);
        }
        VF_EV("reset_after_overflow");
      }
      acc.Reset();
      quiet.Reset();
      r.clear();
      VF_CHECK(acc.Sum() == 0.0 && acc.Count() == 0, "reset", "%s: sum %.17g count %lu after reset", name, acc.Sum(), acc.Count());
      VF_EV("resets");
      // from here on it behaves like a new one
      A fresh, same = acc;
      int st;
      auto y = real_sequence(c, 20, st);
      for (double v : y) {
        fresh.Add(v);
        same.Add(v);
        VF_CHECK(same_bits(fresh.Sum(), same.Sum()) && fresh.Count() == same.Count() && same_bits(fresh.Mean(), same.Mean()), "reset.fresh", "%s: %.17g after reset, %.17g when new", name, same.Sum(), fresh.Sum());
      }
    }
  }
}

/// billions of one value and its neighbour
template<class A>
static void
far(Ctx& c, const char* name)
{
  A acc;
  const double v[2] = { 0.1 + c.unit(), 0.1 * c.unit() };
  const u64 stops[] = { (1ULL << 24) + 1, (1ULL << 24) + 6, (1ULL << 31) + 1, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 32) + 2, (1ULL << 32) + 7 };
  u64 n = 0;
  for (u64 stop : stops) {
    for (; n < stop; n++) acc.Add(v[n & 1]);
    f128 k1 = static_cast<f128>(n / 2), k0 = static_cast<f128>(n) - k1;
    f128 s = k0 * v[0] + k1 * v[1];
    VF_CHECK(acc.Count() == n, "far.count", "%s: count %lu of %llu values", name, acc.Count(), (unsigned long long)n);
    f128 t = std::is_same<A, Kahan>::value ? 0 : 4 * static_cast<f128>(n) * n * U * U;
    VF_CHECK(near(acc.Sum(), s, (6 * U + t) * s), "far.error_bound", "%s: sum %.17g of %llu values, exactly %.17g", name, acc.Sum(), (unsigned long long)n, static_cast<double>(s));
    f128 m = s / static_cast<f128>(n);
    VF_CHECK(near(acc.Mean(), m, (8 * U + t) * m), "far.mean", "%s: mean %.17g of %llu values, exactly %.17g", name, acc.Mean(), (unsigned long long)n, static_cast<double>(m));
  }
  c.note("%s: %llu values", name, (unsigned long long)n);
  c.nontrivial = true;
}

void
run_case(Ctx& c)
{
  if (c.marathon()) return c.lap() == 0 ? far<Kahan>(c, "Kahan") : far<Neumaier>(c, "Neumaier");
  size_t maxlen = c.fuzzing() ? 60 : c.coin(1, 60) ? 30000 : c.coin(1, 8) ? 2000 : 120;
#ifdef VF_THOROUGH
  if (!c.fuzzing() && c.coin(1, 2000)) maxlen = 2000000;
#endif
  if (c.coin()) history<Kahan>(c, "Kahan", maxlen);
  else history<Neumaier>(c, "Neumaier", maxlen);
}
