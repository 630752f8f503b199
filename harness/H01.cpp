// Histograms conserve their measurements.
#include "vf_num.hpp"
#include <bwsl/HistAccumulator.hpp>
using namespace vf;
using Hist = bwsl::HistAccumulator;

struct Bin
{
  ExactSum s;
  f128 abs = 0;
  u64 n = 0;
};
struct Ref
{
  std::vector<Bin> b;
  u64 count = 0;
};

static bool
bin_ok(double r, Bin const& b, u64 count)
{
  if (b.n == 0) return r == 0;
  f128 C = static_cast<f128>(count);
  f128 N = static_cast<f128>(b.n);
  f128 exact = b.s.value() / C;
  f128 tol = 4 * U * fabsq_(exact) + 8 * N * U * U * N * b.abs / C + 1e-320;
  return near(r, exact, tol);
}

static void
observe(Ctx& c, Hist const& h, Ref const& r)
{
  size_t nb = r.b.size();
  VF_CHECK(h.GetNbins() == nb, "bins", "%zu bins, should be %zu", h.GetNbins(), nb);
  VF_CHECK(h.GetCount() == r.count, "count", "total count %zu, should be %llu", h.GetCount(), (unsigned long long)r.count);
  auto all = h.GetResults();
  VF_CHECK(all.size() == nb, "results", "%zu results for %zu bins", all.size(), nb);
  for (size_t i = 0; i < nb; i++) {
    VF_CHECK(h.GetCount(i) == r.b[i].n, "bin_count", "bin %zu counts %zu, should be %llu", i, h.GetCount(i), (unsigned long long)r.b[i].n);
    double x = h.GetResult(i);
    VF_CHECK(bin_ok(x, r.b[i], r.count), "bin", "bin %zu of %zu reads %.17g, the %llu values in it sum to %.17g of %llu measurements", i, nb, x, (unsigned long long)r.b[i].n, static_cast<double>(r.b[i].s.value()), (unsigned long long)r.count);
    if (r.b[i].n == 0) VF_EV("empty_bin");
    VF_CHECK(same_bits(x, all[i]), "results", "bin %zu reads %.17g alone and %.17g with the others", i, x, all[i]);
  }
  if (nb == 0) return;
  size_t k = c.below(nb);
  auto norm = h.GetResults(k);
  VF_CHECK(norm.size() == nb, "normalised", "%zu normalised results for %zu bins", norm.size(), nb);
  if (all[k] != 0) {
    for (size_t i = 0; i < nb; i++) {
      f128 e = static_cast<f128>(all[i]) / all[k];
      if (fabsq_(e) > 1e300) continue;
      VF_CHECK(near(norm[i], e, 4 * U * fabsq_(e) + 1e-320), "normalised", "bin %zu by bin %zu: %.17g, should be %.17g / %.17g", i, k, norm[i], all[i], all[k]);
    }
  } else {
    VF_EV("normalised_by_empty"); // as divisions by zero go
    for (size_t i = 0; i < nb; i++) {
      if (all[i] == 0) VF_CHECK(std::isnan(norm[i]), "normalised.empty", "bin %zu by the empty bin %zu: %.17g, should be 0 / 0", i, k, norm[i]);
      else VF_CHECK(std::isinf(norm[i]) && std::signbit(norm[i]) == (std::signbit(all[i]) != std::signbit(all[k])), "normalised.empty", "bin %zu by the empty bin %zu: %.17g, should be %.17g / 0", i, k, norm[i], all[i]);
    }
  }
  auto again = h.GetResults();
  for (size_t i = 0; i < nb; i++)
    VF_CHECK(same_bits(all[i], again[i]), "pure", "queries change bin %zu", i);
}

/// billions of measurements in one bin
static void
far(Ctx& c)
{
  size_t nb = 2 + c.below(4), k = c.below(nb), j = (k + 1) % nb;
  Hist h(nb);
  u64 n = 0;
  h.Add(j, 7.0);
  const u64 stops[] = { (1ULL << 24) + 1, (1ULL << 31) + 1, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 32) + 5 };
  for (u64 stop : stops) {
    for (; n < stop; n++) h.Add(k, 0.5);
    VF_CHECK(h.GetCount() == n + 1 && h.GetCount(k) == n && h.GetCount(j) == 1, "far.count", "%zu of %zu measurements in the bin, should be %llu", h.GetCount(k), h.GetCount(), (unsigned long long)n);
    f128 C = static_cast<f128>(n + 1), e = static_cast<f128>(n) / 2 / C, o = 7 / C;
    VF_CHECK(near(h.GetResult(k), e, 8 * U * e) && near(h.GetResult(j), o, 8 * U * o), "far.bin", "the bins of %llu and 1 measurements read %.17g and %.17g", (unsigned long long)n, h.GetResult(k), h.GetResult(j));
    auto all = h.GetResults();
    auto norm = h.GetResults(k);
    VF_CHECK(near(all[k], e, 8 * U * e) && near(all[j], o, 8 * U * o) && near(norm[j], o / e, 12 * U * o / e) && norm[k] == 1, "far.bin", "the bins of %llu and 1 measurements read %.17g and %.17g", (unsigned long long)n, all[k], all[j]);
  }
  c.note("%llu measurements", (unsigned long long)n);
  c.nontrivial = true;
}

/// millions of bins
static void
enormous(Ctx& c)
{
  Hist h(c.below(3) * 1000);
  std::map<size_t, f128> in; // what was added where
  u64 n = 0;
  auto add = [&](size_t i, double v, bool force) {
    if (force) h.ForceAdd(i, v); else h.Add(i, v);
    in[i] += v;
    n++;
  };
  size_t top = (1u << 20) + c.below(4000000);
  add(c.below(2000), 0.5, true);
  for (int k = 0; k < 4; k++) {
    add(top, 1.0 + c.unit(), true);
    VF_CHECK(h.GetNbins() == std::max<size_t>(top + 1, h.GetNbins()) && h.GetCount() == n, "enormous", "%zu bins and %zu measurements after a forced one in bin %zu", h.GetNbins(), h.GetCount(), top);
    for (int j = 0; j < 50; j++) add(c.below(top + 1), c.unit() - 0.5, c.coin());
    auto all = h.GetResults();
    VF_CHECK(all.size() == h.GetNbins() && h.GetNbins() == top + 1, "enormous", "%zu results of %zu bins, should be %zu", all.size(), h.GetNbins(), top + 1);
    size_t used = 0;
    for (double x : all) used += x != 0;
    VF_CHECK(used <= in.size(), "enormous", "%zu bins are not zero, %zu were used", used, in.size());
    for (auto const& e : in)
      VF_CHECK(near(all[e.first], e.second / static_cast<f128>(n), 1e-15Q) && same_bits(all[e.first], h.GetResult(e.first)) && h.GetCount(e.first) > 0, "enormous", "bin %zu of %zu reads %.17g, should be %.17g", e.first, top + 1, all[e.first], static_cast<double>(e.second / static_cast<f128>(n)));
    size_t to = c.coin() ? top + 1 + c.below(100000) : top + 1 - c.below(top / 2);
    h.Resize(to);
    VF_CHECK(h.GetNbins() == to && h.GetResults().size() == to, "enormous", "%zu bins after resizing to %zu", h.GetNbins(), to);
    in.erase(in.lower_bound(to), in.end());
    top = std::max<size_t>(to, top) + c.below(3) * 50000;
  }
  h.Reset();
  VF_CHECK(h.GetCount() == 0 && h.GetCount(in.begin()->first) == 0 && h.GetResult(in.begin()->first) == 0, "enormous", "a reset of %zu bins leaves measurements", h.GetNbins());
  VF_EV("millions_of_bins");
  c.note("up to %zu bins", top);
}

void
run_case(Ctx& c)
{
  if (c.marathon()) return far(c);
  if (!VF_SAN && !c.fuzzing() && c.idx % 6000 == 4321) return enormous(c);
  size_t n0 = c.coin(1, 4) ? 0 : c.below(12);
  if (c.coin(1, 60)) n0 = c.below(2000);
  const bool wide = !VF_SAN && !c.fuzzing() && c.coin(1, 500);
  if (wide) {
    n0 = 65500 + c.below(5000);
    VF_EV("many_bins");
  }
  bool dflt = n0 == 0 && c.coin();
  Hist h = dflt ? Hist() : Hist(n0);
  Ref r;
  r.b.resize(n0);
  c.note("%zu bins; ", n0);
  c.sig(n0);
  int style = static_cast<int>(c.below(7));
  double big = std::ldexp(1.0 + c.unit(), static_cast<int>(c.in(10, 60)));
  int turn = 0;
  auto value = [&]() -> double {
    switch (style) {
      case 0: return 1.0;
      case 1: return c.unit();
      case 2: return c.unit() - 0.5;
      case 3: return c.real();
      case 4: return turn++ % 2 ? -big + c.unit() : big;
      case 5: return turn++ == 0 ? big : c.unit();
      default: return c.real(1, 100);
    }
  };
  observe(c, h, r);
  int steps = 1 + static_cast<int>(c.below(c.fuzzing() || wide ? 60 : c.coin(1, 20) ? 600 : 60));
  int adds = 0;
  for (int k = 0; k < steps; k++) {
    u64 op = c.below(20);
    c.sig(op);
    if (op < 9 && r.b.empty()) op = 12;
    if (op < 9) {
      size_t i = c.below(r.b.size());
      c.sig(i);
      int kind = static_cast<int>(c.below(6));
      double v;
      if (kind == 0) {
        h.Add(i);
        v = 1;
      } else if (kind == 1) {
        long l = static_cast<long>(c.in(-1000, 1000));
        h.Add(i, l);
        v = static_cast<double>(l);
      } else if (kind == 5) {
        auto l = static_cast<unsigned long>(c.bits64()) >> c.below(64);
        h.Add(i, l);
        v = static_cast<double>(l);
      } else if (kind == 2) {
        float f = static_cast<float>(value());
        if (std::isinf(f)) f = 1;
        h.Add(i, f);
        v = f;
      } else {
        v = value();
        h.Add(i, v);
      }
      r.b[i].s.add(v);
      r.b[i].abs += std::fabs(v);
      r.b[i].n++;
      r.count++;
      adds++;
    } else if (op < 15) {
      size_t nb = r.b.size();
      size_t i = c.coin(1, 3) ? nb : c.coin(1, 10) ? nb + c.below(300) : c.below(nb + 6);
      double v;
      bool grows = i >= nb;
      auto before = h.GetResults();
      if (c.coin(1, 3)) {
        h.ForceAdd(i);
        v = 1;
      } else if (c.coin(1, 5)) {
        int q = static_cast<int>(c.in(-100, 100));
        h.ForceAdd(i, q);
        v = q;
      } else if (c.coin(1, 5)) {
        auto l = static_cast<unsigned long>(c.bits64()) >> c.below(64);
        h.ForceAdd(i, l);
        v = static_cast<double>(l);
      } else {
        v = value();
        h.ForceAdd(i, v);
      }
      if (grows) {
        r.b.resize(i + 1);
        VF_EV("grown");
        VF_CHECK(h.GetNbins() == i + 1, "growth", "forced addition to bin %zu of %zu leaves %zu bins", i, nb, h.GetNbins());
      }
      r.b[i].s.add(v);
      r.b[i].abs += std::fabs(v);
      r.b[i].n++;
      r.count++;
      adds++;
    } else if (op < 17) {
      size_t nb = r.b.size();
      size_t m = c.coin(1, 3) ? nb + c.below(8) : c.coin(1, 8) ? c.below(400) : c.below(nb + 1);
      h.Resize(m);
      r.b.resize(m);
      VF_EV("resizes");
      if (m < nb) VF_EV("shrunk");
      c.sig(m);
    } else if (op < 18) {
      size_t nb = h.GetNbins();
      h.Reset();
      for (auto& b : r.b) b = Bin{};
      r.count = 0;
      turn = 0;
      VF_CHECK(h.GetNbins() == nb, "reset.bins", "reset changes %zu bins to %zu", nb, h.GetNbins());
      VF_EV("resets");
    } else
      observe(c, h, r);
    if (r.b.size() < 12 && c.coin(1, 4)) observe(c, h, r);
  }
  observe(c, h, r);
  if (adds > 1) c.nontrivial = true;
}
