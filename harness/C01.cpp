// Weighted choice selects each index exactly with its weight.
#include "vf_num.hpp"
#include <array>
#include <bwsl/MathUtils.hpp>
#include <deque>
#include <list>
#include <random>
using namespace vf;

/// a generator that hands out scripted 64-bit numbers, then pseudo-random ones
struct Scripted
{
  using result_type = u64;
  static constexpr u64 min() { return 0; }
  static constexpr u64 max() { return ~0ULL; }
  u64 state = 0, calls = 0, first = 0;
  bool use_first = false;
  u64 operator()()
  {
    if (calls++ == 0 && use_first) return first;
    return state = mix64(state);
  }
  bool operator==(Scripted const& o) const { return state == o.state && calls == o.calls; }
};

template<class V>
static std::vector<typename V::value_type>
flat(V const& v)
{
  return { v.begin(), v.end() };
}

template<class F>
static std::vector<F>
weights(Ctx& c)
{
  size_t n = 1 + c.below(c.coin(1, 20) ? 300 : 12);
  if (!VF_SAN && !c.fuzzing() && c.coin(1, 500)) {
    n = c.coin(1, 4) ? 100000 + c.below(1000000) : 65500 + c.below(20000);
    VF_EV("many_weights");
  }
  std::vector<F> w(n, F(0));
  int style = static_cast<int>(c.below(8));
  int e = sizeof(F) == 4 ? static_cast<int>(c.in(-60, 60)) : static_cast<int>(c.in(-900, 900));
  for (size_t i = 0; i < n; i++) {
    switch (style) {
      case 0: w[i] = static_cast<F>(c.unit()); break;
      case 1: w[i] = static_cast<F>(c.below(3)); break;
      case 2: w[i] = c.coin(1, 4) ? static_cast<F>(c.unit()) : F(0); break;
      case 3: w[i] = static_cast<F>(1); break;
      case 4: w[i] = static_cast<F>(std::ldexp(1 + c.unit(), static_cast<int>(c.in(-50, 20)))); break;
      case 5: w[i] = static_cast<F>(std::ldexp(1 + c.unit(), e)); break;
      case 6: w[i] = static_cast<F>(c.below(c.coin() ? 3 : 1 << 20)) * std::numeric_limits<F>::denorm_min(); break;
      default: w[i] = i == n / 2 ? F(1) : F(0); break;
    }
  }
  if (c.coin(1, 4)) w.front() = 0;
  if (c.coin(1, 4)) w.back() = 0;
  F t = 0;
  for (F x : w) t += x;
  if (!(t > 0)) w[c.below(n)] = style == 6 ? std::numeric_limits<F>::denorm_min() : F(1);
  for (F x : w) c.sigd(static_cast<double>(x));
  return w;
}

/// the interval of the cumulative sums that holds u
template<class F>
static size_t
interval(std::vector<F> const& cum, F u)
{
  size_t i = 0;
  while (i < cum.size() && !(u < cum[i])) i++;
  return i;
}

template<class C, class G>
static void
one(Ctx& c, C const& w, G rng, const char* kind)
{
  using F = typename C::value_type;
  auto v = flat(w);
  std::vector<F> cum(v);
  for (size_t i = 1; i < cum.size(); i++) cum[i] = cum[i - 1] + cum[i];
  G model(rng), other(rng);
  F u = std::uniform_real_distribution<F>(F(0), cum.back())(model);
  size_t expect = interval(cum, u);
  auto keep = v;
  size_t got = bwsl::choose_between(w, rng);
  VF_CHECK(got < v.size(), "valid", "%s: index %zu of %zu weights", kind, got, v.size());
  VF_CHECK(v[got] > 0, "positive", "%s: index %zu with weight zero is chosen", kind, got);
  if (cum.back() < std::numeric_limits<F>::min()) VF_EV("subnormal_total");
  // a subnormal product may be rounded to the total, which is no valid draw
  if (!(u < cum.back())) VF_EV("draw_rounded_to_total");
  else
    VF_CHECK(got == expect, "interval", "%s: the draw %.17g of %.17g chooses index %zu, it lies in the interval of %zu", kind, (double)u, (double)cum.back(), got, expect);
  VF_CHECK(flat(w) == keep, "unmodified", "%s: the weights are modified", kind);
  VF_CHECK(rng == model || !(u < cum.back()), "one_draw", "%s: the generator is not advanced by exactly one draw", kind);
  // the same from the cumulative sums
  C ps(w);
  std::copy(cum.begin(), cum.end(), ps.begin());
  size_t g2 = bwsl::choose_between_psums(ps, other);
  VF_CHECK(g2 == got, "psums", "%s: the weights choose %zu, their cumulative sums %zu", kind, got, g2);
  VF_CHECK(flat(ps) == cum, "unmodified", "%s: the cumulative sums are modified", kind);
  VF_CHECK(other == model || !(u < cum.back()), "one_draw", "%s: choosing from sums does not take exactly one draw", kind);
  if (v.size() > 1) c.nontrivial = true;
}

template<class F, class G>
static void
probability(Ctx& c, G rng)
{
  G model(rng);
  F u = std::uniform_real_distribution<F>(F(0), F(1))(model);
  F p;
  switch (c.below(8)) {
    case 0: p = 0; break;
    case 1: p = 1; break;
    case 2: p = static_cast<F>(-c.unit()); break;
    case 3: p = static_cast<F>(1 + c.unit() * 5); break;
    case 4: p = u; break; // exactly the draw: not below it
    case 5: p = std::nextafter(u, F(2)); break;
    case 6: p = std::nextafter(u, F(-1)); break;
    default: p = static_cast<F>(c.unit()); break;
  }
  c.sigd(static_cast<double>(p));
  bool got = bwsl::choose_with_probability(p, rng);
  if (p <= 0) VF_CHECK(!got, "never", "probability %.17g is chosen", (double)p);
  if (p >= 1) VF_CHECK(got, "always", "probability %.17g is not chosen", (double)p);
  VF_CHECK(got == (u < p), "probability", "the draw %.17g with probability %.17g gives %d", (double)u, (double)p, (int)got);
  VF_CHECK(rng == model, "one_draw", "a choice with probability does not take exactly one draw");
}

template<class G>
static void
frequencies(Ctx& c, G rng)
{
  size_t n = 2 + c.below(8);
  std::vector<double> w(n);
  double t = 0;
  for (auto& x : w) t += x = c.coin(1, 5) ? 0.0 : 0.05 + c.unit();
  if (t == 0) t = w[0] = 1;
  const int N = 20000;
  std::vector<int> h(n, 0);
  for (int i = 0; i < N; i++) h.at(bwsl::choose_between(w, rng))++;
  double chi = 0;
  int df = -1;
  for (size_t i = 0; i < n; i++) {
    double e = N * w[i] / t;
    if (e == 0) {
      VF_CHECK(h[i] == 0, "frequencies", "an index of weight zero is chosen %d times", h[i]);
      continue;
    }
    chi += (h[i] - e) * (h[i] - e) / e;
    df++;
  }
  // far beyond the quantile 1-1e-12 for up to nine degrees of freedom
  VF_CHECK(chi < 100, "frequencies", "chi-square %.1f with %d degrees of freedom", chi, df);
  c.note("frequencies ");
}

template<class G>
static void
with(Ctx& c, G g, bool scripted)
{
  if (scripted) VF_EV("scripted");
  switch (c.below(7)) {
    case 0: one(c, weights<double>(c), g, "vector of double"); break;
    case 1: one(c, weights<float>(c), g, "vector of float"); break;
    case 2: {
      auto w = weights<double>(c);
      one(c, std::deque<double>(w.begin(), w.end()), g, "deque");
      break;
    }
    case 3: {
      auto w = weights<double>(c);
      one(c, std::list<double>(w.begin(), w.end()), g, "list");
      break;
    }
    case 4: {
      auto w = weights<double>(c);
      std::array<double, 5> a{};
      for (size_t i = 0; i < 5; i++) a[i] = w[i % w.size()];
      if (!(a[0] + a[1] + a[2] + a[3] + a[4] > 0)) a[2] = 1;
      one(c, a, g, "array");
      break;
    }
    case 5: probability<double>(c, g); break;
    default: probability<float>(c, g); break;
  }
}

void
run_case(Ctx& c)
{
  u64 seed = c.bits64();
  c.sig(seed);
  int n = 1 + static_cast<int>(c.below(6));
  for (int i = 0; i < n; i++) {
    switch (c.below(4)) {
      case 0: {
        std::mt19937_64 g(seed);
        g.discard(c.below(400));
        with(c, g, false);
        break;
      }
      case 1: {
        std::mt19937 g(static_cast<uint32_t>(seed));
        g.discard(c.below(400));
        with(c, g, false);
        break;
      }
      case 2: {
        std::minstd_rand g(static_cast<uint32_t>(seed));
        with(c, g, false);
        break;
      }
      default: {
        // the extreme draws
        Scripted g;
        g.state = seed;
        const u64 edge[] = { 0, 1, ~0ULL, ~0ULL - 1, 1ULL << 63, (1ULL << 63) - 1, 1ULL << 11, ~0ULL << 11, 0xfffffffffffffc00ULL };
        g.first = c.pick(edge);
        g.use_first = true;
        with(c, g, true);
        break;
      }
    }
  }
  if (c.coin(1, 60)) frequencies(c, std::mt19937_64(seed));
}
